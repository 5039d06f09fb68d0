"""P05 interpolation at a measured depth stays on the minimum-curvature arc."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import grid_azi, make_header, nev


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=2, max_n=8, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    n = len(c["md"])
    # (interval, fraction): fractions 0 and 1 are survey stations
    c["at"] = [[draw(st.integers(0, n - 2)),
                draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), gens.q(0, 1, 0.001)))]
               for _ in range(draw(st.integers(1, 4)))]
    c["cov"] = draw(st.booleans())
    return c


def build(c, **kw):
    return we.survey.Survey(
        md=c["md"], inc=c["inc"], azi=c["azi"], header=make_header(c["h"]),
        unit=c["h"]["depth_unit"], start_nev=c["start_nev"], **kw)


def cov_of(c):
    """A different PSD matrix per station, growing with depth."""
    out = []
    for k, m in enumerate(c["md"]):
        v = np.array([1.0 + k, 2.0 - 0.3 * k, 0.5 * k])
        out.append(np.outer(v, v) + np.eye(3) * k)
    return np.array(out)


def run_md(c):
    cov = cov_of(c) if c["cov"] else None
    s = build(c, cov_nev=None if cov is None else cov.copy())
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    tol = 1e-5 + 1e-8 * (c["md"][-1] - c["md"][0])
    before = (s.md.copy(), s.inc_rad.copy(), s.azi_grid_rad.copy(), nev(s),
              copy.copy(vars(s.header)))
    hit = False
    for j, f in c["at"]:
        L = p.md[j + 1] - p.md[j]
        md = float(p.md[j] + f * L)
        if f == 1.0:
            md = float(p.md[j + 1])
        hit = hit or (0 < f < 1 and p.dl[j + 1] > 1e-4)
        d, t = geo.arc(p.t[j], p.t[j + 1], L, md - p.md[j])
        want = p.pos[j] + d
        node = s.interpolate_md(md)
        check(node is not None, f"no node at md {md} inside the survey")
        close(node.pos_nev, want, tol, what=f"position at md {md}")
        close(node.pos_xyz, want[[1, 0, 2]], tol, what=f"xyz position at md {md}")
        close(node.vec_nev, t, 1e-6, what=f"direction at md {md}")
        close(node.vec_xyz, t[[1, 0, 2]], 1e-6, what=f"xyz direction at md {md}")
        inc = math.atan2(math.hypot(t[0], t[1]), t[2])
        close(node.inc_rad, inc, 1e-6, what="inclination")
        close(node.inc_deg, math.degrees(inc), 1e-4, what="inclination (deg)")
        if math.sin(inc) > 1e-3:
            close(angdiff(node.azi_rad, math.atan2(t[1], t[0])), 0.0, 1e-5,
                  what="azimuth")
            close(angdiff(np.radians(node.azi_deg), node.azi_rad), 0.0, 1e-9,
                  what="azimuth (deg)")
        close(node.md, md, 1e-9, what="measured depth of node")
        check(node.unit == c["h"]["depth_unit"], f"unit of node {node.unit}")
        at_station = np.abs(p.md - md).min() == 0
        if at_station:
            check(not node.interpolated, "a survey station flagged interpolated")
        elif np.abs(p.md - md).min() > 1e-6:
            check(bool(node.interpolated), "an interpolated point not flagged")
        # the module function returns the same point as a survey
        q = we.survey.interpolate_md(s, md)
        close(nev(q)[-1], want, tol, what="position (module function)")
        close(q.md[-1], md, 1e-9, what="measured depth (module function)")
        check(q.unit == c["h"]["depth_unit"], "unit (module function)")
        close(q.vec_nev[-1], t, 1e-6, what="direction (module function)")
        if cov is not None:
            k = (md - p.md[j]) / L
            close(q.cov_nev[-1], cov[j] + k * (cov[j + 1] - cov[j]), 1e-6,
                  what="covariance between stations")
    check(s.interpolate_md(c["md"][-1] + 1.0) is None,
          "a point beyond the end of the survey")
    close(s.md, before[0], 0, what="survey md after interpolating")
    close(s.inc_rad, before[1], 0, what="survey inc after interpolating")
    close(s.azi_grid_rad, before[2], 0, what="survey azi after interpolating")
    close(nev(s), before[3], 0, what="survey positions after interpolating")
    check(vars(s.header) == before[4], "header changed by interpolating")
    return Info(hit, [c["h"]["azi_reference"], c["h"]["depth_unit"],
                      "station" if any(f in (0.0, 1.0) for _, f in c["at"])
                      else "between"])


PROP = Prop("P05", [
    Facet("md", case(), run_md, 3000,
          rule="random well, header and depths (stations, fractions); "
               "non-trivial: at least one depth strictly inside a bending interval"),
], assumptions=["successive directions differ by less than 180 degrees"])
