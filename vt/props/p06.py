"""P06 resampling a survey by measured depth keeps the well."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import grid_azi, make_header, nev
from .p05 import build, cov_of


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=2, max_n=7, min_step=2.0, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["start_xyz"] = draw(st.one_of(st.just([0.0, 0.0, 0.0]), gens.nev_offset))
    c["step"] = draw(st.one_of(st.sampled_from([10, 30, 30.0, 100.0, 5000.0]),
                               gens.q(5, 200, 0.1)))
    c["cov"] = draw(st.booleans())
    c["radius"] = draw(st.one_of(st.none(), gens.q(0.05, 0.6)))
    return c


def run(c):
    cov = cov_of(c) if c["cov"] else None
    kw = {}
    if c["radius"] is not None:
        kw["radius"] = [c["radius"] + 0.01 * k for k in range(len(c["md"]))]
    s = we.survey.Survey(
        md=c["md"], inc=c["inc"], azi=c["azi"], header=make_header(c["h"]),
        unit=c["h"]["depth_unit"], start_nev=c["start_nev"],
        start_xyz=c["start_xyz"], cov_nev=None if cov is None else cov.copy(),
        **kw)
    hd = copy.copy(vars(s.header))
    before = nev(s)
    r = s.interpolate_survey(step=c["step"])
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    span = c["md"][-1] - c["md"][0]
    tol = 1e-3 + 1e-7 * span
    check(len(r.md) == len(r.inc_rad) == len(r.n), "ragged result")
    check((np.diff(r.md) > 0).all(), "measured depths not increasing")
    check(r.unit == s.unit and r.header.depth_unit == hd["depth_unit"],
          "unit changed")
    close(r.md[0], c["md"][0], 1e-6, what="first station")
    close(r.md[-1], c["md"][-1], 1e-6, what="last station")
    check((np.diff(r.md) <= c["step"] + 1e-6).all(),
          lambda: f"gap {np.diff(r.md).max()} exceeds the step {c['step']}")
    idx = np.searchsorted(r.md, np.array(c["md"]) - 1e-6)
    close(r.md[idx], c["md"], 1e-6, what="original stations kept")
    flags = np.array([bool(x) for x in r.interpolated])
    orig = np.zeros(len(r.md), bool)
    orig[idx] = True
    check(flags.shape == orig.shape and (flags == ~orig).all(),
          lambda: f"interpolated flags {flags.tolist()} for {r.md.tolist()}")
    for k, md in enumerate(r.md):
        pos, t = p.at(min(float(md), p.md[-1]))
        close(nev(r)[k], pos, tol, what=f"position at md {md}")
        close(r.vec_nev[k], t, 1e-5, what=f"direction at md {md}")
    # stated in the same azimuth reference
    check(r.header.azi_reference == hd["azi_reference"], "azimuth reference")
    m = np.sin(p.t[:, 2] * 0 + np.radians(c["inc"])) > 1e-3
    d = angdiff(r.azi_grid_rad[idx], np.radians(g))
    close(d[m], np.zeros(m.sum()), 1e-4, what="grid azimuth at stations")
    close(np.asarray(r.pos_xyz)[0], c["start_xyz"], 1e-9, what="start xyz")
    j = np.array([p.bracket(float(x) + 1e-6) for x in r.md])
    rad = np.asarray(s.radius, float)
    jr = np.array([int(np.searchsorted(p.md, x + 1e-6, side="right") - 1)
                   for x in r.md])
    close(r.radius, rad[jr], 1e-12, what="radius of hole section")
    if cov is not None:
        check(r.cov_nev is not None, "covariance lost")
        for k, md in enumerate(r.md):
            f = (md - p.md[j[k]]) / (p.md[j[k] + 1] - p.md[j[k]])
            want = cov[j[k]] + f * (cov[j[k] + 1] - cov[j[k]])
            close(r.cov_nev[k], want, 1e-5, what=f"covariance at md {md}")
    close(nev(s), before, 0, what="survey after resampling")
    check(vars(s.header) == hd, "header changed by resampling")
    added = len(r.md) > len(c["md"])
    return Info(added and p.dl.max() > 1e-3,
                [c["h"]["azi_reference"], c["h"]["depth_unit"],
                 "cov" if c["cov"] else "nocov", "added" if added else "same"])


PROP = Prop("P06", [
    Facet("md", case(), run, 700,
          rule="random well, header, covariance, step; non-trivial: stations "
               "were added to a bending well"),
], assumptions=["stations at least 2 apart in measured depth"])
