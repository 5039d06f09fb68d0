"""P07 interpolation by true vertical depth."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import grid_azi, make_header, nev
from .p05 import build


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=2, max_n=7, max_inc=80.0, min_step=5.0, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    n = len(c["md"])
    c["at"] = [[draw(st.integers(0, n - 2)),
                draw(st.one_of(st.sampled_from([0.0, 0.5]), gens.q(0, 1, 0.001)))]
               for _ in range(draw(st.integers(1, 4)))]
    c["step"] = draw(st.one_of(st.sampled_from([10, 50.0]), gens.q(5, 200, 0.1)))
    return c


def path(c):
    return geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])


def run_point(c):
    s = build(c)
    p = path(c)
    span = c["md"][-1] - c["md"][0]
    hd, before = copy.copy(vars(s.header)), nev(s)
    hit = False
    for j, f in c["at"]:
        L = p.md[j + 1] - p.md[j]
        d, t = geo.arc(p.t[j], p.t[j + 1], L, f * L)
        want = p.pos[j] + d
        if f == 0.0:
            want = nev(s)[j]
        if f == 1.0:
            want = nev(s)[j + 1]
        hit = hit or (0 < f < 1 and p.dl[j + 1] > 1e-4)
        node = s.interpolate_tvd(float(want[2]))
        # md is recovered from tvd: its error is that of tvd over cos(inc)
        amp = 1 / max(0.1, min(p.t[j][2], p.t[j + 1][2]))
        tol = (1e-4 + 1e-7 * span) * amp
        close(node.pos_nev[2], want[2], tol, what="tvd of node")
        close(node.pos_nev, want, tol, what=f"position at tvd {want[2]}")
        close(node.md, p.md[j] + f * L, tol, what=f"md at tvd {want[2]}")
        close(node.vec_nev, t, 1e-5 * amp, what=f"direction at tvd {want[2]}")
        check(node.unit == c["h"]["depth_unit"], "unit of node")
    close(nev(s), before, 0, what="survey after interpolating")
    check(vars(s.header) == hd, "header changed by interpolating")
    return Info(hit, [c["h"]["azi_reference"], c["h"]["depth_unit"]])


def run_resample(c):
    s = build(c)
    p = path(c)
    hd, before = copy.copy(vars(s.header)), nev(s)
    r = s.interpolate_survey_tvd(step=c["step"])
    span = c["md"][-1] - c["md"][0]
    amp = 1 / math.cos(math.radians(max(c["inc"])))
    tol = (1e-3 + 1e-7 * span) * amp
    check((np.diff(r.md) > 0).all(), "measured depths not increasing")
    check(r.unit == hd["depth_unit"], "unit changed")
    for k, md in enumerate(r.md):
        pos, t = p.at(min(max(float(md), p.md[0]), p.md[-1]))
        close(nev(r)[k], pos, tol, what=f"position at md {md}")
        close(r.vec_nev[k], t, 1e-4, what=f"direction at md {md}")
    dist = np.abs(r.md[:, None] - np.array(c["md"])[None, :])
    check((dist.min(axis=0) < 1e-3).all(), "an original station is missing")
    orig = dist.min(axis=1) < 1e-6
    added = ~(dist.min(axis=1) < 1e-3)
    flags = np.array([bool(x) for x in r.interpolated])
    check(flags[added].all(), "an added station isn't flagged interpolated")
    # every multiple of the step between top and bottom is present
    top, bot = p.pos[0][2], p.pos[-1][2]
    n = int(math.floor((bot - top) / c["step"]))
    grid = top + c["step"] * np.arange(1, n + 1)
    grid = grid[grid < bot - 1e-3]
    clash = np.array([len(grid) > 0 and np.abs(grid - v).min() < 2 * tol
                      for v in r.tvd])
    check(not flags[orig & ~clash & (np.arange(len(orig)) > 0)].any(),
          "an original station is flagged interpolated")
    for g in grid:
        check(np.abs(r.tvd - g).min() < tol,
              lambda: f"no station at tvd {g}; have {r.tvd.tolist()}")
    # and nothing else was added
    for v in r.tvd[added]:
        check(len(grid) and np.abs(grid - v).min() < tol,
              lambda: f"station at tvd {v} is neither original nor on the step")
    close(nev(s), before, 0, what="survey after resampling")
    check(vars(s.header) == hd, "header changed by resampling")
    return Info(added.any() and p.dl.max() > 1e-3,
                [c["h"]["azi_reference"], c["h"]["depth_unit"]])


PROP = Prop("P07", [
    Facet("point", case(), run_point, 2000,
          rule="random descending well, header and depths; non-trivial: a depth "
               "strictly inside a bending interval"),
    Facet("resample", case(), run_resample, 300,
          rule="random descending well and step; non-trivial: stations were added "
               "to a bending well"),
], assumptions=["inclination at most 80 degrees, so depth identifies the point"])
