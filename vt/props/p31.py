"""P31 well-path indices: difficulty, tortuosity, maximum curvature."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from ..mk import grid_azi, make_header, nev
from .p05 import build


@st.composite
def case_plan(draw):
    """A plan of clearly separate holds and turns, several stations on each."""
    return {"inc": draw(st.one_of(st.just(0.0), gens.q(1, 80))),
            "azi": draw(gens.angle_deg),
            "legs": [{"hold": draw(st.booleans()), "L": draw(gens.q(30, 900, 0.1)),
                      "n": draw(st.integers(1, 4)), "turn": draw(gens.q(3, 60)),
                      "tf": draw(gens.angle_deg)}
                     for _ in range(draw(st.integers(1, 6)))],
            "h": draw(gens.header(mag=False)),
            "md": draw(st.one_of(st.just(0.0), gens.q(0, 3000, 0.1))),
            "start_nev": draw(gens.nev_offset),
            "dls_tol": draw(st.sampled_from([0.0, 1e-6, 1e-3, 0.1])),
            "rtol": draw(st.sampled_from([None, None, 1e-3, 0.15, 0.4, 0.8])),
            "step": draw(gens.q(10, 60)), "noise": draw(gens.q(0.1, 3))}


@st.composite
def case_plane(draw):
    """The same with turns that go on in the plane of the one before."""
    c = draw(case_plan())
    for g in c["legs"]:
        g["on"] = draw(st.booleans())
        g["hold"] = g["hold"] and draw(st.booleans())
    return c


def plan(c):
    """(md, directions, index of the leg that ends at each station)"""
    t = geo.tangent(c["inc"], c["azi"])
    md, dirs, leg = [c["md"]], [t], [0]
    prev = None
    for i, g in enumerate(c["legs"]):
        hold = g["hold"] and not isinstance(prev, str)
        if hold:
            for k in range(g["n"]):
                md.append(md[-1] + g["L"] / g["n"])
                dirs.append(dirs[-1])
                leg.append(i)
            prev = "hold"
            continue
        t = dirs[-1]
        x = np.cross(t, np.eye(3)[int(np.argmin(np.abs(t)))])
        x /= np.linalg.norm(x)
        y = np.cross(t, x)
        f = math.radians(g["tf"])
        w = math.cos(f) * x + math.sin(f) * y
        on = g.get("on") and isinstance(prev, np.ndarray)
        if on:                  # on in the same plane, with another severity
            w = np.cross(prev, t)
        normal = np.cross(t, w)
        if not on and prev is not None and not isinstance(prev, str):
            if np.abs(prev - normal).max() < 0.3:
                raise Skip      # nearly the same plane: no clear boundary
        th = math.radians(g["turn"])
        for k in range(1, g["n"] + 1):
            q = th * k / g["n"]
            md.append(md[-1] + g["L"] / g["n"])
            dirs.append(math.cos(q) * t + math.sin(q) * w)
            leg.append(i)
        prev = normal
    return np.array(md), np.array(dirs), np.array(leg)


def plan_survey(c):
    md, d, leg = plan(c)
    inc = np.degrees(np.arctan2(np.hypot(d[:, 0], d[:, 1]), d[:, 2]))
    azi = np.degrees(np.arctan2(d[:, 1], d[:, 0])) % 360
    if (inc[1:] < 0.01).any() and (inc > 0).any():
        # leaving the vertical: azimuths there are noise
        if ((inc < 0.01) & (inc > 0)).any():
            raise Skip
    shift = azi - grid_azi(c["h"], azi)     # state them in the header's reference
    s = we.survey.Survey(md=md, inc=inc, azi=azi + shift, header=make_header(c["h"]),
                         unit=c["h"]["depth_unit"], start_nev=c["start_nev"])
    p = geo.Path(md, inc, azi, c["start_nev"])
    return s, p, leg


def differ(a, b, rtol, atol):
    """Continuity of two normals as numpy.isclose has it, NaN next to NaN being
    continuous; None when too close to call."""
    na, nb = np.isnan(a).any(), np.isnan(b).any()
    if na or nb:
        return not (na and nb)
    m = np.abs(a - b) - (atol + rtol * np.abs(b))
    if np.abs(m).min() < 1e-6:
        return None
    return bool((m > 0).any())


def reference_index(s, p, modified, dls_tol, rtol=None):
    """Sections start where the plane of turning changes (and, for the modified
    index, where the severity does); the index accumulates, section by section,
    the excess of along-hole length over chord."""
    n = len(p.md)
    norm = []      # normals of the planes of turning
    for k in range(n - 1):
        if p.dl[k + 1] == 0:
            norm.append(np.full(3, np.nan))
        else:
            x = np.cross(p.t[k], p.t[k + 1])
            norm.append(x / np.linalg.norm(x))
    den = 30.0 if s.unit == "meters" else 100.0
    dls = np.degrees(p.dl[1:]) / np.diff(p.md) * den
    tol = rtol if rtol is not None else 1.0 if modified else 0.01
    starts = [0]
    for k in range(n - 2):
        d = differ(norm[k], norm[k + 1], tol, tol)
        if d is None:
            raise Skip
        if dls_tol is not None and not d:
            m = abs(dls[k] - dls[k + 1]) - (tol + dls_tol * dls[k + 1])
            if abs(m) < 1e-6:
                raise Skip
            d = m > 0
        if d:
            starts.append(k + 1)
    foot = 1.0 if modified or s.unit == "feet" else 0.3048
    out = [0.0]
    base, last, sec = 0.0, 0.0, 0
    for k in range(1, n):
        while sec + 1 < len(starts) and starts[sec + 1] < k:
            sec += 1
            base = last
        i = starts[sec]
        lc = (p.md[k] - p.md[i]) / foot
        lx = np.linalg.norm(p.pos[k] - p.pos[i]) / foot
        e = lc / lx - 1
        if modified:
            e /= lc
        last = base + e
        m, L = sec + 1, (p.md[k] - p.md[0]) / foot
        out.append(m / (m + 1) * last * (L if modified else 1e7 / L))
    return np.array(out), starts


def run_ti(c):
    s, p, leg = plan_survey(c)
    if len(p.md) < 3:
        raise Skip
    if (p.dl[1:][p.dl[1:] > 0] < 1e-4).any():
        raise Skip
    tol = c["dls_tol"]
    ti, mti = we.survey.tortuosity_index, we.survey.modified_tortuosity_index

    def judge(got, modified, dls_tol, what, rtol=None):
        want, starts = reference_index(s, p, modified, dls_tol, rtol)
        atol = 1e-9 if modified else 1e-2
        data = got if isinstance(got, dict) else None
        if data:
            got = data["mti" if modified else "ti"]
            check(list(data["starts"]) == starts,
                  lambda: f"sections start at {data['starts']}, not {starts}")
            close(data["mds"], p.md[starts], 1e-9, what=f"starts of sections ({what})")
            check(len(data["n_sections"]) == len(starts), f"sections of {what}")
        close(np.asarray(got, float), want, atol + 1e-6 * np.abs(want).max(), 1e-5,
              what=what)
        return len(starts)

    ns = judge(s.tortuosity_index(), False, None, "tortuosity index")
    judge(ti(s), False, None, "tortuosity index (function)")
    judge(s.tortuosity_index(data=True), False, None, "tortuosity index (data)")
    r = c["rtol"]
    if r is not None:
        judge(s.tortuosity_index(rtol=r), False, None, "tortuosity index with rtol", r)
        judge(ti(s, rtol=r), False, None, "tortuosity index with rtol (function)", r)
        judge(mti(s, rtol=r), True, 1e-3, "modified tortuosity index with rtol", r)
        judge(s.modified_tortuosity_index(rtol=r, dls_noise=None), True, 1e-3,
              "modified tortuosity index with rtol and without noise", r)
    judge(s.tortuosity_index(dls_tol=tol), False, tol, "tortuosity index with dls_tol")
    judge(ti(s, dls_tol=tol), False, tol, "tortuosity index with dls_tol (function)")
    judge(mti(s), True, 1e-3, "modified tortuosity index (function)")
    judge(mti(s, dls_tol=None), True, None, "modified tortuosity index without dls_tol")
    judge(mti(s, data=True), True, 1e-3, "modified tortuosity index (data)")
    judge(s.modified_tortuosity_index(dls_noise=None), True, 1e-3,
          "modified tortuosity index without noise")
    judge(s.modified_tortuosity_index(dls_noise=None, dls_tol=None), True, None,
          "modified tortuosity index without noise or dls_tol")
    if (p.md[-1] - p.md[0]) / c["step"] < 150:
        r = s.interpolate_survey(step=c["step"]).maximum_curvature(dls_noise=c["noise"])
        close(s.modified_tortuosity_index(step=c["step"], dls_noise=c["noise"]),
              mti(r), 1e-12, 1e-9, what="modified tortuosity index with noise")
    check(s.tortuosity_index()[0] == 0, "tortuosity at the start")
    return Info(ns > 1 or (p.dl > 0).any(),
                [c["h"]["depth_unit"], c["h"]["azi_reference"], f"{min(ns, 4)} sections"])


# --- directional difficulty ---------------------------------------------------
@st.composite
def case_ddi(draw):
    c = draw(gens.stations(min_n=2, max_n=8, start_md=0.0))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = [0.0, 0.0, 0.0]
    return c


def run_ddi(c):
    s = build(c)
    p = geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]))
    ft = 1.0 if c["h"]["depth_unit"] == "feet" else 1 / 0.3048
    got = np.asarray(s.directional_difficulty_index(), float)
    check(got.shape == (len(c["md"]),), "a ddi per station")
    close(np.asarray(we.survey.directional_difficulty_index(s), float), got, 0,
          what="ddi (function)")
    turn = 0.0
    hit = False
    for k in range(len(c["md"])):
        turn += math.degrees(p.dl[k])
        ahd, tvd = math.hypot(*p.pos[k, :2]) * ft, p.pos[k, 2] * ft
        md = p.md[k] * ft
        if tvd < 0.1 or ahd < 1e-3 or turn < 1e-6:
            if tvd > 0.1 and (turn == 0 or ahd == 0):
                close(got[k], 0.0, 1e-9, what="ddi of a well without displacement")
            continue
        hit = True
        close(got[k], math.log10(md * ahd * turn / tvd), 1e-5, what="ddi")
    return Info(hit, [c["h"]["depth_unit"], c["h"]["azi_reference"]])


# --- maximum curvature --------------------------------------------------------
@st.composite
def case_max(draw):
    c = draw(gens.stations(min_n=2, max_n=7, max_dinc=15, max_dazi=15, min_step=10, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["noise"] = draw(st.one_of(st.just(1.0), gens.q(0.01, 5), gens.q(5, 100)))
    return c


def run_max(c):
    s = build(c)
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    before = nev(s)
    m = s.maximum_curvature(dls_noise=c["noise"])
    den = 30.0 if c["h"]["depth_unit"] == "meters" else 100.0
    check(m.unit == c["h"]["depth_unit"], "unit")
    n = len(c["md"])
    check(len(m.md) == 2 * n - 1, f"{len(m.md)} stations from {n}")
    close(m.md[::2], c["md"], 1e-9, what="md of the original stations")
    close(m.vec_nev[::2], p.t, 1e-7, what="direction at the original stations")
    close(m.md[1::2], (p.md[1:] + p.md[:-1]) / 2, 1e-6, what="md of the mid stations")
    close(nev(m)[0], c["start_nev"], 1e-9, what="start position")
    flags = np.asarray(m.interpolated, bool)
    check(not flags[::2].any() and flags[1::2].all(),
          "mid stations, and only those, are interpolated")
    hit = False
    for k in range(n - 1):
        L = p.md[k + 1] - p.md[k]
        dls = math.degrees(p.dl[k + 1]) / L * den + c["noise"]
        th = math.radians(dls) / den * L / 2
        if th > 3 or dls == 0:
            continue
        v = m.vec_nev[2 * k + 1]
        close(geo.angle_between(p.t[k], v), th, 1e-6,
              what="turn to the mid station")
        # towards the next station
        if p.dl[k + 1] > 1e-3 and math.sin(math.radians(c["inc"][k])) > 1e-3:
            w = p.t[k + 1] - np.dot(p.t[k + 1], p.t[k]) * p.t[k]
            w /= np.linalg.norm(w)
            hit = True
            close(v, math.cos(th) * p.t[k] + math.sin(th) * w, 1e-5,
                  what="direction at the mid station")
    q = geo.Path(m.md, np.degrees(m.inc_rad), np.degrees(m.azi_grid_rad), c["start_nev"])
    if (q.dl < 3).all():
        close(nev(m), q.pos, 1e-4 + 1e-7 * np.abs(q.pos).max(),
              what="positions of the maximum-curvature well")
    close(nev(s), before, 0, what="survey")
    return Info(hit, [c["h"]["depth_unit"], c["h"]["azi_reference"]])


PROP = Prop("P31", [
    Facet("tortuosity", st.one_of(case_plan(), case_plane()), run_ti, 1000,
          rule="plans of clearly separate holds and turns; non-trivial: a turn"),
    Facet("ddi", case_ddi(), run_ddi, 800,
          rule="random wells from the origin; non-trivial: displaced and turned"),
    Facet("maxcurv", case_max(), run_max, 600,
          rule="random wells and noise; non-trivial: an inclined turning interval"),
], assumptions=["sections of wells judged for tortuosity are clearly separate",
                "the difficulty index is judged for wells that start at the origin"])
