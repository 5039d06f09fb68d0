"""P23 torque and drag follow the soft-string model."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import grid_azi, nev
from .p05 import build
from welleng.architecture import BHA, String, WellBore
from welleng.torque_drag import (HookLoad, TorqueDrag, buoyancy_factor,
                                 force_normal, force_tension_delta, torsion_delta)


@st.composite
def cuts(draw, md, top, bottom, n):
    """n - 1 increasing depths inside, some at stations."""
    inside = [m for m in md if top < m < bottom]
    out = set()
    for _ in range(n - 1):
        if inside and draw(st.booleans()):
            out.add(draw(st.sampled_from(inside)))
        else:
            out.add(round(top + draw(gens.q(0.03, 0.97, 0.001)) * (bottom - top), 1))
    return [x for x in sorted(out) if top < x < bottom] + [bottom]


@st.composite
def case_td(draw):
    c = draw(gens.stations(min_n=3, max_n=9, start_md=0.0, min_step=20, max_inc=110, long=True))
    c["h"] = draw(gens.header(unit=("meters",), mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    md = c["md"]
    pick = st.one_of(st.sampled_from(md[1:]),
                     gens.q(0.2, 1, 0.001).map(lambda f: round(md[-1] * f, 1)))
    ends = sorted([draw(pick), draw(pick)])
    c["hole"] = draw(cuts(md, 0.0, ends[1], draw(st.integers(1, 3))))
    c["mu"] = [draw(st.one_of(gens.q(0.05, 0.6), st.just(0.0))) for _ in c["hole"]]
    c["string"] = draw(cuts(md, 0.0, ends[0], draw(st.integers(1, 4))))
    if draw(st.booleans()):     # the same depths
        k = [x for x in c["hole"] if x < ends[0]]
        c["string"] = sorted(set(c["string"]) | set(k))
    c["pipe"] = [{
        "unit_weight": draw(gens.q(100, 2500, 0.1)), "od": draw(gens.q(0.08, 0.3, 0.001)),
        "tooljoint_od": draw(st.sampled_from([None, 0.0, 1.3])),
        "density": draw(st.one_of(st.just(None), gens.q(2.7, 8.5)))}
        for _ in c["string"]]
    for p in c["pipe"]:
        if p["tooljoint_od"]:
            p["tooljoint_od"] *= p["od"]
    c["fluid"] = draw(st.one_of(gens.q(0.0, 2.2), st.just(1.0)))
    c["wob"] = draw(st.one_of(st.none(), gens.q(1e3, 3e5, 1)))
    c["tob"] = draw(gens.q(1e2, 2e4, 1))
    c["over"] = draw(st.one_of(st.none(), gens.q(1e3, 5e5, 1)))
    c["way"] = [draw(st.sampled_from(["top_down", "bottom_up"])) for _ in range(2)]
    return c


def make(kind, name, bottoms, params, way):
    s = kind(name, 0.0, bottoms[-1], method=way)
    tops = [0.0] + bottoms[:-1]
    rows = list(zip(tops, bottoms, params))
    for t, b, p in rows if way == "top_down" else rows[::-1]:
        if way == "top_down":
            s.add_section(bottom=b, **p)
        else:
            s.add_section(top=t, **p)
    check(s.complete, f"{name} isn't complete")
    return s


def architecture(c):
    hole = make(WellBore, "hole", c["hole"],
                [{"id": 0.35, "name": f"h{k}", "coeff_friction_sliding": m}
                 for k, m in enumerate(c["mu"])], c["way"][0])
    pipes = []
    for k, p in enumerate(c["pipe"]):
        p = dict(p, name=f"p{k}")
        for x in ("density", "tooljoint_od"):
            if p[x] is None:
                del p[x]
        pipes.append(p)
    return hole, make(BHA, "pipe", c["string"], pipes, c["way"][1])


def which(bottoms, md):
    for k, b in enumerate(bottoms):
        if md <= b:
            return k
    raise AssertionError(md)


def reference(md, inc, azi, hole, mus, pipe, pars, fluid, bit=(0.0, 0.0, 0.0),
              tob=0.0):
    """Tension (pickup, slackoff, rotating) and torque at every station down to
    the bottom of the string, Johancsik et al. from the bit up."""
    n = list(md).index(pipe[-1]) + 1
    T = np.zeros((n, 3))
    M = np.zeros(n)
    T[-1], M[-1] = bit, tob
    for k in range(n - 1, 0, -1):
        p = pars[which(pipe, md[k])]
        mu = mus[which(hole, md[k])]
        rho = p.get("density") or 7.85
        W = p["unit_weight"] * (md[k] - md[k - 1]) * (rho - fluid) / rho
        th = (inc[k] + inc[k - 1]) / 2
        di = inc[k] - inc[k - 1]
        da = math.remainder(azi[k] - azi[k - 1], 2 * math.pi)
        N = [math.hypot(f * da * math.sin(th), f * di + W * math.sin(th)) for f in T[k]]
        for q, sign in enumerate((1, -1, 0)):
            T[k - 1, q] = T[k, q] + W * math.cos(th) + sign * mu * N[q]
        r = (p.get("tooljoint_od") or p["od"]) / 2
        M[k - 1] = M[k] + mu * N[2] * r
    return T, M


def stations(td, c, bottoms):
    """The survey of the calculation is the well with the bottoms added."""
    s = td.survey
    want = sorted(set(c["md"]) | set(bottoms))
    check(len(s.md) == len(want) and np.array_equal(s.md, want),
          lambda: f"stations {s.md.tolist()} are not {want}")
    p = geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])
    P, tol = nev(s), 1e-4 + 1e-7 * c["md"][-1]
    for k, m in enumerate(want):
        x, v = p.at(m)
        close(P[k], x, tol, what=f"position of the well at {m}")
        close(geo.tangent_rad(s.inc_rad[k], s.azi_grid_rad[k]), v, 1e-6,
              what=f"direction of the well at {m}")
    return s


def run_td(c):
    s = build(c)
    hole, pipe = architecture(c)
    kw = {}
    if c["wob"]:
        kw.update(wob=c["wob"], tob=c["tob"])
    if c["over"]:
        kw["overpull"] = c["over"]
    keep = [{k: v for k, v in x.items()} for x in hole.sections.values()]
    before = nev(s)
    td = TorqueDrag(s, hole, pipe, c["fluid"], name="run", **kw)
    check(td.name == "run", "name")
    v = stations(td, c, c["hole"] + c["string"])
    a = (v.md.tolist(), v.inc_rad, v.azi_grid_rad, c["hole"], c["mu"], c["string"],
         c["pipe"], c["fluid"])
    T, M = reference(*a)
    scale = np.abs(T).max() + 1

    def same(got, want, what):
        check(len(got) == len(want), lambda: f"{what}: {len(got)} values, not {len(want)}")
        close(got, want, 1e-6 * (np.abs(np.asarray(want)).max() + 1) + 1e-9 * scale,
              what=what)

    keys = {"slackoff", "rotating", "pickup"}
    for q, k in enumerate(("pickup", "slackoff", "rotating")):
        same(td.tension[k], T[:, q], f"tension: {k}")
    same(td.torque["rotating"], M, "torque: rotating")
    if c["wob"]:
        keys |= {"drilling", "sliding"}
        T, M = reference(*a, bit=(0.0, -c["wob"], -c["wob"]), tob=c["tob"])
        same(td.tension["drilling"], T[:, 2], "tension: drilling")
        same(td.tension["sliding"], T[:, 1], "tension: sliding")
        same(td.torque["drilling"], M, "torque: drilling")
    if c["over"]:
        keys.add("overpull")
        T, _ = reference(*a, bit=(c["over"], 0.0, 0.0))
        same(td.tension["overpull"], T[:, 0], "tension: overpull")
    check(set(td.tension) == keys, lambda: f"tensions {set(td.tension)}, not {keys}")
    check(set(td.torque) == ({"rotating", "drilling"} if c["wob"] else {"rotating"}),
          f"torques {set(td.torque)}")
    close(nev(s), before, 0, what="the caller's survey")
    check([dict(x) for x in hole.sections.values()] == keep, "the caller's well bore")
    # what can't be calculated is rejected
    if c["wob"]:
        for bad in ({"wob": c["wob"]}, {"tob": c["tob"]}):
            try:
                TorqueDrag(s, hole, pipe, c["fluid"], **bad)
            except AssertionError:
                continue
            check(False, f"accepted {bad} alone")
    part = WellBore("part", 0.0, c["hole"][-1] + 1, method="top_down")
    part.add_section(bottom=c["hole"][-1], id=0.3, coeff_friction_sliding=0.2)
    half = BHA("part", -1.0, c["string"][-1])
    half.add_section(length=c["string"][-1] / 2, **{
        k: x for k, x in pipe.sections[0].items() if k not in ("top", "bottom", "length")})
    for h, p in ((part, pipe), (hole, half)):
        try:
            TorqueDrag(s, h, p, c["fluid"])
        except AssertionError:
            continue
        check(False, "accepted an incomplete well bore or string")
    bend = np.degrees(np.abs(np.diff(v.inc_rad)).sum()) > 1
    return Info(bend and max(c["mu"]) > 0 and len(c["string"]) > 1,
                ["drilling" if c["wob"] else "", "overpull" if c["over"] else "",
                 f"{len(c['hole'])} holes", f"{len(c['string'])} pipes"])


@st.composite
def case_hook(draw):
    c = draw(case_td())
    c["parts"] = draw(st.integers(1, 4))
    c["ff"] = draw(st.sampled_from([[0.1, 0.4, 0.1], [0.2, 0.45, 0.1], [0.0, 0.3, 0.16]]))
    return c


def run_hook(c):
    s = build(c)
    hole, pipe = architecture(c)
    L = c["string"][-1]
    step = round(L / (c["parts"] + 0.37), 1)
    keep = [dict(x) for x in hole.sections.values()], [
        {k: v for k, v in x.items() if k != "buoyancy_factor"}
        for x in pipe.sections.values()]
    h = HookLoad(s, hole, pipe, c["fluid"], step=step, ff_range=tuple(c["ff"]))
    a, b, d = c["ff"]
    ffs = [a + d * k for k in range(10) if a + d * k < b - 1e-9] + [b]
    close(list(h.data), ffs, 1e-9, what="friction factors")
    mds = [k * step for k in range(1, 50) if k * step < L - 1e-9] + [L]
    close(h.md_range, mds, 1e-9, what="depths")
    P = geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])
    for j, m in enumerate(h.md_range):
        # the string with its bottom at m, cut off at the surface
        up = L - m
        keepers = [k for k, x in enumerate(c["string"]) if x - up > 1e-9]
        pipe_b = [c["string"][k] - up for k in keepers]
        pipe_b[-1] = m
        pars = [c["pipe"][k] for k in keepers]
        # at the stations where it's calculated
        td = TorqueDrag(s, hole, pipe.depth(m), c["fluid"])
        v = td.survey
        md = v.md.tolist()
        for x in pipe_b + c["hole"]:
            check(min(abs(y - x) for y in md) < 1e-6, f"no station at {x}")
        check(len(md) == len(set(md)), "stations more than once")
        for y in md:
            check(min(abs(y - x) for x in c["md"] + pipe_b + c["hole"]) < 1e-6,
                  f"a station at {y}")
        for k, y in enumerate(md):
            x, t = P.at(y)
            close(geo.tangent_rad(v.inc_rad[k], v.azi_grid_rad[k]), t, 1e-6,
                  what=f"direction of the well at {y}")
        pb = [min(md, key=lambda y: abs(y - x)) for x in pipe_b]
        for ff in h.data:
            T, _ = reference(md, v.inc_rad, v.azi_grid_rad, c["hole"],
                             [ff] * len(c["hole"]), pb, pars, c["fluid"])
            for q, k in enumerate(("pickup", "slackoff", "rotating")):
                got = h.data[ff][k]
                check(len(got) == len(mds), f"{len(got)} values")
                close(got[j], T[0, q], 1e-5 * (np.abs(T).max() + 1),
                      what=f"hook load of {k} at {m} with friction {ff}")
    check([dict(x) for x in hole.sections.values()] == keep[0], "the caller's well bore")
    check([{k: v for k, v in x.items() if k != "buoyancy_factor"}
           for x in pipe.sections.values()] == keep[1], "the caller's string")
    return Info(len(mds) > 1 and len(c["string"]) > 1, [f"{len(mds)} depths"])


@st.composite
def case_terms(draw):
    return {"F": [draw(gens.q(-5e5, 2e6, 1)) for _ in range(3)],
            "inc": draw(gens.q(0, 3.1, 0.0001)), "di": draw(gens.q(-0.5, 0.5, 0.0001)),
            "da": draw(gens.q(-1, 1, 0.0001)), "W": draw(gens.q(0, 1e5, 1)),
            "mu": draw(gens.q(0, 0.7)), "r": draw(gens.q(0.02, 0.3, 0.001)),
            "rho": draw(gens.q(0, 2.5)), "steel": draw(gens.q(2.6, 9))}


def run_terms(c):
    F, th, W = np.array(c["F"]), c["inc"], c["W"]
    N = force_normal(F, th, c["di"], c["da"], W)
    want = [math.hypot(f * c["da"] * math.sin(th), f * c["di"] + W * math.sin(th))
            for f in c["F"]]
    close(N, want, 1e-9 * (1 + max(want)), what="normal force")
    d = force_tension_delta(W, th, c["mu"], N)
    A = W * math.cos(th)
    close(d, [A + c["mu"] * want[0], A - c["mu"] * want[1], A],
          1e-9 * (1 + max(want) + W), what="change of tension")
    close(torsion_delta(c["mu"], N[2], c["r"]), c["mu"] * want[2] * c["r"],
          1e-9 * (1 + want[2]), what="change of torque")
    close(buoyancy_factor(c["rho"], c["steel"]), 1 - c["rho"] / c["steel"], 1e-12,
          what="buoyancy factor")
    close(buoyancy_factor(c["rho"]), 1 - c["rho"] / 7.85, 1e-12,
          what="buoyancy factor of steel")
    return Info(W > 0 and c["mu"] > 0)


PROP = Prop("P23", [
    Facet("run", case_td(), run_td, 900,
          rule="random wells, well bores and strings with ends at and between "
               "stations; non-trivial: builds or drops, friction and two pipes"),
    Facet("hookload", case_hook(), run_hook, 150,
          rule="the string at a few depths and friction factors; non-trivial: "
               "several depths and pipes"),
    Facet("terms", case_terms(), run_terms, 500, rule="random forces and angles; "
          "non-trivial: weight and friction"),
], ["wells and strings from the surface, in metres"])
