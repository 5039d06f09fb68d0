"""P04 arc, toolface, curvature and minimum-curvature primitives."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close

U = we.utils

inc_d = st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 179.9))
azi_d = st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), gens.angle_deg)
pos = st.tuples(*[gens.q(-2000, 2000, 0.1)] * 3).map(list)
tf_d = st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), gens.angle_deg)
dl_d = gens.q(0.01, 179)
rad = st.one_of(st.just(1.0), gens.q(1, 5000, 0.1))


@st.composite
def case_arc(draw):
    return {"dl": draw(dl_d), "r": draw(rad), "tf": draw(tf_d),
            "inc": draw(inc_d), "azi": draw(azi_d), "pos": draw(pos),
            "default": draw(st.sampled_from([0, 0, 0, 1])),
            "tf2": draw(tf_d), "dl2": draw(dl_d), "hold": draw(gens.q(0, 3000, 0.1))}


def walk(p, t_inc, t_azi, tf, dl, r):
    """End of an arc leaving p along (inc, azi) at toolface tf."""
    hs, lat, ah = geo.hla_axes(t_inc, t_azi)
    d = math.cos(tf) * hs + math.sin(tf) * lat
    return (np.asarray(p, float) + r * (math.sin(dl) * ah + (1 - math.cos(dl)) * d),
            math.cos(dl) * ah + math.sin(dl) * d)


def ia(t):
    return math.atan2(math.hypot(t[0], t[1]), t[2]), math.atan2(t[1], t[0])


def run_arc(c):
    dl, tf, r = math.radians(c["dl"]), math.radians(c["tf"]), c["r"]
    inc, azi = math.radians(c["inc"]), math.radians(c["azi"])
    vec = geo.tangent_rad(inc, azi)
    if c["inc"] == 0:
        azi, vec = 0.0, np.array([0.0, 0.0, 1.0])
    p = np.array(c["pos"], float)
    v_in, p_in = vec.copy(), p.copy()
    tol = 1e-7 * (1 + r + np.abs(p).max())
    if c["default"]:
        g = U.get_arc(dl, r, tf)
        w = walk([0, 0, 0], 0.0, 0.0, tf, dl, r)
    else:
        g = U.get_arc(dl, r, tf, pos=p_in, vec=v_in)
        w = walk(p, inc, azi, tf, dl, r)
    close(g[0], w[0], tol, what="arc end position")
    close(g[1], w[1], 1e-7, what="arc end direction")
    close(g[2], dl * r, 1e-9, 1e-12, what="arc length")
    close(v_in, vec, 0, what="caller's start vector")
    close(p_in, p, 0, what="caller's start position")
    a = U.Arc(dl, r)
    first = a.transform(tf, p, vec.copy())
    again = a.transform(tf, p, vec.copy())
    close(again[0], first[0], 0, what="same arc transformed twice")
    # backwards from a target: the returned point leads along an arc of the
    # stated sweep and radius to the target, arriving along the target vector
    v_in = vec.copy()
    b = U.get_arc(dl, r, tf, pos=p_in, vec=v_in, target=True)
    close(v_in, vec, 0, what="caller's target vector")
    close(p_in, p, 0, what="caller's target position")
    close(np.linalg.norm(b[1]), 1.0, 1e-9, what="unit direction")
    close(geo.angle_between(b[1], vec), dl, 1e-6, what="sweep to target")
    d, t = geo.arc(b[1], vec, dl * r, dl * r)
    amp = 1 / max(1e-3, math.sin(dl))
    close(b[0] + d, p, tol * 10 * amp, what="target reached from arc start")
    close(b[2], dl * r, 1e-9, 1e-12, what="target arc length")
    return Info(c["inc"] > 0, ["default" if c["default"] else "placed"])


def run_clc(c):
    d1, d2 = math.radians(c["dl"]), math.radians(c["dl2"])
    t1, t2 = math.radians(c["tf"]), math.radians(c["tf2"])
    inc, azi = math.radians(c["inc"]), math.radians(c["azi"])
    if c["inc"] == 0:
        azi = 0.0
    r = c["r"]
    kw = {} if c["default"] else dict(pos0=c["pos"],
                                      vec0=geo.tangent_rad(inc, azi).tolist())
    if c["default"]:
        inc = azi = 0.0
    o = U.make_clc_path(t1, d1, c["hold"], t2, d2, radius=r, **kw)
    p0 = np.zeros(3) if c["default"] else np.array(c["pos"])
    tol = 1e-6 * (1 + r + c["hold"] + np.abs(p0).max())
    p1, v1 = walk(p0, inc, azi, t1, d1, r)
    close(o["pos1"], p1, tol, what="end of first arc")
    close(o["vec1"], v1, 1e-7, what="direction after first arc")
    p2 = p1 + v1 * c["hold"]
    close(o["pos2"], p2, tol, what="end of hold")
    close(o["vec2"], v1, 1e-7, what="direction of hold")
    close(o["dist_curve1"], d1 * r, 1e-8, 1e-12, what="first arc length")
    close(o["dist_curve2"], d2 * r, 1e-8, 1e-12, what="second arc length")
    i1, a1 = ia(v1)
    if math.sin(i1) > 1e-4:      # toolface has a meaning
        p3, v3 = walk(p2, i1, a1, t2, d2, r)
        close(o["pos3"], p3, tol * 10 / math.sin(i1), what="end of second arc")
        close(o["vec3"], v3, 1e-6 / math.sin(i1), what="final direction")
    close(geo.angle_between(o["vec3"] / np.linalg.norm(o["vec3"]), v1), d2, 1e-6,
          what="sweep of second arc")
    return Info(c["inc"] > 0 and c["hold"] > 0)


@st.composite
def case_tf(draw):
    n = draw(st.integers(1, 5))
    return {"r": [{"inc": draw(inc_d), "azi": draw(azi_d), "pos": draw(pos),
                   "tf": draw(tf_d), "off": draw(gens.q(0.1, 500, 0.1)),
                   "ahead": draw(gens.q(-500, 500, 0.1))} for _ in range(n)]}


def run_tf(c):
    P1, V, P2, W = [], [], [], []
    for r in c["r"]:
        inc, azi = math.radians(r["inc"]), math.radians(r["azi"])
        if r["inc"] == 0:
            azi = 0.0
            v = np.array([0.0, 0.0, 1.0])
        else:
            v = geo.tangent_rad(inc, azi)
        hs, lat, ah = geo.hla_axes(inc, azi)
        tf = math.radians(r["tf"])
        p1 = np.array(r["pos"], float)
        P1.append(p1), V.append(v), W.append(tf)
        P2.append(p1 + r["off"] * (math.cos(tf) * hs + math.sin(tf) * lat)
                  + r["ahead"] * ah)
    P1, V, P2, W = map(np.array, (P1, V, P2, W))
    got = np.atleast_1d(U.get_toolface(P1, V, P2))
    check(got.shape == (len(W),), f"toolfaces have shape {got.shape}")
    off = np.array([r["off"] for r in c["r"]])
    # the end point is only known to rounding, so scale by the offset
    close(angdiff(got, W) * off, np.zeros(len(W)), 1e-7, what="toolface")
    check(((got >= 0) & (got <= 2 * np.pi)).all(), "toolface outside [0, 360]")
    for k in range(len(W)):
        one = U.get_toolface(P1[k], V[k], P2[k])
        check(np.ndim(one) == 0, "scalar call returned an array")
        close(angdiff(one, W[k]) * off[k], 0.0, 1e-7, what="toolface (single)")
        f = U.get_toolface_fast(P1[k], V[k], P2[k])
        close(angdiff(f, W[k]) * off[k], 0.0, 1e-7, what="toolface (fast)")
        check(0 <= f <= 2 * np.pi, "toolface outside [0, 360]")
        f = U.get_toolface_fast(P1[k], V[k] * 3.0, P2[k])
        close(angdiff(f, W[k]) * off[k], 0.0, 1e-7,
              what="toolface (fast, scaled direction)")
    return Info(any(r["inc"] > 0 for r in c["r"]), ["n=%d" % len(W)])


@st.composite
def case_step(draw):
    n = draw(st.integers(1, 6))
    near = st.one_of(st.just(0.0), gens.q(-1e-4, 1e-4, 1e-6), gens.q(-90, 90))
    return {"r": [{"L": draw(gens.q(0, 1000, 0.1)), "i": draw(gens.q(0, 170)),
                   "a": draw(azi_d), "di": draw(near), "da": draw(near)}
                  for _ in range(n)],
            "start": draw(pos), "unit": draw(st.sampled_from(["meters", "feet"]))}


def run_step(c):
    L = np.array([r["L"] for r in c["r"]])
    i1 = np.radians([r["i"] for r in c["r"]])
    a1 = np.radians([r["a"] for r in c["r"]])
    i2 = np.radians([min(178.0, abs(r["i"] + r["di"])) for r in c["r"]])
    a2 = np.radians([r["a"] + r["da"] for r in c["r"]])
    u = [geo.tangent_rad(i, a) for i, a in zip(i1, a1)]
    v = [geo.tangent_rad(i, a) for i, a in zip(i2, a2)]
    dl = np.array([geo.angle_between(x, y) for x, y in zip(u, v)])
    if (dl > np.radians(170)).any():
        from ..core import Skip
        raise Skip
    d = U.get_dogleg(i1, a1, i2, a2)
    close(d, dl, 1e-9, what="dogleg")
    close(U.get_dogleg(i2, a2, i1, a1), dl, 1e-9, what="reversed dogleg")
    one = U.get_dogleg(float(i1[0]), float(a1[0]), float(i2[0]), float(a2[0]))
    close(one, dl[0], 1e-9, what="dogleg of scalars")
    rf = np.array([math.tan(x / 2) / (x / 2) if x > 1e-6 else 1.0 for x in dl])
    close(U.get_rf(dl), rf, 1e-9, 1e-9, what="ratio factor")
    close(U.get_rf(float(dl[0])), rf[0], 1e-9, 1e-9, what="ratio factor (scalar)")
    close(U.get_rf(0.0), 1.0, 0, what="ratio factor of zero")
    want = np.array([geo.arc(x, y, l, l)[0] for x, y, l in zip(u, v, L)])
    close(U.min_curve_step(L, i1, a1, i2, a2), want, 1e-6, 1e-7,
          what="minimum curvature step")
    close(U.min_curve_step(L, i1, a1, i2, a2, rf), want, 1e-6, 1e-7,
          what="minimum curvature step (given factors)")
    # MinCurve over one continuous listing
    md = np.concatenate([[0.0], np.cumsum(L + 0.1)])
    inc = np.concatenate([[i1[0]], i2])
    azi = np.concatenate([[a1[0]], a2])
    p = geo.Path(md, np.degrees(inc), np.degrees(azi))
    if (p.dl > np.radians(170)).any():
        from ..core import Skip
        raise Skip
    m = U.MinCurve(md, inc, azi, start_xyz=c["start"], unit=c["unit"])
    close(m.poss, p.pos[:, [1, 0, 2]] + np.array(c["start"]), 1e-5, 1e-7,
          what="MinCurve positions")
    close(m.dogleg, p.dl, 1e-8, what="MinCurve dogleg")
    k = 30.0 if c["unit"] == "meters" else 100.0
    close(m.dls[1:], np.degrees(p.dl[1:]) / np.diff(md) * k, 1e-5, 1e-8,
          what="MinCurve dls")
    return Info((dl > 1e-3).any() and (L > 0).any(), [c["unit"]])


@st.composite
def case_dls(draw):
    return {"d": draw(st.lists(st.one_of(st.just(0.0), gens.q(0.01, 60)),
                               min_size=1, max_size=6))}


def run_dls(c):
    d = np.array(c["d"], float)
    keep = d.copy()
    r = U.radius_from_dls(d)
    want = np.array([math.inf if x == 0 else 30 * 180 / math.pi / x for x in d])
    fin = np.isfinite(want)
    close(r[fin], want[fin], 0, 1e-12, what="radius of dls")
    check(np.isinf(r[~fin]).all(), "zero dls is a straight line")
    close(U.dls_from_radius(want), d, 1e-12, 1e-12, what="dls of radius")
    check(np.isinf(U.dls_from_radius(np.zeros(2))).all(), "dls of zero radius")
    for x, w in zip(d, want):
        a = U.radius_from_dls(float(x))
        check(a == w or abs(a - w) <= 1e-9 * w, f"radius of scalar dls {x}: {a}")
        close(U.dls_from_radius(float(w)), x, 1e-12, 1e-12, what="scalar dls")
    check(U.dls_from_radius(0) == math.inf, "dls of radius 0")
    close(d, keep, 0, what="input")
    return Info(fin.any(), ["has-zero"] if not fin.all() else [])


PROP = Prop("P04", [
    Facet("arc", case_arc(), run_arc, 2000,
          rule="random sweep, radius, toolface, pose; non-trivial: inclined start"),
    Facet("clc", case_arc(), run_clc, 1000,
          rule="random curve-hold-curve; non-trivial: inclined start, a hold"),
    Facet("toolface", case_tf(), run_tf, 1500,
          rule="points placed at a known toolface; non-trivial: inclined reference"),
    Facet("step", case_step(), run_step, 1500,
          rule="random intervals incl. zero length and tiny doglegs; non-trivial: "
               "some bend over some length"),
    Facet("dls", case_dls(), run_dls, 300,
          rule="curvature lists incl. zero; non-trivial: one non-zero"),
])
