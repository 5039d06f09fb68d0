"""P13 plans assembled from connected sections."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from ..mk import make_header, nev
from .p11 import Ref, inc_d, perp, pos3, step_s, unit_s


@st.composite
def case_chain(draw):
    legs = []
    for _ in range(draw(st.integers(1, 5))):
        legs.append({"kind": draw(st.sampled_from(["hold", "dir", "dirmd", "point"])),
                     "L": draw(gens.q(20, 800, 0.1)),
                     "turn": draw(gens.q(1, 120)), "tf": draw(gens.angle_deg),
                     "along": draw(gens.q(0.5, 4)), "off": draw(gens.q(0.05, 1.5)),
                     "dls": draw(gens.q(1, 10))})
    return {"inc": draw(inc_d), "azi": draw(gens.angle_deg), "pos": draw(pos3),
            "md": draw(st.one_of(st.just(0.0), gens.q(0, 6000, 0.1))),
            "unit": draw(unit_s), "legs": legs, "step": draw(step_s),
            "step2": draw(step_s), "radius": draw(gens.q(0.05, 1)),
            "shift": draw(st.one_of(st.just([0.0, 0.0, 0.0]), pos3)),
            "none": draw(st.booleans())}


def run_chain(c):
    den = 30.0 if c["unit"] == "meters" else 100.0
    v = geo.tangent(c["inc"], c["azi"])
    ref = Ref(c["pos"], v, c["md"])
    node = we.node.Node(pos=list(c["pos"]), inc=c["inc"], azi=c["azi"], md=c["md"],
                        unit=c["unit"])
    cons, knots, widest = [], [(ref.md, ref.p, ref.v)], 0.0
    for g in c["legs"]:
        k = dict(node1=node, dls_design=g["dls"], unit=c["unit"])
        R = den / math.radians(g["dls"])
        t = ref.v
        x = perp(t, np.eye(3)[int(np.argmin(np.abs(t)))])
        y = np.cross(t, x)
        w = (math.cos(math.radians(g["tf"])) * x + math.sin(math.radians(g["tf"])) * y)
        th = math.radians(g["turn"])
        if g["kind"] == "hold":
            k["md2"] = ref.md + g["L"]
            ref.hold(g["L"])
        elif g["kind"] == "dir":
            ref.arc(th, R, w)
            k["vec2"] = ref.v.copy()
        elif g["kind"] == "dirmd":
            k["md2"] = ref.md + R * th + g["L"]
            ref.arc(th, R, w)
            ref.hold(g["L"])
            k["vec2"] = ref.v.copy()
        else:
            a, b = g["along"] * R, g["off"] * R
            if a * a + b * b < 2.02 * R * b:
                raise Skip
            k["pos2"] = ref.p + a * ref.v + b * w
            tl = math.sqrt(a * a + b * b - 2 * R * b)
            th = (math.atan2(b - R, a) + math.atan2(R, tl)) % (2 * math.pi)
            if th > 3:
                raise Skip
            ref.arc(th, R, w)
            ref.hold(tl)
        widest = max(widest, th if g["kind"] != "hold" else 0)
        con = we.connector.Connector(**k)
        cons.append(con)
        node = con.node_end
        knots.append((ref.md, ref.p, ref.v))
    hd = make_header({"depth_unit": c["unit"], "azi_reference": "grid"})
    sh = np.array(c["shift"])
    tol = 1e-3 + 1e-7 * (np.abs(ref.p).max() + ref.md)
    out = []
    for step in (c["step"], c["step2"], None) if c["none"] else (c["step"],):
        s = we.survey.from_connections(cons, step=step, survey_header=hd,
                                       radius=c["radius"], start_nev=c["shift"])
        P = nev(s)
        check(s.unit == c["unit"], "unit of the plan")
        close(s.radius, np.full(len(s.md), c["radius"]), 1e-12, what="radius")
        check((np.diff(s.md) > 0).all(), "mds not increasing")
        if step is not None:
            check(np.diff(s.md).max() <= step + 1e-6,
                  lambda: f"stations {np.diff(s.md).max()} apart, step {step}")
        for m, p, t in knots:
            j = int(np.abs(s.md - m).argmin())
            close(s.md[j], m, tol, what="md of a section's end")
            close(P[j], p + sh, 3 * tol, what="position at a section's end")
            close(s.vec_nev[j], t, 1e-5, what="direction at a section's end")
            check(not s.interpolated[j], "a section's end flagged interpolated")
        for j, m in enumerate(s.md):
            p, t = ref.at(m)
            close(P[j], p + sh, 3 * tol, what=f"position at md {m}")
            close(s.vec_nev[j], t, 1e-5, what=f"direction at md {m}")
        out.append(s)
    for a, b in zip(cons[:-1], cons[1:]):
        close(a.node_end.md, b.node_start.md, 1e-9, what="md at a joint")
        close(a.node_end.pos_nev, b.node_start.pos_nev, 1e-9, what="joint")
    return Info(widest > 0 and len(c["legs"]) > 1,
                [g["kind"] for g in c["legs"]] + [c["unit"]])


@st.composite
def case_points(draw):
    n = draw(st.integers(1, 5))
    return {"start": draw(pos3), "inc": draw(st.one_of(st.just(0.0), gens.q(0, 90))),
            "azi": draw(gens.angle_deg),
            "moves": [[draw(gens.q(0.3, 4)), draw(gens.q(0, 1.2)), draw(gens.angle_deg)]
                      for _ in range(n)],
            "dls": draw(st.one_of(st.sampled_from([3, 5]), gens.q(1, 8))),
            "list": draw(st.booleans()), "nev": draw(st.booleans()),
            "whole": draw(st.sampled_from([False, False, True])),
            "md": draw(st.one_of(st.just(0.0), gens.q(0, 3000, 0.1))),
            "scales": [draw(gens.q(0.5, 2)) for _ in range(n)]}


def run_points(c):
    start = np.round(c["start"]) if c["whole"] else np.array(c["start"])
    ref = Ref(start, geo.tangent(c["inc"], c["azi"]), c["md"])
    v0 = ref.v.copy()
    pts, mds, dirs = [start], [c["md"]], [v0]
    dls = [c["dls"]] * (len(c["moves"]) + 1)
    if c["list"]:
        dls = [c["dls"]] + [c["dls"] * x for x in c["scales"]]
    tight = 0
    for (a, b, tf), d in zip(c["moves"], dls[1:]):
        R = 30.0 / math.radians(d)
        a, b = a * R, b * R
        t = ref.v
        x = perp(t, np.eye(3)[int(np.argmin(np.abs(t)))])
        y = np.cross(t, x)
        w = math.cos(math.radians(tf)) * x + math.sin(math.radians(tf)) * y
        if c["whole"]:      # to the nearest whole point
            r = np.round(ref.p + a * t + b * w) - ref.p
            a = r @ t
            b = np.linalg.norm(r - a * t)
            if b > 0:
                w = (r - a * t) / b
        d2 = a * a + b * b
        if abs(d2 - 2 * R * b) < 0.01 * R * R or 0 < b < 1e-3 * R:
            raise Skip
        pts.append(np.round(ref.p + a * t + b * w) if c["whole"]
                   else ref.p + a * t + b * w)
        if d2 < 2 * R * b:      # inside the turning circle: tighter
            ref.arc(2 * math.atan2(b, a), d2 / (2 * b), w)
            tight += 1
        else:
            tl = math.sqrt(d2 - 2 * R * b)
            th = (math.atan2(b - R, a) + math.atan2(R, tl)) % (2 * math.pi)
            if 1e-9 < th < 6.2:
                ref.arc(th, R, w)
            ref.hold(tl)
        if any(p[4] is not None and p[1] / p[4] > 3 for p in ref.pieces):
            raise Skip
        mds.append(ref.md)
        dirs.append(ref.v)
    pts = np.array(pts)
    cart = pts if c["nev"] else pts[:, [1, 0, 2]]
    vec = v0 if c["nev"] else v0[[1, 0, 2]]
    cons = we.connector.connect_points(
        cart.astype(int).tolist() if c["whole"] else cart.tolist(), vec_start=vec.tolist(), nev=c["nev"], md_start=c["md"],
        dls_design=dls if c["list"] else c["dls"])
    check(len(cons) == len(pts) - 1, "a connection per pair of points")
    tol = 1e-3 + 1e-7 * (np.abs(pts).max() + ref.md)
    for k, con in enumerate(cons):
        close(con.node_start.pos_nev, pts[k], tol, what="start of a connection")
        close(con.node_end.pos_nev, pts[k + 1], tol, what="end of a connection")
        close(con.node_end.md, mds[k + 1], 5 * tol, what="md at a point")
        close(con.node_end.vec_nev, dirs[k + 1], 1e-4, what="direction at a point")
    s = we.survey.from_connections(cons, step=30)
    P = nev(s)
    for m, p in zip(mds, pts):
        j = int(np.abs(s.md - m).argmin())
        close(P[j], p, 5 * tol, what="survey at a point")
    return Info(any(m[1] > 0 for m in c["moves"]),
                ["whole" if c["whole"] else "decimal", "tight" if tight else "designed", "list" if c["list"] else "scalar",
                 "nev" if c["nev"] else "xyz"])


PROP = Prop("P13", [
    Facet("chain", case_chain(), run_chain, 1200,
          rule="random chains of holds, turns and points; non-trivial: two or more "
               "sections, one bends"),
    Facet("points", case_points(), run_points, 1000,
          rule="random point sequences; non-trivial: a point off the line"),
])
