"""P11 connecting a pose to a target."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import make_header, nev

inc_d = st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 170))
pos3 = st.tuples(*[gens.q(-2000, 2000, 0.1)] * 3).map(list)
unit_s = st.sampled_from(["meters", "feet"])
step_s = st.sampled_from([30, 10, 25.7, 100])


@st.composite
def start(draw):
    return {"inc": draw(inc_d), "azi": draw(gens.angle_deg), "pos": draw(pos3),
            "md": draw(st.one_of(st.just(0.0), gens.q(0, 6000, 0.1))),
            "unit": draw(unit_s), "dls": draw(st.one_of(
                st.sampled_from([1.0, 3.0]), gens.q(0.5, 12))),
            "form": draw(st.sampled_from(["vec", "angles", "radians", "node"])),
            "step": draw(step_s)}


def radius(c):
    return (30.0 if c["unit"] == "meters" else 100.0) / math.radians(c["dls"])


def kwargs1(c):
    """The start pose in one of its forms."""
    v = geo.tangent(c["inc"], c["azi"])
    k = dict(dls_design=c["dls"], unit=c["unit"])
    if c["form"] == "node":
        k["node1"] = we.node.Node(pos=list(c["pos"]), inc=c["inc"], azi=c["azi"],
                                  md=c["md"], unit=c["unit"])
        return k, v
    k.update(pos1=list(c["pos"]), md1=c["md"])
    if c["form"] == "vec":
        k["vec1"] = v.copy()
    elif c["form"] == "angles":
        k.update(inc1=c["inc"], azi1=c["azi"])
    else:
        k.update(inc1=math.radians(c["inc"]), azi1=math.radians(c["azi"]),
                 degrees=False, dls_design=math.radians(c["dls"]))
    return k, v


class Ref:
    """Reference path: pieces (length, start pos, start tangent, radius, normal)."""

    def __init__(self, pos, vec, md):
        self.p, self.v, self.md = np.array(pos, float), np.array(vec, float), md
        self.pieces = []

    def arc(self, theta, r, w):
        """w: unit vector perpendicular to the tangent, towards the centre."""
        self.pieces.append((self.md, theta * r, self.p, self.v, r, w))
        self.p, self.v = self._on(self.pieces[-1], theta * r)
        self.md += theta * r

    def hold(self, length):
        self.pieces.append((self.md, length, self.p, self.v, None, None))
        self.p = self.p + length * self.v
        self.md += length

    @staticmethod
    def _on(piece, s):
        _, _, p, v, r, w = piece
        if r is None:
            return p + s * v, v
        f = s / r
        return (p + r * (math.sin(f) * v + 2 * math.sin(f / 2) ** 2 * w),
                math.cos(f) * v + math.sin(f) * w)

    def at(self, md):
        for piece in self.pieces:
            if md <= piece[0] + piece[1] + 1e-9:
                return self._on(piece, max(0.0, md - piece[0]))
        return self._on(piece, md - piece[0])


def perp(v, towards):
    w = np.asarray(towards, float) - np.dot(towards, v) * v
    n = np.linalg.norm(w)
    return w / n if n > 0 else None


def judge_path(c, con, ref, what, tol=1e-4, vtol=1e-6):
    """The connector's end and the survey made from it are the reference path."""
    size = 1 + np.abs(ref.p).max() + ref.md
    tol = tol + 1e-8 * size
    close(con.md_target, ref.md, tol, what=f"{what}: md of target")
    close(con.pos_target, ref.p, tol, what=f"{what}: position of target")
    close(np.asarray(con.vec_target).reshape(3), ref.v, vtol,
          what=f"{what}: direction at target")
    e = con.node_end
    close(e.pos_nev, ref.p, tol, what=f"{what}: end node position")
    close(e.vec_nev, ref.v, vtol, what=f"{what}: end node direction")
    close(e.md, ref.md, tol, what=f"{what}: end node md")
    check(e.unit == c["unit"], f"{what}: unit of end node")
    close(con.node_start.pos_nev, c["pos"], 1e-9, what=f"{what}: start node")
    if ref.md - c["md"] < 0.01:
        return None
    s = survey_of(c, con)
    close(s.md[0], c["md"], 1e-6, what=f"{what}: first md of survey")
    close(s.md[-1], ref.md, tol, what=f"{what}: last md of survey")
    check((np.diff(s.md) > 0).all(), f"{what}: mds not increasing")
    check(np.diff(s.md).max() <= c["step"] + 1e-6,
          lambda: f"{what}: stations {np.diff(s.md).max()} apart, step {c['step']}")
    P = nev(s)
    for k, m in enumerate(s.md):
        wp, wv = ref.at(m)
        close(P[k], wp, 10 * tol, what=f"{what}: survey position at md {m}")
        close(s.vec_nev[k], wv, 10 * vtol, what=f"{what}: survey direction at md {m}")
    return s


def survey_of(c, con):
    return we.survey.from_connections(
        con, step=c["step"],
        survey_header=make_header({"depth_unit": c["unit"], "azi_reference": "grid"}))


# --- direction only -----------------------------------------------------------
@st.composite
def case_dir(draw):
    c = draw(start())
    c["inc2"], c["azi2"] = draw(inc_d), draw(gens.angle_deg)
    c["form2"] = draw(st.sampled_from(["vec", "angles", "inc", "azi"]))
    c["extra"] = draw(st.one_of(st.none(), gens.q(0.05, 3)))
    return c


def run_dir(c):
    k, v = kwargs1(c)
    deg = k.get("degrees", True)
    a = (lambda x: x) if deg else math.radians
    inc2, azi2 = c["inc2"], c["azi2"]
    if c["form2"] == "inc":
        azi2 = c["azi"]
    if c["form2"] == "azi":
        inc2 = c["inc"]
    if c["form2"] in ("inc", "azi") and c["inc"] == 0 and c["form"] in ("vec", "node"):
        raise Skip      # a vertical direction vector has no azimuth to keep
    t = geo.tangent(inc2, azi2)
    if c["form2"] == "vec":
        k["vec2"] = t.copy()
    if c["form2"] in ("angles", "inc"):
        k["inc2"] = a(inc2)
    if c["form2"] in ("angles", "azi"):
        k["azi2"] = a(azi2)
    th = geo.angle_between(v, t)
    if th > 3.0 or th < 1e-4:
        raise Skip
    R, w = radius(c), perp(v, t)
    ref = Ref(c["pos"], v, c["md"])
    if c["extra"] is None:
        ref.arc(th, R, w)
    else:
        # a measured depth too: curve at the design radius then hold, or if
        # there isn't the room, all of it at the curvature that it takes
        L = c["extra"] * R * th
        if abs(c["extra"] - 1) < 1e-3:
            raise Skip
        k["md2"] = c["md"] + L
        if c["extra"] > 1:
            ref.arc(th, R, w)
            ref.hold(L - R * th)
        else:
            ref.arc(th, L / th, w)
    con = we.connector.Connector(**k)
    judge_path(c, con, ref, "direction", vtol=1e-6)
    return Info(True, [c["form"], c["form2"], c["unit"],
                       "md" if c["extra"] is not None else "nomd"])


# --- measured depth only ------------------------------------------------------
@st.composite
def case_md(draw):
    c = draw(start())
    c["L"] = draw(gens.q(0.1, 3000, 0.1))
    return c


def run_md(c):
    k, v = kwargs1(c)
    k["md2"] = c["md"] + c["L"]
    ref = Ref(c["pos"], v, c["md"])
    ref.hold(c["L"])
    judge_path(c, we.connector.Connector(**k), ref, "hold")
    return Info(c["inc"] > 0, [c["form"], c["unit"]])


# --- a point ------------------------------------------------------------------
@st.composite
def case_point(draw):
    c = draw(start())
    # the target in the turning plane, in turn radii
    c["along"] = draw(st.one_of(gens.q(-3, 6), gens.q(0, 2)))
    c["off"] = draw(st.one_of(st.sampled_from([0.0, 2.0, 1.0]), gens.q(0, 5)))
    c["side"] = draw(gens.angle_deg)
    c["closest"] = draw(st.booleans())
    c["nodls"] = draw(st.sampled_from([False, False, False, True]))
    return c


def in_plane(c, v):
    hs, lat, _ = geo.hla_axes(math.radians(c["inc"]), math.radians(c["azi"]))
    return (math.cos(math.radians(c["side"])) * hs
            + math.sin(math.radians(c["side"])) * lat)


def run_point(c):
    k, v = kwargs1(c)
    R = radius(c)
    a, b = c["along"] * R, c["off"] * R
    if b == 0 and a <= 0.01 * R:
        raise Skip
    w = in_plane(c, v)
    target = np.array(c["pos"]) + a * v + b * w
    d2 = a * a + b * b
    if d2 < 1e-4 * R * R or (0 < b < 1e-3 * R):
        raise Skip
    if abs(d2 - 2 * R * b) < 1e-3 * R * R:
        raise Skip      # on the turning circle itself
    k["pos2"] = target.copy()
    ref = Ref(c["pos"], v, c["md"])
    inside = d2 < 2 * R * b
    if c["nodls"]:
        k["dls_design"] = None
        k.pop("degrees", None)
        if c["form"] == "radians":
            k.update(inc1=c["inc"], azi1=c["azi"])
        if b == 0:
            ref.hold(a)
        else:
            ref.arc((2 * math.atan2(b, a)) % (2 * math.pi), d2 / (2 * b), w)
        kind = "unconstrained"
    elif not inside:
        t = math.sqrt(d2 - 2 * R * b)
        th = (math.atan2(b - R, a) + math.atan2(R, t)) % (2 * math.pi)
        if th > 2 * math.pi - 1e-6:
            th = 0.0
        if th > 0:
            ref.arc(th, R, w)
        ref.hold(t)
        kind = "curve and hold" if th else "straight"
    elif c["closest"]:
        k["closest_approach"] = True
        f = math.atan2(a, R - b) % (2 * math.pi)    # angle around the centre
        if math.hypot(a, R - b) < 0.02 * R or min(f, 2 * math.pi - f) < 0.01:
            raise Skip  # at the centre of the turn, or nowhere to go
        ref.arc(f, R, w)
        kind = "closest approach"
    else:
        ref.arc((2 * math.atan2(b, a)) % (2 * math.pi), d2 / (2 * b), w)
        kind = "tightened"
    total = sum(p[1] / p[4] for p in ref.pieces if p[4] is not None)
    # half circles have no plane of their own; near full ones, no direction
    if abs(total - math.pi) < 0.02 or total > 6.2:
        raise Skip
    for p in ref.pieces:
        if p[4] is not None and c["step"] / p[4] > 2.5:
            raise Skip
    con = we.connector.Connector(**k)
    judge_path(c, con, ref, kind, tol=1e-4 + 1e-7 * R, vtol=1e-5)
    return Info(kind != "straight", [kind, c["form"], c["unit"]])


# --- a point and a direction --------------------------------------------------
@st.composite
def case_pose(draw):
    c = draw(start())
    c["radii"] = draw(gens.q(3, 12))
    c["dev"] = [draw(gens.q(-0.5, 0.5)), draw(gens.q(-0.5, 0.5))]
    c["turn"] = [draw(gens.q(0, 50)), draw(gens.angle_deg)]
    c["near"] = draw(st.integers(0, 4)) == 0
    if c["near"]:       # almost straight ahead
        c["dev"] = [draw(gens.q(-0.006, 0.006, 1e-4)), draw(gens.q(-0.006, 0.006, 1e-4))]
        c["turn"][0] = draw(st.one_of(st.just(0.0), gens.q(0, 0.5)))
        c["same"] = draw(st.booleans())
    c["form2"] = draw(st.sampled_from(["vec", "angles", "node"]))
    c["dls2"] = draw(st.one_of(st.none(), st.none(), gens.q(0.7, 1.5)))
    return c


def run_pose(c):
    k, v = kwargs1(c)
    R = radius(c)
    den = 30.0 if c["unit"] == "meters" else 100.0
    hs, lat, _ = geo.hla_axes(math.radians(c["inc"]), math.radians(c["azi"]))
    dls2 = c["dls"]
    if c["dls2"] is not None:
        dls2 = c["dls"] * c["dls2"]
        k["dls_design2"] = dls2 if k.get("degrees", True) else math.radians(dls2)
    R2 = den / math.radians(dls2)
    D = c["radii"] * max(R, R2)
    w = v + c["dev"][0] * hs + c["dev"][1] * lat
    u = w / np.linalg.norm(w)
    target = np.array(c["pos"]) + D * u
    x = perp(u, hs if abs(np.dot(u, hs)) < 0.9 else lat)
    y = np.cross(u, x)
    f, g = math.radians(c["turn"][0]), math.radians(c["turn"][1])
    t2 = math.cos(f) * u + math.sin(f) * (math.cos(g) * x + math.sin(g) * y)
    if c.get("same"):
        t2 = np.array(v, float)
    if c["form2"] == "vec":
        k.update(pos2=target.copy(), vec2=t2.copy())
    else:
        inc2 = math.degrees(math.atan2(math.hypot(t2[0], t2[1]), t2[2]))
        azi2 = math.degrees(math.atan2(t2[1], t2[0])) % 360
        t2 = geo.tangent(inc2, azi2)
        if c["form2"] == "node":
            k["node2"] = we.node.Node(pos=target.tolist(), inc=inc2, azi=azi2,
                                      unit=c["unit"])
        elif k.get("degrees", True):
            k.update(pos2=target.copy(), inc2=inc2, azi2=azi2)
        else:
            k.update(pos2=target.copy(), inc2=math.radians(inc2),
                     azi2=math.radians(azi2))
    con = we.connector.Connector(**k)
    tol = 5e-3 * den / 30
    close(con.pos_target, target, tol, what="target position")
    close(con.vec_target, t2, 1e-6, what="target direction")
    s = survey_of(c, con)
    P = nev(s)
    close(P[0], c["pos"], 1e-6, what="start position")
    close(s.vec_nev[0], v, 1e-7, what="start direction")
    close(P[-1], target, tol, what="end position")
    close(s.vec_nev[-1], t2, 1e-5, what="end direction")
    close(s.md[0], c["md"], 1e-6, what="start md")
    close(s.md[-1], con.md_target, 1e-3, what="end md")
    close(con.node_end.pos_nev, target, tol, what="end node position")
    close(con.node_end.md, con.md_target, 1e-6, what="end node md")
    check(np.diff(s.md).max() <= c["step"] + 1e-6, "stations too far apart")
    check((np.diff(s.md) > 0).all(), "mds not increasing")
    # no sharper than designed: first turn at dls, second at dls2
    L = np.diff(s.md)
    bend = np.array([geo.angle_between(p, q)
                     for p, q in zip(s.vec_nev[:-1], s.vec_nev[1:])])
    k1, k2 = math.radians(c["dls"]) / den, math.radians(dls2) / den
    excess = bend - max(k1, k2) * L * 1.002
    check((excess < 0.015).all(),
          lambda: f"bends {excess.max()} rad more than designed")
    # not longer than the straight line and both turns could need
    straight = np.linalg.norm(target - np.array(c["pos"]))
    total = s.md[-1] - s.md[0]
    check(total >= straight - tol, "shorter than the straight line")
    check(total <= straight + 2 * math.pi * (R + R2), "needless loop")
    return Info(c["turn"][0] > 0, [c["form"], c["form2"], c["unit"],
                                   "two severities" if c["dls2"] else "one"])


# --- the batch solver ---------------------------------------------------------
@st.composite
def case_batch(draw):
    n = draw(st.integers(1, 6))
    return {"rows": [{"inc": draw(inc_d), "azi": draw(gens.angle_deg),
                      "pos": draw(pos3), "along": draw(gens.q(-3, 6)),
                      "off": draw(st.one_of(st.sampled_from([0.0, 2.0]), gens.q(0, 5))),
                      "side": draw(gens.angle_deg), "R": draw(gens.q(50, 2000, 1))}
                     for _ in range(n)],
            "shape": draw(st.sampled_from(["flat", "column", "single"])),
            "oneR": draw(st.booleans())}


def run_batch(c):
    rows, want = [], []
    for r in c["rows"]:
        R = float(c["rows"][0]["R"] if c["oneR"] else r["R"])
        a, b = r["along"] * R, r["off"] * R
        v = geo.tangent(r["inc"], r["azi"])
        w = in_plane(r, v)
        d2 = a * a + b * b
        if (b == 0 and a <= 0.01 * R) or 0 < b < 1e-3 * R:
            continue
        if d2 < 2 * R * b + 1e-3 * R * R:
            continue    # inside the turning circle: the caller checks
        t = math.sqrt(d2 - 2 * R * b)
        th = (math.atan2(b - R, a) + math.atan2(R, t)) % (2 * math.pi)
        if th > 2 * math.pi - 1e-6:
            th = 0.0
        if th > 6.2 or abs(th - math.pi) < 1e-3:
            continue
        ref = Ref(r["pos"], v, 0.0)
        if th:
            ref.arc(th, R, w)
        mid = ref.p
        rows.append((r["pos"], v, np.array(r["pos"]) + a * v + b * w, R))
        want.append((mid, ref.v, t, th, th * R, th * R + t))
    if not rows:
        raise Skip
    if c["shape"] == "single":
        rows, want = rows[:1], want[:1]
    P, V, T, R = (np.array([x[i] for x in rows], float) for i in range(4))
    if c["shape"] == "column":
        P, V, T, R = P[:, None], V[:, None], T[:, None], R[:, None]
    if c["shape"] == "single":
        P, V, T, R = P[0], V[0], T[0], R[0]
    keep = P.copy(), V.copy(), T.copy()
    out = we.connector.solve_curve_hold_batch(
        P, V, T, float(R.flat[0]) if c["oneR"] else R)
    n = len(rows)
    for i, (key, dim, tol) in enumerate([
            ("pos2", 3, 1e-3), ("vec_target", 3, 1e-5), ("tangent_length", 1, 1e-3),
            ("dogleg", 1, 1e-6), ("dist_curve", 1, 1e-3), ("md", 1, 1e-3)]):
        lead = P.shape[:-1]
        got = np.asarray(out[key], float)
        check(got.shape == lead + ((3,) if dim == 3 else ()),
              f"{key} has shape {got.shape} for inputs {P.shape}")
        exp = np.array([x[i] for x in want], float).reshape(n, -1)
        close(got.reshape(n, -1), exp, tol, 1e-7, what=key)
    for x, y in zip((P, V, T), keep):
        close(x, y, 0, what="caller's array")
    # each element as if it were solved on its own by the connector
    p, v, t, R0 = rows[0]
    con = we.connector.Connector(pos1=p, vec1=v, pos2=t,
                                 dls_design=math.degrees(30 / R0))
    close(np.asarray(out["md"], float).reshape(-1)[0], con.md_target, 1e-3, 1e-7,
          what="md of the batch and of the connector")
    return Info(any(x[3] > 1e-3 for x in want), [c["shape"]])


PROP = Prop("P11", [
    Facet("direction", case_dir(), run_dir, 1200,
          rule="random poses, target directions (every form), optional md; all "
               "judged cases bend"),
    Facet("md", case_md(), run_md, 400, rule="random holds; non-trivial: inclined"),
    Facet("point", case_point(), run_point, 1600,
          rule="random pose and point (ahead, behind, inside the turning circle); "
               "non-trivial: the path bends"),
    Facet("pose", case_pose(), run_pose, 1000,
          rule="random pose and a target pose 3 to 12 turn radii away; "
               "non-trivial: target direction off the line to it"),
    Facet("batch", case_batch(), run_batch, 800,
          rule="random arrays of curve-and-hold problems; non-trivial: one bends"),
], assumptions=["targets with a direction are at least 3 turn radii away, ahead "
                "within about 35 degrees, and turn at most 50 degrees off the line "
                "to them"])
