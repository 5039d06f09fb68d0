"""P12 poses stated in any accepted form are the same pose."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import make_header, make_survey, nev

tilt = st.sampled_from([1e-4, 5e-4, 0.001, 0.002, 0.005, 0.01, 0.03, 0.1])
inc_s = st.one_of(st.sampled_from([0.0, 90.0, 180.0]), gens.q(0, 180),
                  tilt, tilt.map(lambda t: 180.0 - t))
pos3 = st.tuples(*[st.one_of(st.just(0.0), gens.q(-5000, 5000, 0.1))] * 3).map(list)
CONT = {"list": list, "tuple": tuple, "array": np.array,
        "row": lambda v: np.array(v).reshape(1, 3),
        "int": lambda v: [int(x) if float(x).is_integer() else x for x in v]}
cont_s = st.sampled_from(sorted(CONT))


def box(kind, v):
    return CONT[kind]([float(x) for x in v])


@st.composite
def case_node(draw):
    return {"inc": draw(inc_s), "azi": draw(gens.angle_deg), "pos": draw(pos3),
            "len": draw(st.one_of(st.just(1.0), gens.q(0.01, 50))),
            "wrap": draw(st.sampled_from([0, 0, 360, -360])),
            "cont": draw(cont_s), "cont2": draw(cont_s),
            "md": draw(st.one_of(st.none(), st.just(0), gens.q(0, 9000, 0.1))),
            "unit": draw(st.sampled_from(["meters", "feet"])),
            "cov": draw(st.one_of(st.none(), gens.q(0.1, 100))),
            "nopos": draw(st.integers(0, 5)) == 0,
            "novec": draw(st.integers(0, 5)) == 0,
            "extra": draw(st.one_of(st.none(), gens.q(0, 100)))}


def forms(c):
    """The same pose in every accepted form: (label, keyword arguments)."""
    v = geo.tangent(c["inc"], c["azi"])
    xyz = v[[1, 0, 2]]
    a = c["azi"] + c["wrap"]
    p, px = c["pos"], [c["pos"][1], c["pos"][0], c["pos"][2]]
    L = c["len"]
    dirs = {
        "angles": dict(inc=c["inc"], azi=a),
        "radians": dict(inc=math.radians(c["inc"]), azi=math.radians(a),
                        degrees=False),
        "vec": dict(vec=box(c["cont2"], v * L)),
        "vec and angles": dict(vec=box(c["cont2"], v * L), inc=12.0, azi=34.0),
    }
    for k, d in dirs.items():
        yield k, dict(d, pos=box(c["cont"], p))
        if "vec" in d:
            d = dict(d, vec=box(c["cont2"], xyz * L))
        yield k + ", xyz", dict(d, pos=box(c["cont"], px), nev=False)


def judge_node(n, c, what, vec=True, pos=True):
    v = geo.tangent(c["inc"], c["azi"])
    if pos:
        p = np.array(c["pos"])
        close(n.pos_nev, p, 1e-9, what=f"{what}: pos_nev")
        close(n.pos_xyz, p[[1, 0, 2]], 1e-9, what=f"{what}: pos_xyz")
        check(np.shape(n.pos_nev) == (3,) and np.shape(n.pos_xyz) == (3,),
              f"{what}: shape of the position")
    else:
        check(n.pos_nev is None and n.pos_xyz is None, f"{what}: no position")
    names = ("vec_nev", "vec_xyz", "inc_rad", "inc_deg", "azi_rad", "azi_deg")
    if not vec:
        for k in names:
            check(getattr(n, k) is None, f"{what}: {k} without a direction")
        return
    close(n.vec_nev, v, 1e-9, what=f"{what}: vec_nev")
    close(n.vec_xyz, v[[1, 0, 2]], 1e-9, what=f"{what}: vec_xyz")
    check(np.shape(n.vec_nev) == (3,) and np.shape(n.vec_xyz) == (3,),
          f"{what}: shape of the direction")
    close(n.inc_deg, c["inc"], 1e-5, what=f"{what}: inc_deg")
    close(n.inc_rad, math.radians(c["inc"]), 1e-7, what=f"{what}: inc_rad")
    check(0 <= n.azi_rad <= 2 * math.pi and 0 <= n.azi_deg <= 360,
          lambda: f"{what}: azimuth {n.azi_deg} out of range")
    close(n.azi_deg, math.degrees(n.azi_rad), 1e-9, what=f"{what}: azi deg/rad")
    if 5e-5 < c["inc"] < 179.99995:
        close(angdiff(float(n.azi_rad), math.radians(c["azi"])), 0, 1e-7,
              what=f"{what}: azimuth")


def run_node(c):
    cov = None if c["cov"] is None else np.diag([1.0, 2.0, 3.0])[None] * c["cov"]
    for label, k in forms(c):
        if c["nopos"]:
            k["pos"] = None
        if c["novec"]:
            for a in ("vec", "inc", "azi"):
                k.pop(a, None)
        k.update(md=c["md"], unit=c["unit"])
        if cov is not None:
            k["cov_nev"] = cov.copy()
        if c["extra"] is not None:
            k.update(interpolated=True, label=c["extra"])
        n = we.node.Node(**k)
        judge_node(n, c, label, not c["novec"], not c["nopos"])
        check(n.md == c["md"] and n.unit == c["unit"], f"{label}: md or unit")
        close(n.cov_nev, np.zeros((1, 3, 3)) if cov is None else cov, 0,
              what=f"{label}: cov_nev")
        if c["extra"] is not None:
            check(n.interpolated is True and n.label == c["extra"],
                  f"{label}: additional attributes")
        d = n.properties()
        for a in ("pos_nev", "pos_xyz", "vec_nev", "vec_xyz", "inc_rad", "inc_deg",
                  "azi_rad", "azi_deg", "md", "unit", "cov_nev"):
            check(a in d and d[a] is getattr(n, a), f"{label}: properties()[{a}]")
        pos, vec, md = we.node.get_node_params(n)
        check(pos is n.pos_nev or np.array_equal(pos, n.pos_nev),
              f"{label}: node parameters (position)")
        check(vec is n.vec_nev or np.array_equal(vec, n.vec_nev),
              f"{label}: node parameters (direction)")
        check(md == c["md"], f"{label}: node parameters (md)")
        if cov is None:
            # filling in one node's covariance leaves the next one's zeros
            try:
                n.cov_nev += 3.0
            except ValueError:
                pass
    for k in (dict(inc=c["inc"]), dict(azi=c["azi"])):
        try:
            we.node.Node(pos=c["pos"], **k)
        except AssertionError:
            pass
        else:
            check(False, f"a direction from {sorted(k)} alone was accepted")
    return Info(0 < c["inc"] < 180 and not c["novec"],
                [c["cont"], c["unit"], "zero cov" if cov is None else "cov"]
                + (["no position"] if c["nopos"] else [])
                + (["no direction"] if c["novec"] else []))


# --- nodes of surveys -------------------------------------------------------
@st.composite
def case_station(draw):
    c = draw(gens.stations(min_n=2, max_n=7, max_inc=179.0, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start"] = draw(gens.nev_offset)
    c["j"] = draw(st.integers(0, len(c["md"]) - 1))
    return c


def run_station(c):
    s = make_survey(c, c["h"], start_nev=c["start"])
    j = c["j"]
    want = nev(s)[j]
    for n in (we.survey.get_node(s, j), s.interpolate_md(c["md"][j])):
        close(n.pos_nev, want, 1e-5, what="position of a station's node")
        close(n.pos_xyz, want[[1, 0, 2]], 1e-5, what="x-y-z of a station's node")
        close(n.vec_nev, s.vec_nev[j], 1e-7, what="direction of a station's node")
        close(n.vec_xyz, s.vec_xyz[j], 1e-7, what="x-y-z direction")
        close(n.inc_deg, c["inc"][j], 1e-5, what="inclination of a station's node")
        if 0.01 < c["inc"][j] < 179.99:
            close(angdiff(float(n.azi_rad), float(s.azi_grid_rad[j])), 0, 1e-6,
                  what="(grid) azimuth of a station's node")
        close(n.md, c["md"][j], 1e-6, what="md of a station's node")
        check(n.unit == c["h"]["depth_unit"], "unit of a station's node")
    check(not we.survey.get_node(s, j).interpolated, "station flagged interpolated")
    check(we.survey.get_node(s, j, interpolated=True).interpolated,
          "interpolated flag of a node")
    return Info(c["inc"][j] > 0, [c["h"]["azi_reference"], c["h"]["depth_unit"]])


# --- connector inputs -------------------------------------------------------
FORMS = ["vec", "array", "angles", "node angles", "node vec", "node xyz", "node long"]


@st.composite
def case_con(draw):
    return {"inc": draw(st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 170))),
            "azi": draw(gens.angle_deg), "pos": draw(pos3),
            "md": draw(st.one_of(st.just(0.0), gens.q(0, 5000, 0.1))),
            "f1": draw(st.sampled_from(FORMS)), "f2": draw(st.sampled_from(FORMS)),
            "unit": draw(st.sampled_from(["meters", "feet"])),
            "dls": draw(gens.q(1, 8)), "rad": draw(st.booleans()),
            "ahead": draw(gens.q(4, 9)), "side": draw(gens.q(0, 1.5)),
            "tf": draw(gens.angle_deg), "dinc": draw(gens.q(0, 60)),
            "dtf": draw(gens.angle_deg),
            "what": draw(st.sampled_from(["pose", "point"]))}


def pose_kw(i, form, pos, v, md, rad):
    inc = math.acos(max(-1, min(1, v[2])))
    azi = math.atan2(v[1], v[0])
    x = np.asarray(v)[[1, 0, 2]]
    px = [pos[1], pos[0], pos[2]]
    N = we.node.Node
    nd = {"node angles": lambda: N(pos=list(pos), inc=math.degrees(inc),
                                   azi=math.degrees(azi), md=md),
          "node vec": lambda: N(pos=np.array(pos), vec=list(v), md=md),
          "node xyz": lambda: N(pos=px, vec=x, md=md, nev=False),
          "node long": lambda: N(pos=tuple(pos), vec=list(7.5 * np.array(v)), md=md)}
    if form in nd:
        return {f"node{i}": nd[form]()}
    k = {f"pos{i}": list(pos) if form == "vec" else np.array(pos)}
    if i == 1:
        k["md1"] = md
    if form == "angles":
        k[f"inc{i}"] = inc if rad else math.degrees(inc)
        k[f"azi{i}"] = azi if rad else math.degrees(azi)
    else:
        k[f"vec{i}"] = list(v) if form == "vec" else np.array(v)
    return k


def run_con(c):
    den = 30.0 if c["unit"] == "meters" else 100.0
    R = den / math.radians(c["dls"])
    v = geo.tangent(c["inc"], c["azi"])
    e = np.eye(3)[int(np.argmin(np.abs(v)))]
    a = e - (e @ v) * v
    a /= np.linalg.norm(a)
    b = np.cross(v, a)

    def turned(axis_deg, by_deg):
        w = math.cos(math.radians(axis_deg)) * a + math.sin(math.radians(axis_deg)) * b
        return (math.cos(math.radians(by_deg)) * v + math.sin(math.radians(by_deg)) * w), w
    v2, _ = turned(c["dtf"], c["dinc"])
    _, w = turned(c["tf"], 0)
    p2 = np.array(c["pos"]) + c["ahead"] * R * v + c["side"] * R * w

    def solve(f1, f2, rad):
        k = dict(dls_design=math.radians(c["dls"]) if rad else c["dls"],
                 unit=c["unit"], degrees=not rad)
        k.update(pose_kw(1, f1, c["pos"], v, c["md"], rad))
        if c["what"] == "pose":
            k.update(pose_kw(2, f2, p2, v2, None, rad))
        elif f2.startswith("node"):
            k["node2"] = we.node.Node(pos=list(p2))
        else:
            k["pos2"] = list(p2)
        return we.connector.Connector(**k)
    base = solve("vec", "vec", False)
    con = solve(c["f1"], c["f2"], c["rad"])
    lab = f"start as {c['f1']}, target as {c['f2']}"
    tol = 2e-3 + 1e-6 * (abs(base.md_target - c["md"]))
    close(con.md_target, base.md_target, tol, what=f"{lab}: md of the target")
    close(con.pos_target, base.pos_target, tol, what=f"{lab}: position")
    close(np.ravel(con.vec_target), np.ravel(base.vec_target), 1e-5,
          what=f"{lab}: direction")
    for n, p, t, m in ((con.node_start, c["pos"], v, c["md"]),
                       (con.node_end, p2, np.ravel(base.vec_target), base.md_target)):
        close(n.pos_nev, p, tol, what=f"{lab}: node position")
        close(n.vec_nev, t, 1e-5, what=f"{lab}: node direction")
        close(n.md, m, tol, what=f"{lab}: node md")
        check(n.unit == c["unit"], f"{lab}: node unit")
    hd = make_header({"depth_unit": c["unit"], "azi_reference": "grid"})
    s0, s1 = (we.survey.from_connections(x, step=den, survey_header=hd)
              for x in (base, con))
    m = min(s0.md[-1], s1.md[-1]) - 1e-3
    for f in (0.2, 0.5, 0.8):
        at = c["md"] + f * (m - c["md"])
        close(s1.interpolate_md(at).pos_nev, s0.interpolate_md(at).pos_nev,
              10 * tol + 1e-2, what=f"{lab}: path at md {at}")
    return Info(c["f1"] != "vec" or c["f2"] != "vec",
                ["start " + c["f1"], "target " + c["f2"], c["what"], c["unit"]])


PROP = Prop(
    "P12",
    [Facet("node-forms", case_node(), run_node, 2500,
           "a direction off the vertical is given"),
     Facet("station-nodes", case_station(), run_station, 1200,
           "the station isn't vertical"),
     Facet("connector-forms", case_con(), run_con, 700,
           "another form than n-e-v vectors is used")],
    ["directions given to the connector itself are unit vectors"])
