"""P01 minimum-curvature survey geometry against an independent arc integrator."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import grid_azi, make_header, make_survey, nev


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=2, max_n=12, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["deg"] = draw(st.booleans())
    c["start_nev"] = draw(gens.nev_offset)
    c["start_xyz"] = draw(st.one_of(st.just([0.0, 0.0, 0.0]), gens.nev_offset))
    return c


def build(c, **kw):
    h = make_header(c["h"])
    inc, azi = np.array(c["inc"], float), np.array(c["azi"], float)
    if not c["deg"]:
        inc, azi = np.radians(inc), np.radians(azi)
    return we.survey.Survey(
        md=c["md"], inc=inc, azi=azi, header=h, deg=c["deg"],
        unit=c["h"]["depth_unit"], start_nev=c["start_nev"],
        start_xyz=c["start_xyz"], **kw)


def nontrivial(c):
    return len(set(zip(c["inc"], c["azi"]))) > 1


def classes(c):
    out = [c["h"]["azi_reference"], c["h"]["depth_unit"],
           "deg" if c["deg"] else "rad"]
    if any(a == b and i == j for i, j, a, b in zip(
            c["inc"], c["inc"][1:], c["azi"], c["azi"][1:])):
        out.append("has-hold")
    if 0.0 in c["inc"]:
        out.append("has-vertical")
    if max(c["inc"]) > 90:
        out.append("goes-up")
    return out


def run_geometry(c):
    s = build(c)
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    tol = 1e-5 + 1e-9 * (c["md"][-1] - c["md"][0])
    close(nev(s), p.pos, tol, what="n/e/tvd")
    close(s.get_nev_arr(), p.pos, tol, what="position listing")
    close(s.pos_nev, p.pos, tol, what="pos_nev")
    xyz = (p.pos - p.pos[0])[:, [1, 0, 2]] + np.array(c["start_xyz"])
    close(s.pos_xyz, xyz, tol, what="pos_xyz")
    close(np.column_stack([s.x, s.y, s.z]), xyz, tol, what="x/y/z")
    close(s.vec_nev, p.t, 1e-9, what="tangent vectors (nev)")
    close(s.vec_xyz, p.t[:, [1, 0, 2]], 1e-9, what="tangent vectors (xyz)")
    close(s.dogleg, p.dl, 1e-8, what="dogleg")
    L = np.diff(p.md)
    close(s.delta_md[1:], L, 1e-9, what="delta md")
    den = 30.0 if c["h"]["depth_unit"] == "meters" else 100.0
    close(s.dls[1:], np.degrees(p.dl[1:]) / L * den, 1e-6, 1e-9, what="dls")
    close(s.dls[0], 0.0, 0, what="dls of first station")
    close(s.md, c["md"], 0, what="md")
    # the arc is never shorter than the chord between its ends
    chord = np.linalg.norm(np.diff(nev(s), axis=0), axis=1)
    check((chord <= L + 1e-6).all(), "chord longer than the measured depth")
    return Info(nontrivial(c), classes(c))


def run_split(c):
    """Inserting the reference arc's own mid-stations changes nothing."""
    s = build(c)
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    md, inc, azi, keep = [], [], [], []
    for j in range(len(p.md) - 1):
        L = p.md[j + 1] - p.md[j]
        for f in (0.0, c["f"]):
            if f == 0.0:
                keep.append(len(md))
                md.append(p.md[j]), inc.append(c["inc"][j]), azi.append(g[j])
            else:
                _, t = geo.arc(p.t[j], p.t[j + 1], L, f * L)
                md.append(p.md[j] + f * L)
                inc.append(math.degrees(math.atan2(math.hypot(t[0], t[1]), t[2])))
                azi.append(math.degrees(math.atan2(t[1], t[0])))
    keep.append(len(md))
    md.append(p.md[-1]), inc.append(c["inc"][-1]), azi.append(g[-1])
    h = make_header(c["h"], azi_reference="grid")
    s2 = we.survey.Survey(md=md, inc=inc, azi=azi, header=h,
                          unit=c["h"]["depth_unit"], start_nev=c["start_nev"])
    tol = 1e-4 + 1e-8 * (c["md"][-1] - c["md"][0])
    close(nev(s2)[keep], nev(s), tol, what="positions after splitting arcs")
    tot = np.add.reduceat(s2.dogleg[1:], [k for k in keep[:-1]])
    close(tot, s.dogleg[1:], 1e-6, what="dogleg summed over split arcs")
    return Info(nontrivial(c), classes(c))


@st.composite
def case_split(draw):
    c = draw(case())
    c["f"] = draw(gens.q(0.05, 0.95))
    return c


def run_curvature(c):
    """Toolface, curve radius and build/turn rates describe the next arc."""
    s = build(c)
    g = np.radians(grid_azi(c["h"], c["azi"]))
    inc = np.radians(c["inc"])
    t = [geo.tangent_rad(i, a) for i, a in zip(inc, g)]
    den = 30.0 if c["h"]["depth_unit"] == "meters" else 100.0
    n = len(t)
    hit = 0
    for j in range(n - 1):
        dl = geo.angle_between(t[j], t[j + 1])
        if dl < 1e-4:
            continue
        hit += 1
        hs, lat, ah = geo.hla_axes(inc[j], g[j])
        tf = float(s.toolface[j])
        end = math.cos(dl) * ah + math.sin(dl) * (
            math.cos(tf) * hs + math.sin(tf) * lat)
        close(end, t[j + 1], 1e-6,
              what=f"direction reached along toolface at station {j}")
        # plane of the curve
        nrm = np.cross(t[j], t[j + 1])
        close(s.normals[j], nrm / np.linalg.norm(nrm), 1e-6,
              what=f"curve-plane normal of interval {j}")
        L = c["md"][j + 1] - c["md"][j]
        close(s.curve_radius[j + 1], L / dl, 1e-5, 1e-7,
              what=f"radius of interval {j}")
    if hit and geo.angle_between(t[-2], t[-1]) > 1e-4:
        # the last toolface is the one the final arc arrives with
        hs, lat, ah = geo.hla_axes(inc[-1], g[-1])
        dl = geo.angle_between(t[-2], t[-1])
        tf = float(s.toolface[-1])
        back = math.cos(dl) * ah - math.sin(dl) * (
            math.cos(tf) * hs + math.sin(tf) * lat)
        close(back, t[-2], 1e-6, what="arrival toolface at the last station")
    # rates: curvature resolved into the vertical plane and the horizontal
    for j in range(1, n):
        k = math.radians(float(s.dls[j])) / den
        if k == 0:
            continue
        b = abs(math.degrees(k * math.cos(float(s.toolface[j]))) * den)
        close(s.build_rate[j], b, 1e-6, 1e-6, what=f"build rate at {j}")
        if math.sin(inc[j]) > 1e-3:
            w = abs(math.degrees(
                k * math.sin(float(s.toolface[j])) / math.sin(inc[j])) * den)
            close(s.turn_rate[j], w, 1e-6, 1e-6, what=f"turn rate at {j}")
    return Info(hit >= 1, classes(c))


@st.composite
def case_scale(draw):
    c = draw(case())
    c["k"] = draw(gens.q(0.99, 1.01, 0.0001))
    return c


def run_scale(c):
    """The grid scale factor scales horizontal grid offsets and nothing else."""
    a = build(c)
    c2 = dict(c, h=dict(c["h"], grid_scale_factor=c["k"]))
    b = build(c2)
    d1 = a.pos_nev - a.pos_nev[0]
    d2 = b.pos_nev - b.pos_nev[0]
    close(d2, d1 * np.array([c["k"], c["k"], 1.0]), 1e-6, 1e-9,
          what="scaled grid offsets")
    close(b.pos_nev[0], a.pos_nev[0], 1e-9, what="start position")
    close(b.tvd, a.tvd, 1e-9, what="tvd")
    close(b.dogleg, a.dogleg, 1e-12, what="dogleg")
    return Info(nontrivial(c) and c["k"] != 1.0, classes(c))


RULE = ("random station listings (holds, builds, turns, vertical and upward "
        "parts, any azimuth reference, degrees/radians, metres/feet, start "
        "offsets); non-trivial: at least two different directions")
@st.composite
def case_given(draw):
    c = draw(case())
    n = len(c["md"])
    c["noise"] = [[draw(gens.q(-3, 3, 0.1)) for _ in range(3)] for _ in range(n)]
    c["how"] = draw(st.sampled_from(["nev", "xyz", "both"]))
    c["vec"] = draw(st.sampled_from([None, "nev", "xyz"]))
    c["box"] = draw(st.booleans())
    return c


def run_given(c):
    """Positions and directions that are part of the listing are kept."""
    plain = build(c)
    box = (lambda v: v.tolist()) if c["box"] else (lambda v: v)
    P = nev(plain) + np.array(c["noise"])
    X = np.array(c["start_xyz"]) + (P - np.array(c["start_nev"]))[:, [1, 0, 2]]
    kw = {}
    if c["how"] != "xyz":
        kw.update(n=box(P[:, 0]), e=box(P[:, 1]), tvd=box(P[:, 2]))
    if c["how"] != "nev":
        kw.update(x=box(X[:, 0]), y=box(X[:, 1]), z=box(X[:, 2]))
    v = np.array([geo.tangent(i, a) for i, a in zip(
        c["inc"], grid_azi(c["h"], c["azi"]))])
    if c["vec"]:
        kw.update(vec=v if c["vec"] == "nev" else v[:, [1, 0, 2]], nev=c["vec"] == "nev")
    s = build(c, **kw)
    close(nev(s), P, 1e-8, what="given n, e, tvd")
    close(s.get_nev_arr(), P, 1e-8, what="given positions listed")
    if c["how"] != "nev":
        close(np.array([s.x, s.y, s.z]).T, X, 1e-8, what="given x, y, z")
    close(s.start_nev, P[0] if c["how"] != "xyz" else c["start_nev"], 1e-9, what="start")
    close(s.vec_nev, v, 1e-9, what="direction vectors")
    close(s.vec_xyz, v[:, [1, 0, 2]], 1e-9, what="direction vectors in x-y-z")
    for k in ("md", "inc_rad", "azi_grid_rad", "azi_true_rad", "dogleg", "dls", "rf",
              "build_rate", "turn_rate", "toolface", "pos_xyz"):
        a, b = getattr(s, k), getattr(plain, k)
        check(np.array_equal(a, b, equal_nan=True), f"{k} differs when positions are given")
    return Info(nontrivial(c), [c["how"], str(c["vec"])])


PROP = Prop("P01", [
    Facet("geometry", case(), run_geometry, 2500, rule=RULE),
    Facet("split", case_split(), run_split, 1200,
          rule="as geometry, each arc cut at a generated fraction"),
    Facet("curvature", case(), run_curvature, 1500,
          rule="as geometry; non-trivial: at least one interval bends > 1e-4 rad"),
    Facet("given", case_given(), run_given, 500,
          rule="as geometry, with positions (and directions) given with the listing"),
    Facet("scale", case_scale(), run_scale, 300,
          rule="as geometry plus a grid scale factor; non-trivial: factor != 1"),
], assumptions=["successive directions differ by less than 180 degrees"])
