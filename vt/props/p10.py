"""P10 projecting ahead, to the bit and to a target."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import grid_azi, make_header, nev
from .p04 import walk
from .p05 import build

inc_d = st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 150))
pos = st.tuples(*[gens.q(-2000, 2000, 0.1)] * 3).map(list)


@st.composite
def case_ahead(draw):
    return {"inc": draw(inc_d), "azi": draw(gens.angle_deg), "pos": draw(pos),
            "dmd": draw(gens.q(0, 300, 0.1)),
            "dls": draw(st.one_of(st.just(0.0), gens.q(0.01, 15))),
            "tf": draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]),
                                 gens.angle_deg)),
            "md": draw(gens.q(0, 6000, 0.1))}


def expect(p, inc, azi, tf, dls, dmd, den=30.0):
    if dls == 0:
        t = geo.tangent_rad(inc, azi)
        return np.asarray(p, float) + t * dmd, t
    k = math.radians(dls) / den
    return walk(p, inc, azi, tf, k * dmd, 1 / k)


def run_ahead(c):
    inc, azi = math.radians(c["inc"]), math.radians(c["azi"])
    if c["inc"] == 0:
        azi = 0.0
    p, v = np.array(c["pos"]), geo.tangent_rad(inc, azi)
    p0, v0 = p.copy(), v.copy()
    n = we.survey.project_ahead(p, v, c["dmd"], c["dls"], math.radians(c["tf"]),
                                md=c["md"])
    wp, wv = expect(p0, inc, azi, math.radians(c["tf"]), c["dls"], c["dmd"])
    tol = 1e-5 + 1e-8 * np.abs(p0).max()
    close(n.pos_nev, wp, tol, what="projected position")
    close(n.vec_nev, wv, 1e-7, what="projected direction")
    close(n.md, c["md"] + c["dmd"], 1e-9, what="projected md")
    close(p, p0, 0, what="caller's position")
    close(v, v0, 0, what="caller's direction")
    # projecting in two steps along the same curve lands in the same place
    h = c["dmd"] / 2
    a = we.survey.project_ahead(p0, v0, h, c["dls"], math.radians(c["tf"]), md=c["md"])
    close(np.linalg.norm(np.array(a.vec_nev)), 1.0, 1e-9, what="unit direction")
    return Info(c["dls"] > 0 and c["dmd"] > 0 and c["inc"] > 0,
                ["hold" if c["dls"] == 0 else "curve"])


@st.composite
def case_bit(draw):
    c = draw(gens.stations(min_n=2, max_n=6, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["dmd"] = draw(gens.q(0.1, 60, 0.1))
    c["dls"] = draw(st.one_of(st.none(), st.just(0.0), gens.q(0.1, 10)))
    c["tf"] = draw(st.one_of(st.none(), gens.angle_deg))
    return c


def run_bit(c):
    s = build(c)
    before = nev(s)
    g = grid_azi(c["h"], c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    den = 30.0 if c["h"]["depth_unit"] == "meters" else 100.0
    kw = {}
    if c["dls"] is not None:
        kw["dls"] = c["dls"]
    if c["tf"] is not None:
        kw["toolface"] = math.radians(c["tf"])
    n = s.project_to_bit(c["dmd"], **kw)
    L = p.md[-1] - p.md[-2]
    if c["dls"] is None and c["tf"] is None:
        # carries on along the curve of the last interval
        if p.dl[-1] < 1e-4 and p.dl[-1] > 0:
            raise Skip
        if p.dl[-1] == 0:
            wp, wv = p.pos[-1] + p.t[-1] * c["dmd"], p.t[-1]
        else:
            f = c["dmd"] / L
            u, v = p.t[-2], p.t[-1]
            w = v - np.dot(u, v) * u
            w /= np.linalg.norm(w)
            th, r = p.dl[-1], L / p.dl[-1]
            q = th * (1 + f)
            wv = math.cos(q) * u + math.sin(q) * w
            wp = p.pos[-2] + r * (math.sin(q) * u + 2 * math.sin(q / 2) ** 2 * w)
        amp = 1 + 1e-4 / max(p.dl[-1], 1e-4)
    else:
        # an explicit toolface is about the high side of the last station
        if math.sin(math.radians(c["inc"][-1])) < 1e-6 and c["tf"] is not None:
            raise Skip      # a vertical hole has no high side
        else:
            azi = math.radians(g[-1])
        dls = float(s.dls[-1]) if c["dls"] is None else c["dls"]
        tf = float(s.toolface[-1]) if c["tf"] is None else math.radians(c["tf"])
        if c["tf"] is None and c["dls"] > 0 and (
                p.dl[-1] < 1e-4 or c["inc"][-1] < 0.01):
            raise Skip      # no toolface to carry on with
        wp, wv = expect(p.pos[-1], math.radians(c["inc"][-1]), azi, tf, dls,
                        c["dmd"], den)
        amp = 1.0
    if c["inc"][-1] < 0.01 and p.dl[-1] > 0 and c["tf"] is None:
        raise Skip
    close(n.pos_nev, wp, 1e-4 * amp + 1e-8 * p.md[-1], what="position of bit")
    close(n.vec_nev, wv, 1e-6 * amp, what="direction at bit")
    close(n.md, c["md"][-1] + c["dmd"], 1e-9, what="md of bit")
    check(n.unit == c["h"]["depth_unit"], f"unit of bit node {n.unit}")
    close(nev(s), before, 0, what="survey")
    return Info(p.dl[-1] > 1e-3, [
        c["h"]["depth_unit"], c["h"]["azi_reference"],
        "default" if not kw else "explicit"])


@st.composite
def case_target(draw):
    c = draw(gens.stations(min_n=2, max_n=5, max_inc=80.0, max_dinc=20.0,
                           max_dazi=20.0, min_step=30.0))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["radii"] = draw(gens.q(3, 10))    # distance in turn radii
    c["off"] = [draw(gens.q(-0.5, 0.5)), draw(gens.q(-0.5, 0.5))]
    c["vec"] = draw(st.one_of(st.none(), st.tuples(gens.q(-20, 20), gens.q(-20, 20)).map(list)))
    c["bit"] = draw(st.one_of(st.none(), gens.q(5, 40, 0.1)))
    c["dls"] = draw(st.one_of(st.none(), st.just(0.0), gens.q(0.1, 5)))
    c["tf"] = draw(st.one_of(st.none(), gens.angle_deg))
    c["design"] = draw(st.sampled_from([3.0, 4.0, 6.5]))
    c["step"] = draw(st.sampled_from([30, 10, 47.3]))
    c["model"] = draw(st.sampled_from([None, None, "ISCWSA MWD Rev4",
                                       "ISCWSA MWD Rev5"]))
    c["h"]["b_total"], c["h"]["dip"] = 50000.0, 60.0
    c["radius"] = draw(st.sampled_from([None, 0.1, 0.25]))
    return c


def run_target(c):
    sk = {}
    if c["model"]:
        sk["error_model"] = c["model"]
    if c["radius"]:
        n = len(c["md"])
        sk["radius"] = np.linspace(2 * c["radius"], c["radius"], n)
    s = build(c, **sk)
    before_cov = None if s.cov_nev is None else s.cov_nev.copy()
    hd, before = copy.copy(vars(s.header)), nev(s)
    unit = c["h"]["depth_unit"]
    den = 30.0 if unit == "meters" else 100.0
    scale = 1.0 if unit == "meters" else 1 / 0.3048
    last = nev(s)[-1]
    inc, azi = float(s.inc_rad[-1]), float(s.azi_grid_rad[-1])
    hs, lat, ah = geo.hla_axes(inc, azi)
    D = c["radii"] * den / math.radians(c["design"])
    target = last + D * (ah + c["off"][0] * hs + c["off"][1] * lat)
    kw = {}
    if c["vec"] is not None:
        w = target - last
        w /= np.linalg.norm(w)
        i2 = math.degrees(math.atan2(math.hypot(w[0], w[1]), w[2])) + c["vec"][0]
        a2 = math.degrees(math.atan2(w[1], w[0])) + c["vec"][1]
        if not 0 <= i2 <= 170:
            raise Skip
        kw = dict(inc=i2, azi=a2)
    node = we.node.Node(pos=target.tolist(), unit=unit, **kw)
    pk = {}
    if c["bit"] is not None:
        pk["delta_md"] = c["bit"] * scale
        if c["dls"] is not None:
            pk["dls"] = c["dls"]
        if c["tf"] is not None:
            pk["toolface"] = math.radians(c["tf"])
    if pk:
        b = s.project_to_bit(pk["delta_md"], **{k: v for k, v in pk.items()
                                                if k != "delta_md"})
        w = target - np.array(b.pos_nev)
        if geo.angle_between(b.vec_nev, w / np.linalg.norm(w)) > 1.0:
            raise Skip      # the bit lead turns away from the target
    r = s.project_to_target(node, dls_design=c["design"], step=c["step"], **pk)
    tol = 0.1 * scale
    close(nev(r)[0], last, 1e-4 * scale, what="start of projection")
    close(r.vec_nev[0], s.vec_nev[-1], 1e-6, what="start direction of projection")
    close(r.md[0], s.md[-1], 1e-6, what="start md of projection")
    close(nev(r)[-1], target, tol, what="end of projection")
    if c["vec"] is not None:
        close(r.vec_nev[-1], geo.tangent(kw["inc"], kw["azi"]), 1e-5,
              what="direction at the target")
    check(r.unit == unit, "unit of projection")
    check((np.diff(r.md) > 0).all(), "measured depths not increasing")
    lead = 0
    if c["bit"] is not None:
        j = int(np.abs(r.md - b.md).argmin())
        close(r.md[j], b.md, 1e-3, what="md of bit on the projection")
        close(nev(r)[j], b.pos_nev, tol, what="projection passes the bit")
        close(r.vec_nev[j], b.vec_nev, 1e-4, what="direction at the bit")
        lead = j
    # far targets can be reached within the design curvature
    L = np.diff(r.md)[lead:]
    bend = np.radians(r.dls[1 + lead:]) / den * L
    ok = bend <= math.radians(c["design"]) / den * L * 1.001 + 0.015
    check(ok.all(), lambda: f"dls {r.dls[1 + lead:].max()} over design {c['design']}")
    # ... and the turn is made at the design curvature, not a gentler one
    w = target - nev(r)[lead]
    w /= np.linalg.norm(w)
    if geo.angle_between(r.vec_nev[lead], w) > 0.1:
        check(r.dls[1 + lead:].max() > 0.98 * c["design"],
              lambda: f"dls {r.dls[1 + lead:].max()} short of design {c['design']}")
    # the uncertainty and hole size carry on from the survey's
    close(r.radius, np.full(len(r.md), s.radius[-1]), 1e-12, what="radius")
    if c["model"]:
        own = we.survey.Survey(
            md=r.md, inc=r.inc_deg, azi=r.azi_grid_deg, start_nev=last,
            header=make_header(c["h"], azi_reference="grid"), unit=unit,
            error_model=c["model"])
        want = own.cov_nev + before_cov[-1]
        t = 1e-6 * np.abs(want).max()
        close(r.cov_nev, want, t, what="covariance of the projection")
        T = np.array([geo.hla_axes(a, b) for a, b in
                      zip(r.inc_rad, np.asarray(r.azi_grid_rad))])
        close(r.cov_hla, T @ want @ T.swapaxes(-1, -2), 10 * t,
              what="highside covariance of the projection")
        close(s.cov_nev, before_cov, 0, what="covariance of the survey")
    close(nev(s), before, 0, what="survey")
    check(vars(s.header) == hd, "header changed by projecting")
    return Info(True, [unit, c["h"]["azi_reference"],
                       "bit" if c["bit"] is not None else "nobit",
                       "vec" if c["vec"] is not None else "point"])


PROP = Prop("P10", [
    Facet("ahead", case_ahead(), run_ahead, 2000,
          rule="random pose, length, dls, toolface; non-trivial: inclined, curved"),
    Facet("bit", case_bit(), run_bit, 1500,
          rule="random well, header, explicit or carried-on curve; non-trivial: "
               "the last interval bends"),
    Facet("target", case_target(), run_target, 500,
          rule="random well and a far target ahead, optional direction, optional "
               "bit lead; all non-trivial"),
])
