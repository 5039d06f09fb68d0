"""P32 the same well in metres and in feet gives the same answers."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import make_header, nev
from . import p19
from .p15 import domain, em_case, survey
from .p19 import psd, psd_of

FT = 0.3048
DLS = 30.48 / 30        # deg/30m to deg/100ft


def feet(c):
    """The same case in feet."""
    d = dict(c)
    d["md"] = (np.array(c["md"]) / FT).tolist()
    d["start_nev"] = (np.array(c["start_nev"]) / FT).tolist()
    d["h"] = dict(c["h"], depth_unit="feet")
    return d


def lengths(a, b, what, tol=1e-6, rtol=1e-8):
    """a is in metres, b in feet."""
    close(np.asarray(b, float) * FT, np.asarray(a, float), tol, rtol, what=what)


def same(a, b, what):
    """Two surveys are the same well, a in metres and b in feet."""
    check(a.unit == "meters" and b.unit == "feet",
          f"{what}: units {a.unit} and {b.unit}")
    check(b.header.depth_unit == "feet", f"{what}: header unit")
    check(len(a.md) == len(b.md),
          lambda: f"{what}: {len(a.md)} stations in metres, {len(b.md)} in feet")
    lengths(a.md, b.md, f"{what}: md", 1e-4)
    lengths(nev(a), nev(b), f"{what}: position", 1e-3)
    close(b.vec_nev, a.vec_nev, 1e-5, what=f"{what}: direction")


def cov_same(a, b, what, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float) * FT ** 2
    close(b, a, tol * (np.abs(a).max() + 1e-6), what=what)


@st.composite
def case_well(draw):
    c = draw(em_case(unit=("meters",)))
    c["start_cov"] = draw(st.one_of(st.none(), psd()))
    return c


def run_well(c):
    domain(c)
    d = feet(c)
    kw, kd = {}, {}
    if c["start_cov"]:
        c0 = psd_of(c["start_cov"])
        kw["start_cov_nev"], kd["start_cov_nev"] = c0, c0 / FT ** 2
    a, b = survey(c, **kw), survey(d, **kd)
    same(a, b, "survey")
    for w in ("cov_nev", "cov_hla"):
        cov_same(getattr(a, w), getattr(b, w), f"{w} of {c['model']}")
    if not c["start_cov"]:
        for w in ("random", "systematic", "global", "within_pad"):
            cov_same(getattr(a, "cov_nev_" + w), getattr(b, "cov_nev_" + w),
                     f"{w} covariance of {c['model']}")
        ea, eb = a.err.errors.errors, b.err.errors.errors
        check(set(ea) == set(eb), "terms differ")
        for k in ea:
            cov_same(ea[k].cov_NEV, eb[k].cov_NEV, f"covariance of {k}")
            random = ea[k].propagation == "random"
            f = np.array([FT, 1.0, 1.0])    # (depth, inclination, azimuth)
            for w, z in (("e_NEV", FT), ("e_NEV_star", FT), ("e_DIA", f),
                         ("cov_DIA", np.outer(f, f)),
                         ("sigma_e_NEV", FT ** 2 if random else FT)):
                u = np.asarray(getattr(ea[k], w), float)
                v = np.asarray(getattr(eb[k], w), float) * z
                close(v, u, 1e-7 * (np.abs(u).max() + 1e-6), what=f"{w} of {k}")
    dl = a.dogleg[1:] > 1e-4
    for w, f in (("dls", DLS), ("build_rate", DLS), ("turn_rate", DLS)):
        x = np.asarray(getattr(a, w), float)[1:][dl]
        y = np.asarray(getattr(b, w), float)[1:][dl]
        ok = np.isfinite(x) & (np.abs(x) < 1e3)
        close(y[ok], x[ok] * f, 1e-6, 1e-6, what=w)
    close(b.dogleg, a.dogleg, 1e-9, what="dogleg")
    i, j = a.toolface[:-1][dl], b.toolface[:-1][dl]
    close(angdiff(i, j), np.zeros(len(i)), 1e-6, what="toolface")
    lengths(a.vertical_section, b.vertical_section, "vertical section", 1e-5)
    # the default hole
    lengths(a.radius, b.radius, "default radius", 1e-9)
    ends = we.survey.survey_to_df(a), we.survey.survey_to_df(b)
    check(len(ends[0]) == len(ends[1]), "survey_to_df")
    return Info(a.dogleg.max() > 1e-3, [c["model"].split("_")[0]])


@st.composite
def case_ops(draw):
    c = draw(gens.stations(min_n=3, max_n=7, min_step=5, max_inc=85, max_dinc=25, long=True))
    c["h"] = draw(gens.header(unit=("meters",), mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["model"] = None
    c["step"] = draw(gens.q(7, 90)) + 0.0037
    c["frac"] = draw(gens.q(0, 1))
    c["tvd"] = draw(gens.q(0, 1))
    c["ahead"] = draw(gens.q(1, 60, 0.1))
    c["dls"] = draw(gens.q(0.1, 6))
    c["tf"] = draw(gens.angle_deg)
    c["cut"] = draw(st.integers(1, len(c["md"]) - 1))
    c["off"] = [draw(gens.q(-0.5, 0.5)), draw(gens.q(-0.5, 0.5)), draw(gens.q(3, 9))]
    c["vec"] = draw(st.booleans())
    c["noise"] = draw(gens.q(0.1, 3))
    return c


def run_ops(c):
    d = feet(c)
    a, b = survey(c, error_model=None), survey(d, error_model=None)
    # to a measured depth
    md = c["md"][0] + c["frac"] * (c["md"][-1] - c["md"][0])
    x, y = a.interpolate_md(md), b.interpolate_md(md / FT)
    check(y.unit == "feet" and x.unit == "meters", "unit of a node")
    lengths(x.pos_nev, y.pos_nev, "interpolate_md position", 1e-3)
    lengths(x.md, y.md, "interpolate_md md", 1e-6)
    close(y.vec_nev, x.vec_nev, 1e-5, what="interpolate_md direction")
    close(y.inc_rad, x.inc_rad, 1e-5, what="interpolate_md inclination")
    # resampled
    k = np.array(c["md"]) / c["step"]
    if np.abs(k - np.round(k)).min() * c["step"] > 1e-3 or len(c["md"]) == 0:
        same(a.interpolate_survey(step=c["step"]),
             b.interpolate_survey(step=c["step"] / FT), "interpolate_survey")
    down = (np.diff(nev(a)[:, 2]) > 1).all() and np.max(c["inc"]) <= 80
    if down:
        z = nev(a)[:, 2]
        t = z[0] + c["tvd"] * (z[-1] - z[0])
        x, y = a.interpolate_tvd(t), b.interpolate_tvd(t / FT)
        lengths(x.pos_nev, y.pos_nev, "interpolate_tvd position", 5e-3)
        k = z / c["step"]
        if np.abs(k - np.round(k)).min() * c["step"] > 1e-2:
            r, q = (a.interpolate_survey_tvd(step=c["step"]),
                    b.interpolate_survey_tvd(step=c["step"] / FT))
            check(len(r.md) == len(q.md), "interpolate_survey_tvd stations")
            lengths(r.tvd, q.tvd, "interpolate_survey_tvd depths", 5e-3)
    # cut
    n = c["cut"]
    if n >= 2:
        same(we.survey.slice_survey(a, 0, n), we.survey.slice_survey(b, 0, n), "slice")
    same(we.survey.splice_surveys([a]), we.survey.splice_surveys([b]), "splice")
    # indices
    if c["md"][0] == 0 and a.dogleg.sum() > 0:
        x, y = a.directional_difficulty_index(), b.directional_difficulty_index()
        close(y, x, 1e-6, 1e-6, what="difficulty index")
    if (a.dogleg[1:] > 1e-3).all():
        same(a.maximum_curvature(c["noise"]),
             b.maximum_curvature(c["noise"] * DLS), "maximum curvature")
    # ahead
    x = a.project_to_bit(c["ahead"], dls=c["dls"], toolface=math.radians(c["tf"]))
    y = b.project_to_bit(c["ahead"] / FT, dls=c["dls"] * DLS,
                         toolface=math.radians(c["tf"]))
    check(y.unit == "feet", "unit of the bit")
    lengths(x.pos_nev, y.pos_nev, "project_to_bit", 1e-3)
    lengths(x.md, y.md, "md of the bit", 1e-6)
    close(y.vec_nev, x.vec_nev, 1e-6, what="direction of the bit")
    # to a target
    t = a.vec_nev[-1]
    u = np.cross(t, np.eye(3)[int(np.argmin(np.abs(t)))])
    u /= np.linalg.norm(u)
    w = np.cross(t, u)
    R = 30 / math.radians(3.0)
    pos = nev(a)[-1] + R * c["off"][2] * (t + c["off"][0] * u + c["off"][1] * w)
    kw = {"vec": t.copy()} if c["vec"] else {}
    na = we.node.Node(pos=pos.tolist(), **kw)
    nb = we.node.Node(pos=(pos / FT).tolist(), unit="feet", **kw)
    p = we.survey.project_to_target(a, na, dls_design=3.0, step=c["step"])
    q = we.survey.project_to_target(b, nb, dls_design=3.0 * DLS, step=c["step"] / FT)
    lengths(p.md[-1], q.md[-1], "md at the target", 1e-2)
    lengths(nev(p)[-1], nev(q)[-1], "position at the target", 2e-3)
    close(q.vec_nev[-1], p.vec_nev[-1], 1e-4, what="direction at the target")
    # the plan, and section for section
    ca = we.connector.Connector(node1=we.survey.get_node(a, -1), node2=na,
                                dls_design=3.0, unit="meters")
    cb = we.connector.Connector(node1=we.survey.get_node(b, -1), node2=nb,
                                dls_design=3.0 * DLS, unit="feet")
    lengths(ca.md_target, cb.md_target, "connector's md", 1e-2)
    lengths(ca.pos_target, cb.pos_target, "connector's target", 1e-3)
    close(cb.vec_target, ca.vec_target, 1e-4, what="connector's direction")
    return Info(a.dogleg.max() > 1e-3, ["descending" if down else "any"])


def pair(c):
    ref = dict(c["ref"], h=dict(c["ref"]["h"], depth_unit="feet"))
    off = dict(c["off"], h=dict(c["off"]["h"], depth_unit="feet"))
    return ref, off


@st.composite
def case_clear(draw):
    c = draw(p19.scenario())
    c["ref"]["h"]["depth_unit"] = c["off"]["h"]["depth_unit"] = "meters"
    c["n_verts"] = draw(st.sampled_from([12, 16]))
    c["sigma"] = draw(gens.q(0.5, 4))
    c["method"] = draw(st.sampled_from(["ellipse", "pedal_curve", "circle"]))
    return c


def run_clear(c):
    ref, off = pair(c)
    ra, oa = p19.survey(c["ref"], c["radii"]), p19.survey(c["off"], c["radii"])
    rb = p19.survey(ref, c["radii"], scale=1 / FT)
    ob = p19.survey(off, c["radii"], scale=1 / FT)
    kw = dict(k=c["k"], minimize_sf=False)
    a = we.clearance.IscwsaClearance(ra, oa, sigma_pa=c["sigma_pa"], Sm=c["Sm"],
                                     Rr=c["Rr"], Ro=c["Ro"], **kw)
    b = we.clearance.IscwsaClearance(
        rb, ob, sigma_pa=c["sigma_pa"] / FT, Sm=c["Sm"] / FT, Rr=c["Rr"] / FT,
        Ro=c["Ro"] / FT, **kw)
    far = a.distance_cc > 1
    lengths(a.distance_cc, b.distance_cc, "distance", 2e-2, 1e-4)
    # where both searches found the same point
    at = far & (np.linalg.norm(nev(a.off) - nev(b.off) * FT, axis=1) < 0.5)
    close(b.sf[at], a.sf[at], 2e-2, 1e-2, what="separation factor")
    lengths(a.masd[at], b.masd[at], "minimum allowable distance", 0.1, 1e-2)
    ma = we.mesh.WellMesh(ra, n_verts=c["n_verts"], sigma=c["sigma"], Sm=c["Sm"],
                          sigma_pa=c["sigma_pa"], method=c["method"])
    mb = we.mesh.WellMesh(rb, n_verts=c["n_verts"], sigma=c["sigma"],
                          Sm=c["Sm"] / FT, sigma_pa=c["sigma_pa"] / FT,
                          method=c["method"])
    for k in range(len(ra.md)):
        # the same rings, whichever vertex comes first
        x, y = ma.vertices[k], mb.vertices[k] * FT
        d = np.linalg.norm(x[:, None] - y[None], axis=2)
        big = np.linalg.norm(x - nev(ra)[k], axis=1).max()
        check(d.min(axis=0).max() < 1e-4 * big + 1e-3,
              lambda: f"ring {k} of the mesh is {d.min(axis=0).max()} off")
    return Info(at.any(), [c["method"], c["kind"]])


PROP = Prop("P32", [
    Facet("well", case_well(), run_well, 500,
          rule="random well, header and error model, stated in metres and feet; "
               "non-trivial: the well bends"),
    Facet("ops", case_ops(), run_ops, 150,
          rule="depths, steps, projections and targets stated in both units; "
               "non-trivial: the well bends"),
    Facet("clear", case_clear(), run_clear, 250,
          rule="pairs of wells with covariances, radii and margins in both units; "
               "non-trivial: a station apart from the offset"),
], ["steps don't fall within a millimetre of a station"])
