"""The public calls of the package on one generated case, with the documented default
of every argument that can be left out. Each entry is called as fn(c, f, g, **kw): f is
applied to every array and g to every number given to the package."""
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from . import gens
from .boot import we
from .mk import make_header
from welleng import connector, mesh, utils
from welleng.architecture import BHA, String, WellBore
from welleng.exchange import wbp
from welleng.fluid import Fluid
from welleng.target import Target
from welleng.torque_drag import HookLoad, TorqueDrag, buoyancy_factor

survey = we.survey
ENTRIES = {}


def entry(name=None, unit_=None, **defaults):
    def deco(fn):
        ENTRIES[name or fn.__name__] = (fn, defaults, unit_)
        return fn
    return deco


# --------------------------------------------------------------------- the case
def whole(lo, hi):
    return st.integers(lo, hi).map(float)


@st.composite
def stations(draw, n=(3, 6)):
    k = draw(st.integers(*n))
    md, inc, azi = [draw(st.sampled_from([0.0, 0.0, 100.0, 750.0]))], [], []
    for i in range(k):
        if i:
            md.append(md[-1] + draw(whole(20, 80)))
        inc.append(min(max((inc[-1] if i else 0) + draw(whole(-12, 20)), 0.0), 80.0))
        azi.append(draw(whole(0, 359)) if i == 0 else (azi[-1] + draw(whole(-25, 25)))
                   % 360)
    return {"md": md, "inc": inc, "azi": azi,
            "start": draw(st.sampled_from([[0.0, 0.0, 0.0], [12.0, -7.0, 3.0]])),
            "cov": [[draw(whole(1, 9)), draw(whole(1, 9)), draw(whole(1, 9))]
                    for _ in range(k)]}


@st.composite
def cases(draw):
    a, b = draw(stations()), draw(stations())
    b["start"] = [draw(whole(20, 60)), draw(whole(-60, -20)), draw(whole(0, 9))]
    return {"a": a, "b": b, "unit": draw(st.sampled_from(["meters", "feet"])),
            "ref": draw(st.sampled_from(["grid", "true", "magnetic"])),
            "decl": draw(whole(-9, 9)), "conv": draw(whole(-3, 3)),
            "p": [[draw(whole(50, 400)) * draw(st.sampled_from([1, -1])) for _ in "ne"]
                  + [draw(whole(400, 900))] for _ in range(3)],
            "inc": draw(whole(5, 70)), "azi": draw(whole(0, 359)),
            "k": draw(whole(1, 6)), "at": draw(st.integers(0, 99)),
            "deg": draw(whole(-170, 170))}


def header(c, **kw):
    return make_header(dict(azi_reference=c["ref"], declination=c["decl"],
                            convergence=c["conv"], depth_unit=c["unit"],
                            surface_unit=c["unit"], latitude=55.0), **kw)


def make(c, f, w="a", cov=False, **kw):
    d = c[w]
    if cov:
        kw["cov_nev"] = f([np.diag(v).tolist() for v in d["cov"]])
    kw.setdefault("start_nev", f(d["start"]))
    kw.setdefault("unit", c["unit"])
    kw.setdefault("header", header(c))
    return survey.Survey(md=f(d["md"]), inc=f(d["inc"]), azi=f(d["azi"]), **kw)


# ---------------------------------------------------------------------- surveys
@entry(nev=True, start_xyz=[0.0, 0.0, 0.0], start_nev=[0.0, 0.0, 0.0], deg=True,
       unit="meters", radius=None, cov_nev=None, error_model=None, start_cov_nev=None,
       n=None, e=None, tvd=None, x=None, y=None, z=None, vec=None)
def Survey(c, f, g, **kw):
    d = c["a"]
    return survey.Survey(f(d["md"]), f(d["inc"]), f(d["azi"]),
                         header=header(dict(c, unit="meters")), **kw)


@entry("SurveyHeader", G=9.80665, earth_rate=0.26251614, convergence=0,
       azi_reference="true", vertical_inc_limit=0.0001, deg=True, depth_unit="meters",
       surface_unit="meters", vertical_section_azimuth=0, grid_scale_factor=1.0)
def header_(c, f, g, **kw):
    d = c["a"]
    h = survey.SurveyHeader(b_total=g(50000.0), dip=g(70.0), declination=g(c["decl"]),
                            latitude=g(55.0), longitude=g(3.0), survey_date="2024-01-01",
                            **kw)
    s = survey.Survey(f(d["md"]), f(d["inc"]), f(d["azi"]), header=h,
                      start_nev=f(d["start"]), error_model="ISCWSA MWD Rev5.11")
    return [h, s]


@entry("ErrorModel", error_model="ISCWSA MWD Rev5.11")
def error_model(c, f, g, **kw):
    e = we.error.ErrorModel(make(c, f), **kw)
    return {k: v.cov_NEV for k, v in e.errors.errors.items()}


@entry("Survey with covariances and radii")
def given(c, f, g):
    n = len(c["a"]["md"])
    s = make(c, f, cov=True, radius=f([1.0 + i for i in range(n)]))
    return [s, make(c, f, radius=g(2.0)),
            make(c, f, start_cov_nev=f(np.diag(c["a"]["cov"][0]).tolist()),
                 error_model="ISCWSA MWD Rev5.11")]


@entry("get_error", return_error=False)
def get_error(c, f, g, **kw):
    s = make(c, f)
    r = s.get_error("ISCWSA MWD Rev4", **kw)
    return [s, type(r).__name__]


@entry(step=30, dls=1e-8)
def interpolate_survey(c, f, g, **kw):
    return make(c, f, cov=True).interpolate_survey(**kw)


@entry("interpolate_survey (function)", step=30, dls=1e-8)
def interpolate_survey_function(c, f, g, **kw):
    return survey.interpolate_survey(make(c, f, cov=True), **kw)


@entry(step=10, start=None, stop=None)
def interpolate_survey_tvd(c, f, g, **kw):
    return make(c, f).interpolate_survey_tvd(**kw)


@entry("interpolate_survey_tvd (function)", step=10, start=None, stop=None)
def interpolate_survey_tvd_function(c, f, g, **kw):
    return survey.interpolate_survey_tvd(make(c, f), **kw)


@entry("stations of a survey")
def at_depths(c, f, g):
    s = make(c, f, cov=True)
    md = c["a"]["md"][0] + round(c["at"] / 100 * (c["a"]["md"][-1] - c["a"]["md"][0]))
    out = [s.interpolate_md(g(md)), survey.get_node(s, 1), s.get_nev_arr(),
           survey.slice_survey(s, 0, 2), survey.get_sections(s),
           survey.survey_to_df(s)]
    v = np.floor(s.tvd.min() + c["at"] / 100 * (s.tvd.max() - s.tvd.min()))
    if s.tvd.min() < v:
        out.append(s.interpolate_tvd(g(v)))
    return out


@entry(interpolated=False)
def get_node(c, f, g, **kw):
    n = survey.get_node(make(c, f), 1, **kw)
    return [n, bool(n.interpolated)]


def ahead(c, s):
    """A target some way beyond the end."""
    v = s.vec_nev[-1]
    return np.round(np.array([s.n[-1], s.e[-1], s.tvd[-1]]) + 400 * v
                    + [20.0, -30.0, 60.0])


@entry(dls_design=3.0, delta_md=None, node_target=None, step=30)
def project_to_target(c, f, g, **kw):
    s = make(c, f)
    if "node_target" not in kw:
        kw["node_target"] = we.node.Node(pos=f(ahead(c, s)), unit=c["unit"])
    elif kw["node_target"] is None:
        kw["node_target"] = we.node.Node(pos=f(ahead(c, s)), unit=c["unit"])
    return s.project_to_target(**kw)


@entry(md=0.0, unit="meters")
def project_ahead(c, f, g, **kw):
    return survey.project_ahead(f(c["p"][0]), f([0.0, 0.0, 1.0]), g(60.0), g(c["k"]),
                                g(40.0), **kw)


@entry(deg=True)
def get_vertical_section(c, f, g, **kw):
    s = make(c, f)
    return s.get_vertical_section(g(1.0), **kw)


@entry(deg=True)
def set_vertical_section(c, f, g, **kw):
    s = make(c, f)
    s.set_vertical_section(g(1.0), **kw)
    return [s, s.header]


@entry(rtol=0.01, dls_tol=None, data=False)
def tortuosity_index(c, f, g, **kw):
    return make(c, f).tortuosity_index(**kw)


@entry("tortuosity_index (function)", rtol=0.01, dls_tol=None, data=False)
def tortuosity_index_function(c, f, g, **kw):
    return survey.tortuosity_index(make(c, f), **kw)


@entry(rtol=1.0, dls_tol=1e-3, step=1.0, dls_noise=1.0, data=False)
def modified_tortuosity_index(c, f, g, **kw):
    return make(c, f).modified_tortuosity_index(**kw)


@entry("modified_tortuosity_index (function)", rtol=1.0, dls_tol=1e-3, data=False)
def modified_tortuosity_index_function(c, f, g, **kw):
    return survey.modified_tortuosity_index(make(c, f), **kw)


@entry(dls_noise=1.0)
def maximum_curvature(c, f, g, **kw):
    return make(c, f).maximum_curvature(**kw)


@entry("directional_difficulty_index", data=False)
def ddi(c, f, g, **kw):
    kw.pop("data", None)
    return make(c, f).directional_difficulty_index(**kw)


@entry(rtol=1e-1, atol=1e-1, dls_cont=False)
def get_sections(c, f, g, **kw):
    return survey.get_sections(make(c, f), **kw)


@entry(tolerance=0.1, dls_cont=False, decimals=3)
def export_csv(c, f, g, **kw):
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "a.csv")
        survey.export_csv(make(c, f), name, **kw)
        with open(name) as file:
            return file.read().splitlines()


@entry("splice_surveys")
def splice(c, f, g):
    s = make(c, f, cov=True)
    return survey.splice_surveys([survey.slice_survey(s, 0, 2),
                                  survey.slice_survey(s, 1, None)])


# ------------------------------------------------------------------- connections
def ends(c, f, g):
    return dict(pos2=f(c["p"][0]), inc2=g(c["inc"]), azi2=g(c["azi"]))


@entry(dls_design=3.0, pos1=[0.0, 0.0, 0.0], degrees=True, unit="meters", md1=0,
       min_error=1e-5, delta_dls=0.1, min_tangent=0.0, max_iterations=1000,
       force_min_curve=False, closest_approach=False, node1=None, node2=None, vec2=None,
       md2=None, dls_design2=None)
def Connector(c, f, g, **kw):
    return connector.Connector(vec1=f([0.0, 0.0, 1.0]), **ends(c, f, g), **kw)


@entry("Connector to a point", dls_design=3.0, pos1=[0.0, 0.0, 0.0], unit="meters",
       md1=0, degrees=True, min_error=1e-5)
def connector_point(c, f, g, **kw):
    return connector.Connector(vec1=f([0.0, 0.0, 1.0]), pos2=f(c["p"][0]), **kw)


@entry("Connector to a direction", dls_design=3.0, pos1=[0.0, 0.0, 0.0], md1=0,
       unit="meters")
def connector_direction(c, f, g, **kw):
    kw.setdefault("degrees", True)
    return connector.Connector(inc1=g(2.0), azi1=g(30.0), inc2=g(c["inc"]),
                               azi2=g(c["azi"]), md2=g(1500.0), **kw)


@entry("Connector.interpolate", step=30)
def connector_interpolate(c, f, g, **kw):
    return [dict(x) for x in connector.Connector(
        pos1=[0.0, 0.0, 0.0], vec1=[0.0, 0.0, 1.0], **ends(c, f, g)).interpolate(**kw)]


@entry(step=30)
def interpolate_well(c, f, g, **kw):
    x = connector.Connector(pos1=[0.0, 0.0, 0.0], vec1=[0.0, 0.0, 1.0], **ends(c, f, g))
    return [[dict(z) for z in y] if isinstance(y, list) else dict(y)
            for y in connector.interpolate_well([x], **kw)]


@entry(vec_start=[0.0, 0.0, 1.0], dls_design=3.0, nev=True, md_start=0.0)
def connect_points(c, f, g, **kw):
    return connector.connect_points(f([[0.0, 0.0, 0.0], *sorted(
        c["p"], key=lambda v: v[2])]), **kw)


@entry(tolerance=0.2, dls_design=1.0, step=30.0)
def survey_to_plan(c, f, g, **kw):
    return connector.survey_to_plan(make(c, f), **kw)


def a_node(c, f, g, **kw):
    return we.node.Node(pos=f(c["p"][0]), inc=g(c["inc"]), azi=g(c["azi"]),
                        md=g(1200.0), **kw)


@entry(delta_md=None, node=None, tol=1e-5)
def drop_off(c, f, g, **kw):
    if kw.get("node", 0) is None or "node" not in kw:
        kw["node"] = None
    return connector.drop_off(g(c["inc"]), g(c["k"]), **kw)


@entry("drop_off from a node", delta_md=None)
def drop_off_node(c, f, g, **kw):
    return connector.drop_off(g(10.0), g(c["k"]), node=a_node(c, f, g), **kw)


@entry("extend_to_tvd", delta_md=None, target_inc=None, dls=None)
def extend(c, f, g, **kw):
    return connector.extend_to_tvd(g(c["p"][0][2] + 200.0), node=a_node(c, f, g), **kw)


@entry(start_nev=[0.0, 0.0, 0.0], start_xyz=[0.0, 0.0, 0.0], radius=10, deg=False,
       depth_unit="meters", surface_unit="meters", step=None, survey_header=None,
       start_cov_nev=None, error_model=None)
def from_connections(c, f, g, **kw):
    x = connector.Connector(pos1=[0.0, 0.0, 0.0], vec1=[0.0, 0.0, 1.0], **ends(c, f, g))
    return survey.from_connections([x], **kw)


# ------------------------------------------------------------------------- nodes
@entry(unit="meters", degrees=True, nev=True, cov_nev=None, md=None, vec=None)
def Node(c, f, g, **kw):
    return we.node.Node(pos=f(c["p"][0]), inc=g(1.0), azi=g(2.0), **kw)


@entry("get_node_params")
def node_params(c, f, g):
    n = we.node.Node(pos=f(c["p"][0]), vec=f([0.0, 1.0, 0.0]), md=g(10.0))
    m = we.node.Node(pos=f(c["p"][0]), vec=f([0.0, 1.0, 0.0]), md=g(10.0), nev=False)
    return [n, m, we.node.get_node_params(n)]


# --------------------------------------------------------------------- clearance
def clear_of(c, f, g):
    radii = [f([1.0 + i % 3 for i in range(len(c[w]["md"]))]) for w in "ab"]
    return (make(c, f, cov=True, radius=radii[0]),
            make(c, f, "b", cov=True, radius=radii[1]))


CLEAR = ("sf distance_cc hoz_bearing_deg toolface_bearing_deg trav_cyl_azi_deg ref_pcr "
         "off_pcr calc_hole masd eou_boundary wellbore_separation idx").split()


@entry(k=3.5, sigma_pa=0.5, Sm=0.3, kop_depth=-np.inf, minimize_sf=None)
def IscwsaClearance(c, f, g, **kw):
    x = we.clearance.IscwsaClearance(*clear_of(c, f, g), **kw)
    return {k: getattr(x, k) for k in CLEAR}


@entry(n_verts=12, sigma=2.445, return_data=True, return_meshes=False, sigma_pa=0.5,
       Sm=0.3, kop_depth=-np.inf)
def MeshClearance(c, f, g, **kw):
    x = we.clearance.MeshClearance(*clear_of(c, f, g), **kw)
    return {k: getattr(x, k, None) for k in
            "distance_cc distance sf off_index ref_index collision".split()
            if k != "collision"}


# ---------------------------------------------------------------------- meshes
@entry(n_verts=12, sigma=3.0, sigma_pa=0.5, Sm=0, method="ellipse")
def WellMesh(c, f, g, **kw):
    return mesh.WellMesh(make(c, f, cov=True), **kw)


@entry(n_verts=12, sigma=3.0, sigma_pa=0.5, Sm=0, start=0, stop=-1, step=1,
       method="ellipse")
def sliced_mesh(c, f, g, **kw):
    return mesh.sliced_mesh(make(c, f, cov=True), **kw)


@entry(scale=100)
def transform_trimesh_scene(c, f, g, **kw):
    r = mesh.transform_trimesh_scene(mesh.make_trimesh_scene(
        {"a": mesh.WellMesh(make(c, f, cov=True))}), redux=1, **kw)
    return dict(r.geometry.items())


# ------------------------------------------------------------------- architecture
def drilled(c, f, g):
    """A surveyed well from surface in meters, its hole and the pipe in it."""
    d = dict(c["a"], md=[m - c["a"]["md"][0] for m in c["a"]["md"]])
    c = dict(c, a=d, unit="meters")
    end = d["md"][-1]
    w = WellBore("w", g(0.0), g(end), method="top_down")
    w.add_section(bottom=g(end), id=0.4, coeff_friction_sliding=0.25)
    b = BHA("b", g(0.0), g(end), method="top_down")
    b.add_section(bottom=g(d["md"][1]), od=0.13, id=0.1, unit_weight=g(400.0),
                  density=7.85)
    b.add_section(bottom=g(end), od=0.2, id=0.07, unit_weight=g(1400.0), density=7.85)
    return make(c, f), w, b


@entry(method="bottom_up")
def String_(c, f, g, **kw):
    s = String("s", g(0.0), g(1000.0), **kw)
    if kw.get("method", "bottom_up") == "bottom_up":
        s.add_section(length=g(100.0), od=0.2)
    s.add_section(od=0.1)
    return s.sections


def forces(t):
    return {k: getattr(t, k) for k in (
        "tension", "torque", "weight_buoyed")}


@entry("TorqueDrag", wob=None, tob=None, overpull=None)
def torque_drag(c, f, g, **kw):
    return forces(TorqueDrag(*drilled(c, f, g), fluid_density=g(1.0), **kw))


@entry("TorqueDrag with loads")
def torque_drag_loads(c, f, g):
    return forces(TorqueDrag(*drilled(c, f, g), fluid_density=g(1.0), wob=g(20000.0),
                             tob=g(500.0), overpull=g(9000.0)))


@entry("HookLoad", step=30, ff_range=(0.1, 0.4, 0.1))
def hook(c, f, g, **kw):
    h = HookLoad(*drilled(c, f, g), fluid_density=g(1.0), **kw)
    h.get_data()
    return {str(k): v for k, v in h.data.items()} if isinstance(h.data, dict) else h.data


@entry(string_density=7.85)
def buoyancy(c, f, g, **kw):
    return buoyancy_factor(g(2.0), **kw)


# ------------------------------------------------------------------------- fluid
@entry("Fluid", reference_temp=32.0, reference_pressure=0.0, base_fluid_water_ratio=0.2,
       weighting_material="Barite")
def fluid(c, f, g, **kw):
    return Fluid(g(12.0), **kw).get_density_profile(f([1000.0, 3000.0]),
                                                    f([90.0, 100.0 + c["k"]]))


@entry("get_density_profile", pressure_applied=0.0, density_bounds=(6.0, 25.0))
def profile(c, f, g, **kw):
    x = Fluid(g(12.0), reference_temp=g(50.0))
    return [x.get_density_profile(f([1000.0, 3000.0]), f([90.0, 100.0 + c["k"]]), **kw),
            x.get_density_profile(g(1000.0), g(90.0), **kw)]


# ---------------------------------------------------------------------- targets
@entry(locked=0, orientation=0, dip=0, color="green", alpha=0.5)
def Target_(c, f, g, **kw):
    t = Target("t", g(1.0), g(2.0), g(3.0), "circle", radius=g(c["k"]), **kw)
    return {k: v for k, v in vars(t).items() if k not in ("geometry",)} | {
        "geometry": dict(t.geometry)}


# ------------------------------------------------------------------------- utils
@entry(nev=False, r=1, deg=True)
def get_vec(c, f, g, **kw):
    d = c["a"]
    return utils.get_vec(f(d["inc"]), f(d["azi"]), **kw)


@entry(start_xyz=[0.0, 0.0, 0.0], start_nev=[0.0, 0.0, 0.0])
def get_nev(c, f, g, **kw):
    return utils.get_nev(f(c["p"]), **kw)


@entry(start_xyz=[0.0, 0.0, 0.0], start_nev=[0.0, 0.0, 0.0])
def get_xyz(c, f, g, **kw):
    return utils.get_xyz(f(c["p"]), **kw)


@entry(nev=False)
def get_angles(c, f, g, **kw):
    v = np.array([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0]])
    return utils.get_angles(f(v.tolist()), **kw)


def rad(c):
    """(depth, inclination, azimuth) of stations in whole radians."""
    return np.column_stack([c["a"]["md"], np.arange(len(c["a"]["md"])) % 3,
                            np.arange(len(c["a"]["md"])) % 5]).tolist()


@entry(cov=True)
def NEV_to_HLA(c, f, g, **kw):
    m = [np.diag(v).tolist() for v in c["a"]["cov"]]
    return utils.NEV_to_HLA(np.array(f(rad(c))), np.array(f(m)), **kw) if kw.get("cov", True) else \
        utils.NEV_to_HLA(np.array(f(rad(c))), np.array(f(c["a"]["cov"])), **kw)


@entry(cov=True)
def HLA_to_NEV(c, f, g, **kw):
    m = [np.diag(v).tolist() for v in c["a"]["cov"]]
    return utils.HLA_to_NEV(np.array(f(rad(c))), np.array(f(m)), **kw) if kw.get("cov", True) else \
        utils.HLA_to_NEV(np.array(f(rad(c))), np.array(f(c["a"]["cov"])), **kw)


@entry(long=False)
def get_sigmas(c, f, g, **kw):
    return list(utils.get_sigmas(np.array(f([np.diag(v).tolist()
                                           for v in c["a"]["cov"]])), **kw))


@entry(long=False)
def make_cov(c, f, g, **kw):
    a, b, d = np.array(c["a"]["cov"]).T
    return utils.make_cov(*(np.array(f(v)) for v in (a, b, d)), **kw)


@entry(target=False)
def get_arc(c, f, g, **kw):
    return list(utils.get_arc(g(1.0), g(100.0), g(2.0), vec=f([0.0, 0.0, 1.0]), **kw))


@entry(data=False)
def errors_from_cov(c, f, g, **kw):
    return utils.errors_from_cov(np.array(f([np.diag(v).tolist()
                                             for v in c["a"]["cov"]])), **kw)


@entry(ndigits=None)
def decimal2dms(c, f, g, **kw):
    return [utils.decimal2dms(g(c["deg"]), **kw),
            utils.dms2decimal(utils.decimal2dms(g(c["deg"])))]


@entry(symbols=True, return_data=False)
def pprint_dms(c, f, g, **kw):
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = utils.pprint_dms(utils.decimal2dms((g(c["deg"]), "N")), **kw)
    return [out.getvalue(), r]


@entry(radius=1.0)
def make_clc_path(c, f, g, **kw):
    return list(utils.make_clc_path(g(1.0), g(2.0), g(300.0), g(3.0), g(1.0),
                                    f(c["p"][0]), f([0.0, 0.0, 1.0]), **kw))


@entry("radii and angles")
def small(c, f, g):
    s = make(c, f)
    return [utils.radius_from_dls(g(c["k"])), utils.dls_from_radius(g(500.0)),
            utils.get_unit_vec(np.array(f(c["p"]))),
            utils.get_toolface(*(np.array(f(v)) for v in (
                c["p"][0], [0.0, 1.0, 0.0], c["p"][1]))),
            utils.linear_convert(g(5.0), 2.0),
            s.dls]


# ------------------------------------------------------------------------ files
@entry(plan_method="curve_only", dls=3.0, extension=0)
def WellPlan(c, f, g, **kw):
    p = wbp.WellPlan(survey=make(c, f), plan_name="p", location_type="unknown",
                     depth_unit=c["unit"], surface_unit=c["unit"], **kw)
    return {k: v for k, v in vars(p).items() if isinstance(v, (str, int, float, list))}


def plain(v):
    return np.array(v, dtype=float)


def shut(fn, *a, **kw):
    """Run something quietly."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn(*a, **kw)
