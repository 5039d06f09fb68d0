"""P09 results depend on the inputs, not on what was done before."""
import math
import os
import pickle
import re
import shutil
import struct
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, HarnessError, Info, Prop, check
from welleng.architecture import BHA, WellBore
from welleng.errors.interpreter import evaluate_formula
from welleng.exchange import wbp
from welleng.fluid import Fluid
from welleng.torque_drag import HookLoad, TorqueDrag

MODELS = ["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "MWD+SRGM", "GYRO-NS"]

# ------------------------------------------------------------- fingerprints

SURVEY = ("md inc_deg inc_rad azi_grid_deg azi_grid_rad azi_true_deg azi_true_rad "
          "azi_mag_deg azi_mag_rad n e tvd x y z pos_nev pos_xyz vec_nev vec_xyz "
          "dls toolface build_rate turn_rate radius cov_nev cov_hla unit start_nev "
          "start_xyz interpolated survey_deg survey_rad dogleg delta_md").split()
CONN = ("pos_start pos_target vec_start vec_target pos1 vec1 pos2 vec2 pos3 vec3 md1 "
        "md2 md3 md_target inc1 azi1 inc2 azi2 inc3 azi3 inc_target azi_target dogleg "
        "dogleg2 dist_curve dist_curve2 tangent_length radius_design radius_design2 "
        "radius_critical radius_critical2 method dls_design dls_design2 unit").split()
NODE = ("pos_nev pos_xyz vec_nev vec_xyz inc_rad inc_deg azi_rad azi_deg md unit "
        "cov_nev").split()
MESH = ("vertices faces n_verts sigma sigma_pa Sm method").split()
TURN = ("md inc azi build_rate turn_rate dls toolface method target tie_on location "
        "x y z").split()


def attrs(o, names):
    return {k: fp(getattr(o, k)) for k in names if hasattr(o, k)}


def fp(o):
    """A comparable picture of the public content of a value."""
    if isinstance(o, str):      # the time of writing isn't content
        return re.sub(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d(:\d\d(\.\d+)?)?", "<time>", o)
    if o is None or isinstance(o, (bytes, bool)):
        return o
    if isinstance(o, (int, float, np.number, np.bool_)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist() if o.dtype.kind not in "fiub" else np.array(o, float)
    if isinstance(o, pd.DataFrame):
        return {str(k): np.array(o[k], float) for k in o.columns}
    if isinstance(o, dict):
        return {str(k): fp(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [fp(v) for v in o]
    if isinstance(o, we.survey.Survey):
        d = attrs(o, SURVEY)
        d["vertical_section"] = fp(getattr(o, "vertical_section", None))
        return d
    if isinstance(o, we.survey.SurveyHeader):
        return {k: fp(v) for k, v in vars(o).items() if not k.startswith("_")}
    if isinstance(o, we.connector.Connector):
        return attrs(o, CONN)
    if isinstance(o, we.node.Node):
        return attrs(o, NODE)
    if isinstance(o, we.mesh.WellMesh):
        return attrs(o, MESH)
    if isinstance(o, we.survey.TurnPoint):
        return attrs(o, TURN)
    if hasattr(o, "vertices") and hasattr(o, "faces"):
        return {"v": np.array(o.vertices, float), "f": np.array(o.faces, float)}
    return type(o).__name__


def differ(a, b, where=""):
    """The first difference between two pictures, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return f"{where} (shape {a.shape}, {b.shape})"
        if a.size and not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True):
            i = int(np.argmax(np.where(np.isclose(a, b, rtol=1e-9, atol=1e-9,
                                                  equal_nan=True), 0, 1)))
            return f"{where}[{i}]: {a.flat[i]!r}, {b.flat[i]!r}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{where}: {sorted(set(a) ^ set(b))}"
        for k in a:
            d = differ(a[k], b[k], f"{where}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{where} (length {len(a)}, {len(b)})"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a)):
            return None
        return f"{where}: {a!r}, {b!r}"
    return None if a == b else f"{where}: {a!r:.80}, {b!r:.80}"


# -------------------------------------------------------------------- world

class World:
    """Everything the operations of a case work on."""

    def __init__(self, c):
        self.c = c
        self.inputs = {}
        for w in "AB":
            k = c[w]
            h = {x: v for x, v in k["h"].items()}
            hd = we.survey.SurveyHeader(name=w, b_total=h.get("b_total", 50000.0),
                                        dip=h.get("dip", 70.0),
                                        declination=h["declination"],
                                        convergence=h["convergence"],
                                        azi_reference=h["azi_reference"],
                                        depth_unit=h["depth_unit"],
                                        survey_date="2020-01-01",
                                        vertical_section_azimuth=k["vs"])
            box = np.array if k["arrays"] else list
            i = {"md": box(k["md"]), "inc": box(k["inc"]), "azi": box(k["azi"]),
                 "start": list(k["start"]),
                 "radius": box(k["radius"])}
            cov = None
            if k["cov"] is not None:
                m = np.array(k["cov"]).reshape(3, 3)
                cov = np.array([m @ m.T * (1 + j) for j in range(len(k["md"]))])
                i["cov"] = cov
            self.inputs[w] = i
            s = self.make(w, hd)
            setattr(self, w, s)
        self.nodes = []
        for n in c["nodes"]:
            i = {"pos": np.array(n["pos"]), "vec": self.tangent(n["inc"], n["azi"])}
            self.inputs["node"] = i
            self.nodes.append(we.node.Node(pos=i["pos"], vec=i["vec"], md=n["md"],
                                           unit="meters"))
        self.points = np.array([n["pos"] for n in c["nodes"]]
                               + [[p + 500 for p in c["nodes"][-1]["pos"]]])
        n = c["nodes"][0]
        self.loose = we.node.Node(pos=list(n["pos"]), inc=n["inc"], azi=n["azi"])
        self.sections = None
        self.keep = []
        self.rigs = {}
        for w in "AB":
            md = float(getattr(self, w).md[-1])
            hole = WellBore("hole", 0.0, md, method="top_down")
            pipe = BHA("pipe", 0.0, md, method="top_down")
            for k, d in enumerate((0.4 * md, md)):
                hole.add_section(bottom=d, id=0.3, coeff_friction_sliding=0.2 + 0.1 * k)
                pipe.add_section(bottom=d, od=0.12 + 0.04 * k, id=0.1,
                                 unit_weight=300.0 + 800 * k, density=7.85)
            self.rigs[w] = hole, pipe

    def make(self, w, hd):
        k, i = self.c[w], self.inputs[w]
        kw = {}
        if "cov" in i:
            kw["cov_nev"] = i["cov"]
        elif k["model"]:
            kw["error_model"] = k["model"]
        return we.survey.Survey(md=i["md"], inc=i["inc"], azi=i["azi"],
                                start_nev=i["start"], radius=i["radius"], header=hd,
                                unit=hd.depth_unit, **kw)

    @staticmethod
    def tangent(inc, azi):
        i, a = math.radians(inc), math.radians(azi)
        return np.array([math.sin(i) * math.cos(a), math.sin(i) * math.sin(a),
                         math.cos(i)])

    def path(self):
        """The connections all the operations on sections share."""
        if self.sections is None:
            n0, n1 = self.c["nodes"][:2]
            a = we.connector.Connector(
                pos1=list(n0["pos"]), vec1=self.tangent(n0["inc"], n0["azi"]),
                md1=n0["md"] or 0.0, pos2=list(n1["pos"]), dls_design=2.0)
            b = we.connector.Connector(node1=a.node_end, md2=a.node_end.md + 120.0)
            self.sections = [a, b]
        return self.sections

    def snapshot(self):
        d = {"inputs": fp(self.inputs), "nodes": fp([*self.nodes, self.loose]),
             "points": fp(self.points)}
        for w in "AB":
            d[w] = fp(getattr(self, w))
            d["header " + w] = fp(getattr(self, w).header)
            d["errors " + w] = terms(getattr(self, w))
            # the buoyancy of a string's sections is added to them by design
            d["rig " + w] = [{str(k): {x: fp(y) for x, y in v.items()
                                       if x != "buoyancy_factor"}
                              for k, v in r.sections.items()} for r in self.rigs[w]]
        if self.sections is not None:
            d["sections"] = fp(self.sections)
        return d


def terms(s):
    """The terms of the survey's own error model."""
    e = getattr(s, "err", None)
    return None if e is None else {
        k: attrs(v, "e_DIA e_NEV e_NEV_star sigma_e_NEV cov_NEV propagation".split())
        for k, v in e.errors.errors.items()}


def at(s, f):
    return float(s.md[0] + f * (s.md[-1] - s.md[0]))


def kept(w, o):
    """A result of a well's own class is watched until the end."""
    if len(w.keep) < 6:
        w.keep.append((o, fp(o)))
    return fp(o)


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def construct(w, s, p):
    return kept(w, w.make(p["w"], s.header))


@op
def interpolate_md(w, s, p):
    return kept(w, s.interpolate_md(at(s, p["f"])))


@op
def interpolate_tvd(w, s, p):
    t = s.tvd[0] + p["f"] * (s.tvd[-1] - s.tvd[0])
    return kept(w, s.interpolate_tvd(float(t)))


@op
def interpolate_survey(w, s, p):
    return kept(w, s.interpolate_survey(step=p["step"]))


@op
def interpolate_survey_tvd(w, s, p):
    return kept(w, s.interpolate_survey_tvd(step=p["step"]))


@op
def slicing(w, s, p):
    k = 1 + int(p["f"] * (len(s.md) - 3))
    a = we.survey.slice_survey(s, 0, k + 1)
    b = we.survey.slice_survey(s, k)
    return [kept(w, a), kept(w, b), fp(we.survey.splice_surveys([a, b]))]


@op
def vertical_section(w, s, p):
    return fp(s.get_vertical_section(p["azi"]))


@op
def to_bit(w, s, p):
    return kept(w, s.project_to_bit(p["step"], *([] if p["b"] else
                                                 [p["dls"], math.radians(p["azi"])])))


@op
def to_target(w, s, p):
    return kept(w, s.project_to_target(w.nodes[1], dls_design=3.0,
                                       delta_md=p["step"] if p["b"] else None))


@op
def difficulty(w, s, p):
    return fp([s.directional_difficulty_index(), s.tortuosity_index(data=p["b"]),
               s.modified_tortuosity_index(data=p["b"])])


@op
def curvature(w, s, p):
    return kept(w, s.maximum_curvature())


@op
def node(w, s, p):
    return kept(w, we.survey.get_node(s, int(p["f"] * (len(s.md) - 1))))


@op
def sections(w, s, p):
    return fp(we.survey.get_sections(s, dls_cont=p["b"]))


@op
def frame(w, s, p):
    return fp(we.survey.survey_to_df(s))


@op
def csv(w, s, p):
    d = tempfile.mkdtemp(prefix="p09")
    try:
        fn = os.path.join(d, "x.csv")
        we.survey.export_csv(s, fn)
        with open(fn) as f:
            return fp(f.read())
    finally:
        shutil.rmtree(d)


@op
def plan(w, s, p):
    return kept(w, we.connector.survey_to_plan(s))


@op
def landmark(w, s, p):
    return fp(wbp.export(wbp.WellPlan(survey=s, plan_name="x", depth_unit=s.unit,
                                      surface_unit=s.unit,
                                      location_type="surface")))


@op
def mesh(w, s, p):
    return kept(w, we.mesh.WellMesh(s, n_verts=12, method=p["method"],
                                    sigma=p["sigma"]))


@op
def scene(w, s, p):
    a, b = (we.mesh.WellMesh(x, n_verts=8) for x in (w.A, w.B))
    sc = we.mesh.make_trimesh_scene({"A": a, "B": b})
    return {k: fp(g) for k, g in sc.geometry.items()}


@op
def slices(w, s, p):
    return fp(we.mesh.sliced_mesh(s, n_verts=8, step=2))


def kop(p, a):
    return {"kop_depth": at(a, p["f"])} if p["method"] == "circle" else {}


CL = ("sf distance_cc hoz_bearing off_pcr ref_pcr masd wellbore_separation "
      "eou_boundary idx off_cov_hla ref_cov_nev").split()


@op
def clearance(w, s, p):
    a, b = (w.A, w.B) if p["w"] == "A" else (w.B, w.A)
    cl = we.clearance.IscwsaClearance(a, b, k=p["sigma"], minimize_sf=p["b"],
                                      **kop(p, a))
    d = attrs(cl, CL)
    d["ref"], d["off"] = fp(cl.ref), fp(cl.off)
    return d


@op
def mesh_clearance(w, s, p):
    a, b = (w.A, w.B) if p["w"] == "A" else (w.B, w.A)
    cl = we.clearance.MeshClearance(a, b, n_verts=8, sigma=p["sigma"], **kop(p, a))
    return attrs(cl, "sf distance_cc nev off_nev collision".split())


@op
def error_model(w, s, p):
    e = we.error.ErrorModel(s, error_model=p["model"])
    return {"total": fp(e.errors.cov_NEVs),
            "parts": {k: fp(v.cov_NEV) for k, v in e.errors.errors.items()}}


@op
def connector(w, s, p):
    n = we.survey.get_node(s, int(p["f"] * (len(s.md) - 1)))
    c = we.connector.Connector(node1=n, node2=w.nodes[1], dls_design=p["dls"])
    return kept(w, c)


@op
def between_nodes(w, s, p):
    return kept(w, we.connector.Connector(node1=w.nodes[0], node2=w.nodes[1],
                                          dls_design=p["dls"]))


@op
def points(w, s, p):
    return kept(w, we.connector.connect_points(w.points, dls_design=p["dls"]))


@op
def drop(w, s, p):
    return kept(w, we.connector.drop_off(p["inc"], p["dls"], 900.0,
                                         None if p["b"] else w.loose if p["w"] == "A" else w.nodes[0]))


@op
def extend(w, s, p):
    t = (0.0 if p["b"] else w.c["nodes"][0]["pos"][2]) + 1500.0
    return kept(w, we.connector.extend_to_tvd(
        t, None if p["b"] else w.loose if p["w"] == "A" else w.nodes[0],
        **({"target_inc": p["inc"], "dls": p["dls"]} if p["f"] < 0.5 else {})))


@op
def from_sections(w, s, p):
    return kept(w, we.survey.from_connections(w.path(), step=p["step"],
                                              survey_header=s.header,
                                              depth_unit=s.unit,
                                              surface_unit=s.unit))


@op
def stations_of(w, s, p):
    return [fp(x.interpolate(p["step"])) for x in w.path()]


@op
def transforms(w, s, p):
    U = we.utils
    v = s.vec_nev
    out = [U.get_angles(v, nev=True), U.get_unit_vec(v), U.get_xyz(s.pos_nev),
           U.get_nev(s.pos_xyz),
           U.get_transform(np.column_stack([s.md, s.inc_rad, s.azi_grid_rad]))]
    if s.cov_nev is not None:
        out += [U.get_sigmas(s.cov_nev, long=True),
                U.NEV_to_HLA(np.column_stack([s.md, s.inc_rad, s.azi_grid_rad]),
                             s.cov_nev),
                U.HLA_to_NEV(np.column_stack([s.md, s.inc_rad, s.azi_grid_rad]),
                             s.cov_hla)]
    return fp(out)


def from_surface(w, p):
    """The well's own hole and pipe, if it starts at surface."""
    return getattr(w, p["w"]).md[0] == 0


@op
def drag(w, s, p):
    if not from_surface(w, p):
        return "not from surface"
    hole, pipe = w.rigs[p["w"]]
    t = TorqueDrag(s, hole, pipe, fluid_density=1.0 + p["f"], wob=1000.0, tob=100.0)
    return fp([t.tension, t.torque])


@op
def hookload(w, s, p):
    if not from_surface(w, p):
        return "not from surface"
    hole, pipe = w.rigs[p["w"]]
    h = HookLoad(s, hole, pipe, 1.0 + p["f"], step=float(s.md[-1]) / 2.5,
                 ff_range=(0.1, 0.35, 0.15))
    h.get_data()
    return fp(h.data)


@op
def part_of_string(w, s, p):
    _, pipe = w.rigs[p["w"]]
    part = pipe.depth(float(s.md[-1]) * (0.1 + 0.9 * p["f"]))
    return fp(part.sections)


@op
def fluid(w, s, p):
    f = Fluid(fluid_density=9.0 + 8 * p["f"], reference_temp=70.0 + 60 * p["f"],
              **({} if p["b"] else {"base_fluid_water_ratio": 0.3}))
    d = np.array(s.tvd[s.tvd >= 0], float)[:6]
    t = 60 + 0.02 * d
    was = d.copy(), t.copy()
    out = fp([f.get_density_profile(d, t), f.get_density_profile(5000.0, 200.0)])
    check(np.array_equal(d, was[0]) and np.array_equal(t, was[1]),
          "the density profile changed the depths or temperatures it was given")
    return out


@op
def diagnostic(w, s, p):
    if getattr(s, "err", None) is None:
        return "no model"
    return fp(we.error.make_diagnostic_data(s))


@op
def circles(w, s, p):
    return fp(we.survey.get_circle_radius(s))


@op
def place(w, s, p):
    sp = we.survey.SurveyParameters("EPSG:23031" if p["b"] else "EPSG:32632")
    return [fp(sp.get_factors_from_x_y(588319.02 + 1000 * p["f"], 5770571.03,
                                       date="2020-01-01")),
            fp(sp.transform_coordinates([(588319.02, 5770571.03 + 1000 * p["f"])],
                                        "EPSG:23032"))]


@op
def minutes(w, s, p):
    U = we.utils
    d = U.decimal2dms((p["azi"], "N"), ndigits=6)
    return fp([list(d), U.dms2decimal(d, ndigits=6).tolist(),
               U.pprint_dms(d, return_data=True),
               U.dms_from_string(U.pprint_dms(d, symbols=p["b"], return_data=True))])


@op
def formula(w, s, p):
    b = {"Inc": s.inc_rad, "AzM": s.azi_mag_rad, "MD": s.md, "Dip": s.header.dip}
    f = ["Sin(Inc)^2 * Cos(AzM)", "MD * Sin(Inc) + Tan(Dip)", "-MD^2 / (1 + Inc)"]
    return fp(evaluate_formula(f[int(p["f"] * 2.99)], b))


@op
def loaded(w, s, p):
    d = tempfile.mkdtemp(prefix="p09")
    try:
        fn = os.path.join(d, "x.wbp")
        wbp.export(wbp.WellPlan(survey=s, plan_name="x", depth_unit=s.unit,
                                surface_unit=s.unit, location_type="surface"),
                   filename=fn)
        plans = wbp.load(fn)
        got = [[attrs(x, TURN) for x in q.steps] for q in plans]
        # loading again gives the same, whatever became of what was loaded
        for q in plans:
            q.steps.clear()
        x = differ(got, [[attrs(x, TURN) for x in q.steps] for q in wbp.load(fn)])
        check(x is None, lambda: f"the plan loaded again isn't the same: {x}")
        return got
    finally:
        shutil.rmtree(d)


ELSEWHERE = ["fluid", "diagnostic", "circles", "place", "minutes", "formula", "loaded"]
RARE = {"hookload", "mesh_clearance", "slices", "scene", "csv"}
SLOW = {"clearance"}


def set_azimuth(w, s, p):
    s.set_vertical_section(p["azi"])


def set_model(w, s, p):
    s.get_error(p["model"])


SETTERS = {"set_azimuth": set_azimuth, "set_model": set_model}


def attempt(w, o):
    f = OPS[o["op"]]
    try:
        return f(w, getattr(w, o["w"]), o)
    except Exception as e:      # judged only against itself
        return {"raised": type(e).__name__}


def after(c, k):
    """The setters that matter before operation k: the last of each."""
    last = {}
    for o in c["ops"][:k]:
        if o["op"] in SETTERS:
            key = (o["op"], o["w"])
            last.pop(key, None)
            last[key] = o
    return list(last.values())


def fresh(c, k):
    w = World(c)
    for o in after(c, k):
        SETTERS[o["op"]](w, getattr(w, o["w"]), o)
    return attempt(w, c["ops"][k])


# ------------------------------------------------------ a process that did nothing

class Zygote:
    """A process forked before any case ran; every question is answered by a
    child of it that has done nothing else."""

    def __init__(self):
        qr, self.q = os.pipe()
        self.a, aw = os.pipe()
        self.owner = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.q)
            os.close(self.a)
            try:
                self.serve(qr, aw)
            finally:
                os._exit(0)
        os.close(qr)
        os.close(aw)

    @staticmethod
    def read(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b

    @classmethod
    def get(cls, fd):
        h = cls.read(fd, 8)
        if h is None:
            return None
        return pickle.loads(cls.read(fd, struct.unpack("q", h)[0]))

    @staticmethod
    def put(fd, o):
        b = pickle.dumps(o)
        b = struct.pack("q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, qr, aw):
        import signal
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            m = self.get(qr)
            if m is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(120)
                    self.put(aw, ("ok", fresh(*m)))
                except BaseException as e:
                    self.put(aw, ("no", repr(e)))
                os._exit(0)
            _, rc = os.waitpid(pid, 0)
            if rc:
                self.put(aw, ("no", f"ended with {rc}"))

    def ask(self, c, k):
        self.put(self.q, (c, k))
        r = self.get(self.a)
        if r is None or r[0] != "ok":
            raise HarnessError(f"no answer of the other process: {r}")
        return r[1]


_z = None


def zygote():
    global _z
    if _z is None or _z.owner != os.getpid():
        _z = Zygote()
    return _z


# -------------------------------------------------------------------- cases

@st.composite
def well(draw, like=None):
    how = "new" if like is None else draw(st.sampled_from(
        ["new", "same path", "same depths", "near", "other reference"]))
    if how in ("new", "same depths"):
        kw = {}
        n = draw(st.integers(3, 6)) if how == "new" else len(like["md"])
        c = draw(gens.stations(min_n=n, max_n=n, max_dinc=20, max_dazi=25,
                               min_step=20, max_inc=80,
                               start_md=draw(st.sampled_from([0.0, 0.0, 150.0]))))
        if how == "same depths":
            c["md"] = list(like["md"])
    else:
        c = {k: list(like[k]) for k in ("md", "inc", "azi")}
        if how == "near":
            c["inc"] = [round(i + draw(gens.q(0, 0.5)), 2) for i in c["inc"]]
    c["h"] = draw(gens.header(unit=("meters", "meters", "feet")))
    if how in ("same path", "near"):
        c["h"] = dict(like["h"])
    elif like is not None:
        c["h"]["depth_unit"] = like["h"]["depth_unit"]
    c["vs"] = draw(st.one_of(st.just(0.0), gens.angle_deg))
    c["start"] = draw(gens.nev_offset)
    if like is not None:
        c["start"] = [round(x + draw(gens.q(-40, 40, 0.1)), 1) for x in like["start"]]
    c["radius"] = [draw(gens.q(0.05, 0.5))] * len(c["md"])
    c["arrays"] = draw(st.booleans())
    c["cov"] = None
    c["model"] = draw(st.sampled_from(MODELS))
    if draw(st.integers(0, 2)) == 0:
        c["cov"] = [draw(gens.q(-4, 4, 0.1)) for _ in range(9)]
    return c


@st.composite
def operation(draw, names):
    return {"op": draw(st.sampled_from(names)), "w": draw(st.sampled_from("AB")),
            "f": draw(gens.q(0, 1)), "b": draw(st.booleans()),
            "step": draw(st.sampled_from([10.0, 30.0, 25.5])),
            "azi": draw(gens.angle_deg), "dls": draw(gens.q(1, 6)),
            "inc": draw(gens.q(0, 90)), "sigma": draw(gens.q(1, 4)),
            "method": draw(st.sampled_from(["ellipse", "pedal_curve", "circle"])),
            "model": draw(st.sampled_from(MODELS))}


def cases(names, most=6):
    @st.composite
    def case(draw):
        c = {"A": draw(well())}
        c["B"] = draw(well(c["A"]))
        c["nodes"] = []
        p = [0.0, 0.0, 0.0]
        for k in range(2):
            p = [round(p[0] + draw(gens.q(-900, 900, 0.1)), 1),
                 round(p[1] + draw(gens.q(-900, 900, 0.1)), 1),
                 round(p[2] + draw(gens.q(800, 2500, 0.1)), 1)]
            c["nodes"].append({"pos": p, "inc": draw(gens.q(0, 60)),
                               "azi": draw(gens.angle_deg),
                               "md": None if k else draw(st.one_of(
                                   st.just(0.0), gens.q(0, 3000, 0.1)))})
        ops = [draw(operation(names)) for _ in range(draw(st.integers(2, most)))]
        # do some again
        for k in draw(st.lists(st.integers(0, len(ops) - 1), max_size=3)):
            o = dict(ops[k])
            if draw(st.booleans()):
                o["w"] = "B" if o["w"] == "A" else "A"
            ops.append(o)
        c["ops"] = ops
        return c
    return case()


def allowed(o):
    return {"set_azimuth": {"vertical_section", "vertical_section_azimuth"},
            "set_model": {"cov_nev", "cov_hla"}}[o["op"]]


def same_but(before, now, o):
    """Setters change what they set, of that well, and nothing else."""
    for k in before:
        a, b = before[k], now[k]
        if k == "errors " + o["w"] and o["op"] == "set_model":
            continue
        if k in (o["w"], "header " + o["w"]):
            a = {x: v for x, v in a.items() if x not in allowed(o)}
            b = {x: v for x, v in b.items() if x not in allowed(o)}
        d = differ(a, b, k)
        check(d is None, lambda: f"{o['op']} changed {d}")


def run(c):
    z = zygote()
    w = World(c)
    snap = w.snapshot()
    marks = set()
    for k, o in enumerate(c["ops"]):
        name = o["op"]
        if name in SETTERS:
            SETTERS[name](w, getattr(w, o["w"]), o)
            now = w.snapshot()
            same_but(snap, now, o)
            snap = now
            marks.add(name)
            continue
        had = w.sections is not None
        got = attempt(w, o)
        if not had and w.sections is not None:
            snap["sections"] = fp(World(c).path())
        d = differ(snap, w.snapshot())
        check(d is None, lambda: f"{name} changed its inputs: {d}")
        for what, other in (("other objects", fresh(c, k)),
                            ("a process that did nothing else", z.ask(c, k))):
            d = differ(got, other)
            check(d is None, lambda: f"{name} after {k} operations isn't what {what} "
                                     f"give(s): {d}")
        if isinstance(got, dict) and "raised" in got:
            marks.add("raised " + name)
        else:
            marks.add(name)
    for o, was in w.keep:
        d = differ(was, fp(o))
        check(d is None, lambda: f"an earlier result changed: {d}")
    real = [m for m in marks if not m.startswith("raised")]
    return Info(len(real) >= 2, sorted(marks))


FAST = sorted(set(OPS) - RARE - SLOW - set(ELSEWHERE))
PROP = Prop("P09", [
    Facet("histories", cases(FAST * 2 + ["clearance", "hookload"] + sorted(SETTERS) * 5), run,
          160, rule="at least two kinds of operations succeeded"),
    Facet("meshes", cases(sorted(RARE) + ["mesh", "interpolate_survey", "set_model",
                                          "clearance", "from_sections", "drag"], 3),
          run, 24,
          rule="at least two kinds of operations succeeded"),
    Facet("elsewhere", cases(ELSEWHERE + ["error_model", "clearance", "set_model",
                                          "landmark", "drag", "construct"]),
          run, 48,
          rule="at least two kinds of operations succeeded"),
])
