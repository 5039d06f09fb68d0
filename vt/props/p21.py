"""P21 meshes of well bores and their position uncertainty."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from ..mk import make_header, nev

M = we.mesh
METHODS = ["ellipse", "pedal_curve", "circle"]


@st.composite
def well(draw, mild=False):
    c = draw(gens.stations(min_n=2, max_n=6, min_step=60,
                           max_dinc=8 if mild else 40, max_dazi=8 if mild else 70,
                           max_inc=80 if mild else 170))
    n = len(c["md"])
    c["start"] = draw(gens.nev_offset)
    c["unit"] = draw(st.sampled_from(["meters", "feet"]))
    c["radius"] = draw(st.one_of(gens.q(0.05, 1), st.lists(
        gens.q(0.05, 1), min_size=n, max_size=n)))
    c["method"] = draw(st.sampled_from(METHODS))
    c["sigma"] = draw(st.one_of(st.sampled_from([3.0, 2.445]), gens.q(0.5, 5)))
    c["pa"] = draw(st.one_of(st.just(0.5), gens.q(0, 2)))
    c["Sm"] = draw(st.one_of(st.just(0.0), gens.q(0, 1)))
    c["n"] = draw(st.sampled_from([12, 4, 6, 8, 10, 16, 20, 24]))
    return c


def make(c, cov_hla):
    n = len(c["md"])
    ax = np.array([geo.hla_axes(math.radians(i), math.radians(a))
                   for i, a in zip(c["inc"], c["azi"])])
    cov_nev = np.einsum("nki,nkl,nlj->nij", ax, cov_hla, ax)
    hd = make_header({"depth_unit": c["unit"], "azi_reference": "grid"})
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=hd,
                         unit=c["unit"], start_nev=c["start"], radius=c["radius"],
                         cov_nev=cov_nev)
    return s, ax, np.broadcast_to(np.asarray(c["radius"], float), (n,))


def mesh_of(c, s):
    k = {} if c["method"] == "circle" else {"Sm": c["Sm"], "sigma_pa": c["pa"]}
    return M.WellMesh(s, n_verts=c["n"], sigma=c["sigma"], method=c["method"], **k)


@st.composite
def case_rings(draw):
    c = draw(well())
    f = gens.q(-6, 6)
    c["cov"] = [[draw(f) for _ in range(6)] for _ in c["md"]]
    return c


def psd(v):
    L = np.array([[v[0], 0, 0], [v[1], v[2], 0], [v[3], v[4], v[5]]])
    return L @ L.T


def curve(c, R, C, xy, what):
    """The points (highside, lateral) are on the curve the method documents."""
    x, y = xy.T
    r = np.hypot(x, y)
    add = R + c["Sm"] + c["pa"] / 2
    if c["method"] == "circle":
        close(r, np.full(len(r), R), 1e-6, what=f"{what}: circle")
        return R, R
    if c["method"] == "ellipse":
        w, V = np.linalg.eigh(C[:2, :2])
        b, a = np.sqrt(np.maximum(w, 0)) * c["sigma"] + add
        q = xy @ V
        close((q[:, 1] / a) ** 2 + (q[:, 0] / b) ** 2, np.ones(len(r)), 1e-5,
              what=f"{what}: ellipse of the highside-lateral covariance")
        return a, b
    h, l = (math.sqrt(C[k, k]) * c["sigma"] + add for k in (0, 1))
    close(r ** 2, np.sqrt((h * x) ** 2 + (l * y) ** 2), 1e-5 * max(h, l) ** 2,
          what=f"{what}: pedal curve")
    return max(h, l), min(h, l)


def run_rings(c):
    cov = np.array([psd(v) for v in c["cov"]])
    s, ax, R = make(c, cov)
    m = mesh_of(c, s)
    n, k = len(c["md"]), c["n"]
    V = np.asarray(m.vertices, float)
    check(V.shape == (n, k, 3), lambda: f"vertices have shape {V.shape}")
    check(m.n_verts == k and m.sigma == c["sigma"], "n_verts or sigma")
    P = nev(s)
    close(m.nevs, P, 1e-9, what="station positions")
    close(m.radius, R, 0, what="radii")
    check(m.s is s, "survey of the mesh")
    for j in range(n):
        what = f"station {j}"
        d = (V[j] - P[j]) @ ax[j].T
        size = np.abs(d).max()
        close(d[:, 2], np.zeros(k), 1e-6 * (1 + size), what=f"{what}: across the hole")
        a, b = curve(c, R[j], cov[j], d[:, :2], what)
        # once around, in order
        th = np.unwrap(np.arctan2(d[:, 1], d[:, 0]))
        st_ = np.diff(np.append(th, th[0] + math.copysign(2 * math.pi, th[-1] - th[0])))
        check((st_ > 0).all() or (st_ < 0).all(), f"{what}: vertices out of order")
        if k % 4 == 0:
            r = np.hypot(*d[:, :2].T)
            close(r.max(), a, 1e-5 * a, what=f"{what}: widest vertex")
            close(r.min(), b, 1e-5 * a, what=f"{what}: narrowest vertex")
    # faces: two per side and interval, and a fan at each end
    F = np.asarray(m.faces)
    check(F.shape == (2 * k * (n - 1) + 2 * k, 3), lambda: f"faces {F.shape}")
    X = np.asarray(m.mesh.vertices, float)
    check(X.shape == (n * k + 2, 3), lambda: f"mesh vertices {X.shape}")
    close(X[:n * k], V.reshape(-1, 3), 0, what="mesh vertices")
    close(X[n * k:], P[[0, -1]], 1e-9, what="cap centres")
    check(np.array_equal(np.asarray(m.mesh.faces), F), "faces of the mesh")
    check(F.min() == 0 and F.max() == len(X) - 1, "face indices")
    e = np.sort(np.vstack([F[:, [0, 1]], F[:, [1, 2]], F[:, [2, 0]]]), axis=1)
    _, cnt = np.unique(e, axis=0, return_counts=True)
    check((cnt == 2).all(), "surface not closed")
    # every face joins a ring and its neighbour, or a ring and its cap
    row = np.where(F < n * k, F // k, np.where(F == n * k, 0, n - 1))
    check((np.ptp(row, axis=1) <= 1).all(), "face skips a station")
    return Info(c["method"] != "circle", [c["method"], str(k), c["unit"]])


# --- the closed surface -----------------------------------------------------
@st.composite
def case_solid(draw):
    c = draw(well(mild=True))
    n = len(c["md"])
    base = draw(gens.q(0.5, 6))
    c["sd"] = [round(base * (1 + draw(gens.q(0, 0.2)) * j), 3) for j in range(n)]
    c["aniso"] = draw(st.one_of(st.just(1.0), gens.q(1, 2.5)))
    return c


LOW = {4: 0.62, 6: 0.75, 8: 0.85, 10: 0.9}


def run_solid(c):
    n, k = len(c["md"]), c["n"]
    cov = np.array([np.diag([1, c["aniso"] ** 2, 1.0]) * s * s for s in c["sd"]])
    s, ax, R = make(c, cov)
    m = mesh_of(c, s)
    t = M.to_trimesh(m)
    check(t.is_watertight, "mesh not watertight")
    check(t.is_winding_consistent, "winding not consistent")
    check(t.volume > 0, "mesh inside out")
    P = nev(s)
    lo, hi = np.asarray(t.bounds)
    V = np.asarray(m.vertices).reshape(-1, 3)
    close(lo, V.min(axis=0), 1e-6, what="bounds")
    close(hi, V.max(axis=0), 1e-6, what="bounds")
    if c["aniso"] != 1.0 and c["method"] != "circle":
        return Info(False, [c["method"], str(k), "elliptic"])
    # circular sections: the volume is that of the cones between the rings
    # (each ring at most half a vertex spacing from aligned)
    r = R if c["method"] == "circle" else (
        np.array(c["sd"]) * c["sigma"] + R + c["Sm"] + c["pa"] / 2)
    if c["method"] == "pedal_curve":
        W = np.asarray(m.vertices, float)
        A = []
        for j in range(n):
            d = (W[j] - P[j]) @ ax[j].T
            x, y = d[:, 0], d[:, 1]
            A.append(abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2)
        A = np.array(A)
    else:
        A = k / 2 * math.sin(2 * math.pi / k) * r ** 2
    L = np.linalg.norm(np.diff(P, axis=0), axis=1)
    v = float(np.sum(L * (A[1:] + A[:-1] + np.sqrt(A[1:] * A[:-1])) / 3))
    q = t.volume / v
    check(LOW.get(k, 0.92) <= q <= 1.25 if k == 4 else LOW.get(k, 0.92) <= q <= 1.12,
          lambda: f"volume is {q:.3f} of the tube's")
    return Info(True, [c["method"], str(k), "round"])


# --- sections and scenes ----------------------------------------------------
@st.composite
def case_slices(draw):
    c = draw(well())
    n = len(c["md"])
    c["start_i"] = draw(st.integers(0, max(0, n - 3)))
    c["stop"] = draw(st.one_of(st.just(-1), st.integers(min(n, c["start_i"] + 2), n)))
    c["step"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["default"] = draw(st.booleans())
    c["sd"] = [draw(gens.q(0.5, 6)) for _ in range(n)]
    return c


def run_slices(c):
    n = len(c["md"])
    cov = np.array([np.diag([1, 1.7, 1.0]) * s * s for s in c["sd"]])
    s, ax, R = make(c, cov)
    kw = dict(n_verts=c["n"], sigma=c["sigma"], start=c["start_i"], stop=c["stop"],
              step=c["step"])
    if c["method"] != "circle":
        kw.update(Sm=c["Sm"], sigma_pa=c["pa"])
    meth = c["method"]
    if c["default"] and meth == "ellipse":
        out = M.sliced_mesh(s, **kw)
    else:
        out = M.sliced_mesh(s, method=meth, **kw)
    stop = n if c["stop"] == -1 else c["stop"]
    P = nev(s)
    # consecutive sections that share their joints and cover start to stop
    at = c["start_i"]
    for i, g in enumerate(out):
        X = np.asarray(g.vertices, float)
        rows = (len(X) - 2) // c["n"]
        check(2 <= rows <= c["step"] + 2, lambda: f"section {i} has {rows} stations")
        whole = M.WellMesh(we.survey.slice_survey(s, at, at + rows), n_verts=c["n"],
                           sigma=c["sigma"], method=meth,
                           **({} if meth == "circle" else
                              {"Sm": c["Sm"], "sigma_pa": c["pa"]}))
        close(X[-2:], P[[at, at + rows - 1]], 1e-4, what=f"ends of section {i}")
        close(X, whole.mesh.vertices, 1e-6, what=f"vertices of section {i}")
        check(np.array_equal(g.faces, whole.mesh.faces), f"faces of section {i}")
        at += rows - 1
    check(at == stop - 1, lambda: f"sections end at station {at}, not {stop - 1}")
    return Info(len(out) > 1, [meth, f"step {c['step']}"])


@st.composite
def case_scene(draw):
    return {"wells": [draw(well(mild=True)) for _ in range(draw(st.integers(1, 3)))],
            "origin": draw(st.one_of(st.none(), gens.nev_offset)),
            "array": draw(st.booleans()),
            "scale": draw(st.one_of(st.sampled_from([100, 1]), gens.q(0.5, 1000))),
            "dup": draw(st.integers(0, 3))}


def run_scene(c):
    data = {}
    for i, w in enumerate(c["wells"]):
        cov = np.array([np.eye(3) * 4.0] * len(w["md"]))
        data[f"well {i}"] = mesh_of(w, make(w, cov)[0])
    scene = M.make_trimesh_scene(data)
    check(set(scene.geometry) == set(data), "names in the scene")
    T = np.zeros(3) if c["origin"] is None else np.array(c["origin"])
    org = c["origin"]
    if org is not None and c["array"]:
        org = np.array(org)
    before = {k: np.array(g.vertices) for k, g in scene.geometry.items()}
    out = M.transform_trimesh_scene(scene, origin=org, scale=c["scale"], redux=1)
    check(set(out.geometry) == set(data), "names in the transformed scene")
    for k, g in out.geometry.items():
        X = before[k] - T
        close(np.asarray(g.vertices), np.column_stack([X[:, 0], -X[:, 2], X[:, 1]])
              / c["scale"], 1e-9, 1e-9, what="transformed vertices")
        close(np.asarray(scene.geometry[k].vertices), before[k], 0,
              what="vertices of the scene given")
        ref = M.to_trimesh(data[k])
        check(g.is_watertight, "transformed mesh not watertight")
        close(abs(g.volume) * c["scale"] ** 3, ref.volume, 1e-6, 1e-6,
              what="volume after scaling")
    # repairing gives back the closed surface
    k = "well 0"
    w = data[k]
    F = np.asarray(w.mesh.faces)
    extra = [F] + [F[:3]] * c["dup"] + [np.array([[0, 0, 1], [2, 3, 2]])]
    import trimesh
    bad = trimesh.Trimesh(vertices=w.mesh.vertices, faces=np.vstack(extra),
                          process=False)
    good = M.fix_mesh(bad)
    check(good.is_watertight and good.is_winding_consistent, "mesh not repaired")
    close(good.volume, M.to_trimesh(w).volume, 1e-6, 1e-6, what="repaired volume")
    check(len(good.faces) == len(F), "faces of the repaired mesh")
    return Info(len(data) > 1 or c["origin"] is not None, [f"{len(data)} wells"])


PROP = Prop(
    "P21",
    [Facet("rings", case_rings(), run_rings, 900, "the section shows uncertainty"),
     Facet("solid", case_solid(), run_solid, 900, "the sections are round"),
     Facet("slices", case_slices(), run_slices, 400, "more than one section"),
     Facet("scene", case_scene(), run_scene, 250, "several wells or an origin")],
    ["an even number of vertices per station"])
