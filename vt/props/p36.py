"""P36 figures and scenes show the data they are made from."""
import math
import re
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from ..mk import make_header, nev
from . import p21, p23
from .p05 import build
from welleng import target, torque_drag, visual

UNIT = {"m": 1.0, "ft": 0.3048, "km": 1000.0, "N": 1.0, "lbf": 4.4482216152605,
        "kN": 1000.0, "N*m": 1.0, "ft_lbf": 1.3558179483314004, "kN*m": 1000.0}


def arr(t, *keys):
    return np.column_stack([np.asarray(t[k], float) for k in keys])


def same_points(a, b, tol, what):
    """The same rows in any order."""
    check(a.shape == b.shape, lambda: f"{what}: {a.shape}, not {b.shape}")
    close(a[np.lexsort(a.round(6).T)], b[np.lexsort(b.round(6).T)], tol, what=what)


# ----------------------------------------------------------------- surveys

@st.composite
def case_survey(draw):
    c = draw(gens.stations(min_n=2, max_n=7, min_step=20, long=True))
    c["h"] = draw(gens.header())
    c["h"]["vertical_section_azimuth"] = draw(st.one_of(st.none(), gens.q(0, 359)))
    c["start_nev"] = draw(gens.nev_offset)
    c["step"] = draw(st.one_of(st.none(), gens.q(10, 200)))
    c["kw"] = draw(st.sampled_from(["", "layout", "traces", "both"]))
    return c


def run_survey(c):
    h = dict(c["h"])
    vsa = h.pop("vertical_section_azimuth")
    c2 = dict(c, h=h)
    kw = {} if vsa is None else {"vertical_section_azimuth": vsa}
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"],
                         header=make_header(h, **kw), unit=h["depth_unit"],
                         start_nev=c["start_nev"]) if kw else build(c2)
    if c["step"]:
        s = s.interpolate_survey(step=c["step"])
    n = len(s.md)
    pos = np.column_stack([s.e, s.n, s.tvd])
    before = (nev(s).copy(), s.md.copy())
    kw = {}
    if c["kw"] in ("layout", "both"):
        kw["layout"] = dict(title="a title", width=321)
    if c["kw"] in ("traces", "both"):
        kw["traces"] = dict(opacity=0.25)
    flags = np.asarray(s.interpolated if s.interpolated is not None
                       else np.zeros(n)).astype(bool)
    for fig in (s.figure(**kw), visual.figure(s, "scatter3d", **kw)):
        lines = [t for t in fig.data if "lines" in (t.get("mode") or "lines")]
        marks = [t for t in fig.data if t.get("mode") == "markers"]
        check(len(lines) == 1 and len(lines) + len(marks) == len(fig.data), "traces")
        close(arr(lines[0], "x", "y", "z"), pos, 1e-9, what="line of the well")
        seen = {}
        for t in marks:
            seen[t["name"]] = arr(t, "x", "y", "z")
        for name, want in (("interpolated", pos[flags]), ("survey_point", pos[~flags])):
            got = seen.pop(name, np.zeros((0, 3)))
            same_points(got, want, 1e-9, f"markers of {name}")
        check(not seen, lambda: f"markers {sorted(seen)}")
        for t in marks:
            check(len(t["text"]) == len(t["x"]), "texts of the markers")
            for k, text in enumerate(t["text"]):
                v = [float(x) for x in re.findall(r":\s*(-?[\d.]+)", text)]
                check(len(v) == 6, lambda: f"text {text!r}")
                close([v[1], v[0], v[2]], [t["x"][k], t["y"][k], t["z"][k]], 0.0051,
                      what="position in the text")
                near = np.abs(pos - [t["x"][k], t["y"][k], t["z"][k]]).max(axis=1) < 1e-9
                ok = [m for m in np.flatnonzero(near)
                      if abs(s.md[m] - v[3]) < 0.0051
                      and abs(s.inc_deg[m] - v[4]) < 0.0051
                      and abs(s.azi_grid_deg[m] - v[5]) < 0.0051]
                check(ok, lambda: f"depth and angles in {text!r}")
        if "layout" in kw:
            check(fig.layout.get("title") == "a title" and fig.layout.get("width") == 321,
                  "layout asked for")
        if "traces" in kw:
            check(all(t.get("opacity") == 0.25 for t in fig.data), "traces asked for")
        check((fig.scenes.get("zaxis_autorange") or (fig.scenes.get("zaxis") or {}).get(
            "autorange")) == "reversed", "depth isn't downwards")
    fig = s.figure("panel")
    cells = {}
    for t, rc in zip(fig.data, fig.cells):
        cells.setdefault(rc, []).append(t)
    for rc, x, y, what in (((1, 1), s.e, s.n, "plan"),
                           ((1, 2), s.vertical_section, s.tvd, "section"),
                           ((2, 1), s.e, s.tvd, "west-east"),
                           ((2, 2), s.n, s.tvd, "north-south")):
        check(len(cells.get(rc, [])) == 1, lambda: f"traces of the {what}")
        close(arr(cells[rc][0], "x", "y"), np.column_stack([x, y]), 1e-9, what=what)
    t = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", " ".join(fig.titles))]
    check(any(abs(x - (vsa or 0.0)) < 1e-6 for x in t),
          lambda: f"azimuth {vsa} of the section in {fig.titles}")
    close(nev(s), before[0], 0, what="the survey's positions")
    close(s.md, before[1], 0, what="the survey's depths")
    return Info(n > 2, ["both" if flags.any() and not flags.all() else "plain"])


# ------------------------------------------------------------------ meshes

@st.composite
def case_mesh(draw):
    c = draw(p21.well())
    f = gens.q(-4, 4)
    c["cov"] = [[draw(f) for _ in range(6)] for _ in c["md"]]
    c["edges"] = draw(st.booleans())
    c["col"] = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
    return c


def mesh(c):
    C = np.array([p21.psd(v) for v in c["cov"]])
    return p21.mesh_of(c, p21.make(c, C)[0])


def triangles(v, f):
    return np.asarray(v, float)[np.asarray(f, int)].reshape(len(f), -1)


def run_mesh(c):
    m = mesh(c)
    want = triangles(m.mesh.vertices, m.mesh.faces)
    scale = 1 + np.abs(want).max()
    for fig in (m.figure(edges=c["edges"]), visual.figure(m, "mesh3d",
                                                           edges=c["edges"])):
        t = [x for x in fig.data if x.kind == "mesh3d"]
        check(len(t) == 1, "one mesh")
        v = arr(t[0], "y", "x", "z")
        f = np.column_stack([np.asarray(t[0][k], int) for k in "ijk"])
        check(f.min() >= 0 and f.max() < len(v),
              lambda: f"faces up to {f.max()} of {len(v)} vertices")
        close(triangles(v, f), want, 1e-9 * scale, what="triangles")
        rest = [x for x in fig.data if x.kind != "mesh3d"]
        check(len(rest) == int(c["edges"]), "edges")
        if rest:
            close(arr(rest[0], "y", "x", "z"), want.reshape(-1, 3), 1e-9 * scale,
                  what="edges")
    return Info(True, [c["method"]])


# ----------------------------------------------------------- torque and drag

@st.composite
def case_drag(draw):
    c = draw(p23.case_td())
    c["u"] = draw(st.one_of(st.none(), st.tuples(
        st.sampled_from(["m", "ft", "km"]), st.sampled_from(["N", "lbf", "kN"]),
        st.sampled_from(["N*m", "ft_lbf", "kN*m"])).map(list)))
    c["ff"] = draw(st.sampled_from([[0.1, 0.4, 0.1], [0.2, 0.45, 0.1], [0.0, 0.3, 0.16],
                                    [0.05, 0.5, 0.06]]))
    c["parts"] = draw(st.integers(1, 3))
    c["hook"] = draw(st.integers(0, 3)) == 0
    return c


def run_drag(c):
    s = build(c)
    hole, pipe = p23.architecture(c)
    kw = {"wob": c["wob"], "tob": c["tob"]} if c["wob"] else {}
    if c["over"]:
        kw["overpull"] = c["over"]
    u = c["u"] or ["ft", "lbf", "ft_lbf"]
    d, f, q = (UNIT[x] for x in u)
    units = dict(depth=u[0], tension=u[1], torque=u[2])
    td = torque_drag.TorqueDrag(s, hole, pipe, c["fluid"], **kw)
    fig = (torque_drag.figure_string_tension_and_torque(td, units=units) if c["u"]
           else td.figure())
    for col, data, k in ((1, td.tension, f), (2, td.torque, q)):
        ts = [t for t, rc in zip(fig.data, fig.cells) if rc == (1, col)]
        check(len(ts) == len(data), lambda: f"{len(ts)} curves of {len(data)}")
        for name, v in data.items():
            hit = [t for t in ts if str(t["name"]).split(": ")[-1] == name]
            check(len(hit) == 1, lambda: f"curves of {name}")
            x, y = np.asarray(hit[0]["x"], float), np.asarray(hit[0]["y"], float)
            check(len(x) == len(v), f"points of {name}")
            close(x * k, v, 1e-6 * (1 + np.abs(v).max()), what=f"curve of {name}")
            n = min(len(x), len(y))
            close(y[:n] * d, td.survey.md[:n], 1e-6 * (1 + td.survey.md[-1]),
                  what=f"depths of {name}")
    for ax in ("yaxis", "yaxis2"):
        check(fig.layout[ax]["autorange"] == "reversed", "depth isn't downwards")
    for x, name in (("xaxis", u[1]), ("xaxis2", u[2]), ("yaxis", u[0])):
        check(name in str(fig.layout[x]["title"]), f"unit of {x}")
    text = str(fig.layout.get("title_text") or fig.layout.get("title"))
    check("hole" in text and "pipe" in text, lambda: f"title {text!r}")
    if not c["hook"]:
        return Info(True, ["plain"])
    L = c["string"][-1]
    hl = torque_drag.HookLoad(s, hole, pipe, c["fluid"], ff_range=tuple(c["ff"]),
                              step=round(L / (c["parts"] + 0.37), 1))
    fig = (torque_drag.figure_hookload(hl, units=units) if c["u"] else hl.figure())
    n = len(hl.data)
    left = list(fig.data)
    for ff, data in hl.data.items():
        for name, v in data.items():
            if name == "rotating" and ff != list(hl.data)[0]:
                continue
            v = np.asarray(v)
            hit = [t for t in left
                   if str(t["name"]).split(": ")[-1] == f"{ff:.2f}"
                   and str(t["name"])[0] == name[0].upper()]
            check(len(hit) == 1, lambda: f"curves of {name} with friction {ff}")
            left = [t for t in left if t is not hit[0]]
            close(np.asarray(hit[0]["x"], float) * f, v, 1e-6 * (1 + np.abs(v).max()),
                  what=f"hook load of {name}")
            close(np.asarray(hit[0]["y"], float) * d, hl.md_range, 1e-6 * (1 + L),
                  what=f"depths of {name}")
            if name != "rotating":
                check(any(str(a["text"]) == f"{ff:.2f}"
                          and abs(a["x"] * f - v[-1]) < 1e-6 * (1 + abs(v[-1]))
                          and abs(a["y"] * d - L) < 1e-6 * L
                          for a in fig.layout["annotations"]),
                      lambda: f"label of {name} with friction {ff}")
    check(not left, lambda: f"curves {[t['name'] for t in left]}")
    check(fig.layout["yaxis"]["autorange"] == "reversed", "depth isn't downwards")
    check(u[1] in str(fig.layout["xaxis"]["title"])
          and u[0] in str(fig.layout["yaxis"]["title"]), "units of a hook load figure")
    text = str(fig.layout.get("title_text") or fig.layout.get("title"))
    for k, b in enumerate(c["hole"]):
        if abs(b / d % 1 - 0.5) > 1e-6:
            check(f"h{k} to {b / d:.0f}{u[0]}" in text, lambda: f"h{k} in {text!r}")
    for k, (a, b) in enumerate(zip([0.0] + c["string"], c["string"])):
        x = (b - a) / d
        if k and abs(x % 1 - 0.5) > 1e-6:
            check(f"p{k} ({x:.0f}{u[0]})" in text, lambda: f"p{k} in {text!r}")
    return Info(True, [f"{n} friction factors"])


# ------------------------------------------------------------------ scenes

@st.composite
def case_scene(draw):
    c = draw(case_mesh())
    c["kind"] = draw(st.sampled_from(["well", "mesh", "lines"]))
    if c["kind"] == "lines":
        c["h"] = draw(gens.header(unit=("meters",)))
        c["off"] = [draw(gens.q(20, 300)) * draw(st.sampled_from([1, -1])) for _ in "ab"]
        c["turn"] = draw(gens.q(0, 40))
    return c


_quiet = []


def quiet():
    if not _quiet:
        import vtk
        vtk.vtkLogger.SetStderrVerbosity(vtk.vtkLogger.VERBOSITY_OFF)
        vtk.vtkObject.GlobalWarningDisplayOff()
        _quiet.append(1)


def run_scene(c):
    quiet()
    if c["kind"] == "lines":
        if max(c["inc"]) > 100:
            raise Skip
        hd = make_header(c["h"])
        k = dict(header=hd, error_model="ISCWSA MWD Rev5.11", radius=0.2)
        a = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], **k)
        b = we.survey.Survey(md=c["md"], inc=c["inc"],
                             azi=[(x + c["turn"]) % 360 for x in c["azi"]],
                             start_nev=[*c["off"], 0.0], **k)
        cl = we.clearance.IscwsaClearance(a, b)
        start, end = cl.get_lines()
        close(start, nev(cl.ref), 1e-6, what="reference points of the lines")
        close(np.linalg.norm(np.array(end) - start, axis=1), cl.distance_cc, 1e-4,
              what="lengths of the lines")
        lines = visual.get_lines(cl)
        v = np.asarray(lines.vertices, float)
        top = 1 + np.abs(v).max()
        close(v[0::2], start, 1e-6 * top, what="starts of the lines")
        close(v[1::2], end, 1e-6 * top, what="ends of the lines")
        vals = [np.asarray(lines.celldata[k], float) for k in lines.celldata.keys()]
        check(any(len(x) == len(cl.sf) and np.allclose(x, cl.sf, rtol=1e-5)
                  for x in vals), "colours of the lines aren't the factors")
        return Info(len(cl.sf) > 1, ["lines"])
    m = mesh(c)
    want = triangles(m.mesh.vertices, m.mesh.faces)
    top = 1 + np.abs(want).max()
    p = visual.Plotter(offscreen=True)
    try:
        if c["kind"] == "well":
            p.add(m, c=c["col"])
        else:
            p.add(SimpleNamespace(vertices=m.mesh.vertices, faces=m.mesh.faces),
                  c=c["col"])
        check(len(p.objects) == 1, "one object in the scene")
        o = p.objects[0]
        got = triangles(o.vertices, o.cells)
        close(got, want, 2e-6 * top, what="triangles in the scene")
        close(np.asarray(o.color(), float), c["col"], 1e-6, what="colour")
        if c["kind"] == "well":
            check(list(p.wells) == [m], "wells of the scene")
    finally:
        try:
            p.close()
        except Exception:
            pass
    return Info(True, [c["kind"]])


# ------------------------------------------------------------------ targets

GEOMETRY = {"circle": {"radius"}, "ellipse": {"radius_1", "radius_2", "res"},
            "rectangle": {"pos1", "pos2"}}


@st.composite
def case_target(draw):
    c = {"at": [draw(gens.q(-2000, 2000)), draw(gens.q(-2000, 2000)),
                draw(gens.q(0, 4000))],
         "shape": draw(st.sampled_from(["circle"] * 4 + ["ellipse", "rectangle",
                                                         "blob"])),
         "r": draw(gens.q(1, 300)), "dip": draw(st.one_of(st.just(0.0), gens.q(-60, 60))),
         "orientation": draw(st.one_of(st.just(0.0), gens.q(-180, 360))),
         "name": draw(st.sampled_from(["a", "T1"])), "alpha": draw(gens.q(0.1, 1)),
         "locked": draw(st.integers(0, 1)),
         "extra": draw(st.sampled_from([None, None, None, "less", "more", "swap"]))}
    return c


def run_target(c):
    quiet()
    keys = set(GEOMETRY.get(c["shape"], {"radius"}))
    good = c["shape"] in GEOMETRY and c["extra"] is None
    if c["extra"] == "less":
        keys.pop()
    elif c["extra"] == "more":
        keys.add("height")
    elif c["extra"] == "swap":
        keys.pop()
        keys.add("size")
    kw = {k: c["r"] for k in keys}
    try:
        t = target.Target(c["name"], *c["at"], c["shape"], locked=c["locked"],
                          orientation=c["orientation"], dip=c["dip"], color="red",
                          alpha=c["alpha"], **kw)
    except AssertionError:
        check(not good, lambda: f"refused a {c['shape']} with {sorted(kw)}")
        return Info(False, ["refused"])
    check(good, lambda: f"accepted a {c['shape']} with {sorted(kw)}")
    check([t.name, t.n, t.e, t.tvd, t.shape, t.locked, t.orientation, t.dip, t.color,
           t.alpha, t.geometry] ==
          [c["name"], *c["at"], c["shape"], c["locked"], c["orientation"], c["dip"],
           "red", c["alpha"], kw], "attributes of the target")
    if c["shape"] != "circle":
        return Info(False, ["other shapes"])
    g = t.plot_data()
    v = np.asarray(g.vertices, float)
    top = 1 + np.abs(v).max() + c["r"]
    r = v - c["at"]
    close(np.linalg.norm(r, axis=1), np.full(len(r), c["r"]), 1e-5 * top,
          what="radius of the target")
    # in the plane that dips and is turned about the vertical
    d, o = math.radians(c["dip"]), math.radians(c["orientation"])
    n = np.array([math.sin(d) * math.cos(o), math.sin(d) * math.sin(o), math.cos(d)])
    close(r @ n, np.zeros(len(r)), 2e-5 * top, what="plane of the target")
    close(r.mean(axis=0), np.zeros(3), 2e-2 * c["r"] + 1e-5 * top, what="centre")
    check(g.flag == c["name"], "name")
    return Info(c["dip"] != 0 and c["orientation"] != 0, ["circle"])


PROP = Prop("P36", [
    Facet("survey", case_survey(), run_survey, 500, rule="more than two stations"),
    Facet("mesh", case_mesh(), run_mesh, 400, rule="every mesh"),
    Facet("torque and drag", case_drag(), run_drag, 300, rule="every string"),
    Facet("scene", case_scene(), run_scene, 150, rule="every scene with a well"),
    Facet("target", case_target(), run_target, 400,
          rule="circles that dip and are turned"),
], ["plotly isn't installed: a stand-in records what would be plotted",
    "there is no display: scenes are built and not rendered"])
