"""P27 well plans survive the .wbp format."""
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import nev
from .p31 import case_plan, plan_survey
from welleng.exchange import wbp
from welleng.version import __version__ as VERSION

TYPES = ["unknown", "surface", "ow_sidetrack", "wp_sidetrack", "look_ahead", "ow_well",
         "complex_extension", "site", "site_based_plan", "compass_well"]
METHODS = ["curve_only", "curve_hold", "opt_align", "something_special"]
UNITS = {("feet", "feet"): "1", ("meters", "meters"): "2", ("meters", "feet"): "3",
         ("feet", "meters"): "4"}     # depth, surface
name = st.text("abcXYZ 0189-_/", min_size=1, max_size=60).map(str.strip).filter(bool)


@st.composite
def target(draw):
    return {"name": draw(name), "at": [draw(gens.q(-9e5, 9e5)), draw(gens.q(-9e5, 9e5)),
                                       draw(gens.q(-9000, 100))],
            "color": draw(st.integers(0, 255))}


@st.composite
def header(draw):
    return {"plan": draw(name), "parent": draw(st.one_of(st.none(), name)),
            "type": draw(st.sampled_from(TYPES)),
            "method": draw(st.one_of(st.none(), st.sampled_from(METHODS))),
            "dirty": draw(st.sampled_from([None, "locked_plan"])),
            "side": draw(st.one_of(st.none(), st.integers(1, 9999999).map(str))),
            "dls": draw(st.one_of(st.none(), gens.q(0, 99))),
            "ext": draw(st.one_of(st.none(), gens.q(0, 9, 0.00001)))}


@st.composite
def case(draw):
    c = {"wells": [{"plan": draw(case_plan()), "head": draw(header())}
                   for _ in range(draw(st.integers(1, 3)))],
         "targets": draw(st.lists(target(), max_size=3)),
         "units": draw(st.sampled_from(sorted(UNITS))),
         "comments": draw(st.one_of(st.none(), st.lists(name, max_size=3))),
         "parent_file": draw(st.booleans())}
    return c


def make_plan(w, c, targets, parent=None):
    s, p, leg = plan_survey(w["plan"])
    if len(p.md) < 3:
        raise Skip
    h = w["head"]
    kw = {}
    for k, x in (("plan_method", "method"), ("dirty_flag", "dirty"),
                 ("sidetrack_id", "side"), ("dls", "dls"), ("extension", "ext"),
                 ("parent_name", "parent")):
        if h[x] is not None:
            kw[k] = h[x]
    if targets:
        kw["targets"] = targets
    w = wbp.WellPlan(survey=s, plan_name=h["plan"], location_type=h["type"],
                     depth_unit=c["units"][0], surface_unit=c["units"][1],
                     parent_wbp_file=parent, **kw)
    return s, w


def judge_head(w, h, c):
    check((w.depth_unit, w.surface_unit) == tuple(c["units"]),
          f"units {w.depth_unit}, {w.surface_unit}")
    check(w.plan_name == h["plan"], f"plan name {w.plan_name!r}")
    check(w.parent_name == h["parent"], f"parent name {w.parent_name!r}")
    check(w.location_type == h["type"], f"type {w.location_type}")
    check(w.plan_method == (h["method"] or "curve_only"), f"method {w.plan_method}")
    check(str(w.dirty_flag) == str(h["dirty"]), f"dirty flag {w.dirty_flag}")
    check((w.sidetrack_id or None) == h["side"], f"sidetrack {w.sidetrack_id!r}")
    close(w.dls, 3.0 if h["dls"] is None else h["dls"], 0.00501, what="plan's dls")
    close(w.extension, h["ext"] or 0.0, 0.00000501, what="plan's extension")


def judge_steps(got, want, what):
    check(len(got) == len(want), f"{what}: {len(got)} points, not {len(want)}")
    for k, (a, b) in enumerate(zip(got, want)):
        close(a.md, b.md, 0.00501, what=f"{what}: md of point {k}")
        for x in ("inc", "build_rate", "turn_rate", "dls"):
            close(getattr(a, x), getattr(b, x), 0.000501, what=f"{what}: {x} of point {k}")
        close(a.toolface, b.toolface, 0.00501, what=f"{what}: toolface of point {k}")
        close(angdiff(math.radians(a.azi), math.radians(b.azi)), 0.0, 1e-5,
              what=f"{what}: azi of point {k}")
        close(a.location, b.location, 0.00501, what=f"{what}: location of point {k}")
        check(bool(a.tie_on) == (k == 0), f"{what}: tie-on of point {k}")
        if k > 1:
            check(str(a.method) == str(b.method), f"{what}: method {a.method}")


def judge_targets(got, want):
    check(len(got) == len(want), f"{len(got)} targets, not {len(want)}")
    for a, b in zip(got, want):
        check(a.name == b["name"], f"target {a.name!r}")
        close(a.location, b["at"], 0.00501, what="location of target")
        check(a.geometry["color"]["color"] == b["color"], "colour of target")


def run(c):
    folder = tempfile.mkdtemp(prefix="vt_wbp_")
    try:
        return body(c, folder)
    finally:
        shutil.rmtree(folder)


def body(c, folder):
    targets = []
    for t in c["targets"]:
        x = wbp.Target(t["name"], location=list(t["at"]))
        x.geometry["color"]["color"] = t["color"]
        targets.append(x)
    made = []
    for k, w in enumerate(c["wells"]):
        s, plan = make_plan(w, c, targets if k == 0 else None)
        if k and targets:
            check(not plan.targets, "targets of another plan")
        P = nev(s)
        datum = P[0][[1, 0, 2]] * [1, 1, -1]
        close(plan.surface_datum, datum, 1e-9, what="surface datum")
        loc = np.array([t.location for t in plan.steps])
        close(plan.env_local, loc - [datum[0], datum[1], 0], 1e-9,
              what="local coordinates")
        made.append((s, plan))
    plans = [p for _, p in made]
    kw = {} if c["comments"] is None else {"comments": c["comments"]}
    arg = plans if len(plans) > 1 else plans[0]
    doc = wbp.export(arg, **kw)
    check(all("\n" not in x for x in doc), "one line each")
    check(doc[0] == "DEPTH " + UNITS[tuple(c["units"])], f"units line {doc[0]!r}")
    said = [x[2:] for x in doc if x.startswith("! ")]
    want = c["comments"] if c["comments"] is not None \
        else [f"welleng v{VERSION}", "Written by Jonny Corcutt"]
    check(said[1:] == want, f"comments {said}")
    fn = os.path.join(folder, "plan.wbp")
    wbp.export(arg, fn, **kw)
    with open(fn) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "" and len(lines) == len(doc) + 1
          and all(a == b for a, b in zip(lines, doc) if not a.startswith("! 20")),
          "the file isn't the listing")
    got = wbp.load(fn)
    check(len(got) == len(plans), f"{len(got)} plans, not {len(plans)}")
    for g, w, (s, p) in zip(got, c["wells"], made):
        judge_head(g, w["head"], c)
        judge_steps(g.steps, p.steps, w["head"]["plan"])
    judge_targets(got[0].targets, c["targets"])
    for g in got[1:]:
        check(not g.targets, "targets of another plan")
    # and again, as loaded
    fn2 = os.path.join(folder, "again.wbp")
    wbp.export(got, fn2)
    more = wbp.load(fn2)
    check(len(more) == len(got), f"{len(more)} plans after another trip")
    for a, b, w in zip(more, got, c["wells"]):
        judge_head(a, w["head"], c)
        judge_steps(a.steps, b.steps, "another trip")
    judge_targets(more[0].targets, c["targets"])
    if c["parent_file"]:
        s, kid = make_plan(c["wells"][0], c, None, parent=fn)
        x, y, z = got[0].steps[0].location
        close(kid.surface_datum, [x, y, z], 1e-9, what="surface of the parent")
        loc = np.array([t.location for t in kid.steps])
        close(kid.env_local, loc - [x, y, 0], 1e-6, what="local to the parent")
        fn3 = os.path.join(folder, "kid.wbp")
        wbp.export(kid, fn3)
        fam = wbp.load(fn3)
        check(len(fam) == len(plans) + 1, f"{len(fam)} plans with the parent's")
        for a, b in zip(fam, got + [kid]):
            check(a.plan_name == b.plan_name, "plans with the parent's")
            judge_steps(a.steps, b.steps, "with the parent's")
    for bad in (os.path.join(folder, "plan.txt"),):
        try:
            wbp.load(bad)
        except AssertionError:
            continue
        check(False, "accepted a file of another format")
    for kw in ({"location_type": "unknown"}, {"plan_name": "x"}):
        try:
            wbp.WellPlan(survey=made[0][0], **kw)
        except AssertionError:
            continue
        check(False, f"accepted a plan with {kw} alone")
    try:
        wbp.export([plans[0], "plan"])
        check(False, "exported something else")
    except AssertionError:
        pass
    return Info(any(len(p.steps) > 3 for p in plans),
                [f"{len(plans)} plans", "targets" if targets else "", str(c["units"])])


@st.composite
def case_foreign(draw):
    """A file by another program: survey points, geometry, remarks."""
    num = gens.q(-900, 900)
    c = {"units": draw(st.sampled_from(sorted(UNITS))), "targets": [], "wells": []}
    for _ in range(draw(st.integers(0, 3))):
        t = draw(target())
        t["geo"] = draw(st.one_of(st.none(), st.tuples(
            st.sampled_from("123"), st.sampled_from("01"), num, num).map(list)))
        t["long"] = draw(st.booleans())
        c["targets"].append(t)
    for _ in range(draw(st.integers(1, 3))):
        steps = []
        md = 0.0
        for _ in range(draw(st.integers(1, 6))):
            md = round(md + draw(gens.q(0, 900)), 2)
            steps.append({
                "kind": draw(st.sampled_from("PX")), "md": md,
                "azi": draw(gens.q(0, 359, 0.001)), "inc": draw(gens.q(0, 120, 0.001)),
                "rest": [draw(gens.q(-9, 9, 0.001)) for _ in range(3)],
                "tf": draw(gens.q(-180, 180)),
                "cov": [draw(gens.q(-999, 9999, 0.1)) for _ in range(6)],
                "bias": [draw(gens.q(-99, 99)) for _ in range(3)],
                "tool": draw(st.sampled_from(["MWD", "GYRO MULTI", "BLIND x 2", ""])),
                "method": draw(st.sampled_from(["920", "0", "1000"])),
                "target": draw(st.sampled_from([None, "T1", "deep"])),
                "at": [draw(gens.q(-9e5, 9e5)), draw(gens.q(-9e5, 9e5)),
                       draw(gens.q(-9000, 100))]})
        c["wells"].append({"head": draw(header()), "steps": steps})
    return c


def foreign(c):
    out = ["! A REMARK", "DEPTH " + UNITS[tuple(c["units"])], "! ANOTHER: ONE", "TARGETS:"]

    def loc(v):
        return f"L:{v[0]:13.2f}{v[1]:13.2f}{v[2]:11.2f}"
    for t in c["targets"]:
        out += ["T:" + t["name"], loc(t["at"])]
        out.append(f"C:{t['color']:3d}" + (f"{'TEAM':>5} {'APP':<10} FEATURE"
                                          if t["long"] else ""))
        if t["geo"]:
            g = t["geo"]
            out.append(f"G:{g[0]}{g[1]}{g[2]:9.2f}{g[3]:10.2f}")
    out.append("WELLPLANS:")
    for w in c["wells"]:
        h = w["head"]
        out.append(f"W:{TYPES.index(h['type'])}{UNITS[tuple(c['units'])]}"
                   f"{'0129'[METHODS.index(h['method'] or 'curve_only')]}"
                   f"{'4' if h['dirty'] else '0'}   0 123 {h['side'] or '':>7} "
                   f"{h['plan']:<60} {h['parent'] or '':<60} "
                   f"{3.0 if h['dls'] is None else h['dls']:6.2f} {h['ext'] or 0:7.5f}")
        for k, x in enumerate(w["steps"]):
            if x["kind"] == "P":
                m = f"{x['method']:>4} {x['target'] or '':>10}" if k else ""
                r = x["rest"]
                out.append(f"P: {x['md']:7.2f} {x['azi']:7.3f} {x['inc']:7.3f} {r[0]:7.3f} "
                           f"{r[1]:7.3f} {r[2]:7.3f} {x['tf']:7.2f} {m}")
            else:
                out.append("X:" + "".join(f" {v:8.1f}" for v in x["cov"])
                           + "".join(f" {v:7.2f}" for v in x["bias"])
                           + f" {x['tool']:<38}")
                out.append(f"S: {x['md']:7.2f} {x['azi']:7.3f} {x['inc']:7.3f}")
            out.append(loc(x["at"]))
    return out


def judge_foreign(c, got):
    check(len(got) == len(c["wells"]), f"{len(got)} plans, not {len(c['wells'])}")
    judge_targets(got[0].targets, c["targets"])
    for w, g in zip(c["wells"], got):
        judge_head(g, w["head"], c)
        check(len(g.steps) == len(w["steps"]), f"{len(g.steps)} points")
        for k, (a, x) in enumerate(zip(g.steps, w["steps"])):
            close([a.md, a.azi, a.inc], [x["md"], x["azi"], x["inc"]], 1e-9,
                  what=f"listing of point {k}")
            close(a.location, x["at"], 1e-9, what=f"location of point {k}")
            if x["kind"] == "P":
                close([a.build_rate, a.turn_rate, a.dls, a.toolface],
                      x["rest"] + [x["tf"]], 1e-9, what=f"rates of point {k}")
                check(bool(a.tie_on) == (k == 0), f"tie-on of point {k}")
                if k:
                    check(a.method == x["method"] and a.target == x["target"],
                          f"method {a.method} and target {a.target} of point {k}")
            else:
                close([a.cov_xx, a.cov_xy, a.cov_xz, a.cov_yy, a.cov_yz, a.cov_zz,
                       a.x_bias, a.y_bias, a.z_bias], x["cov"] + x["bias"], 1e-9,
                      what=f"errors of point {k}")
                check(a.tool == x["tool"], f"tool {a.tool!r} of point {k}")


def run_foreign(c):
    folder = tempfile.mkdtemp(prefix="vt_wbp_")
    try:
        fn = os.path.join(folder, "plan.wbp")
        with open(fn, "w") as f:
            f.write("\n".join(foreign(c)) + "\n")
        got = wbp.load(fn)
        judge_foreign(c, got)
        for a, t in zip(got[0].targets, c["targets"]):
            g = a.geometry
            if t["geo"]:
                check(g["type"] == {"1": "circle", "2": "ellipse", "3": "rectangle"}[
                    t["geo"][0]], "type of target")
                check(g["locked"] == t["geo"][1], "lock of target")
                close(g["offset"], t["geo"][2:], 1e-9, what="offset of target")
            else:
                check(g["type"] is None and g["offset"] is None, "geometry of another")
            k = g["color"]
            if t["long"]:
                check([str(k[x]).strip() for x in ("interpreter", "application", "feature")]
                      == ["TEAM", "APP", "FEATURE"], f"colour of target {k}")
        # without changing anything
        fn2 = os.path.join(folder, "again.wbp")
        wbp.export(got, fn2)
        judge_foreign(c, wbp.load(fn2))
    finally:
        shutil.rmtree(folder)
    return Info(len(c["wells"]) > 1 or len(c["targets"]) > 1,
                [w["steps"][0]["kind"] for w in c["wells"]])


@st.composite
def case_survey(draw):
    c = {"plan": draw(case_plan()), "step": draw(st.one_of(st.none(), gens.q(10, 90))),
         "head": {"plan": "p", "parent": None, "type": "site", "method": None,
                  "dirty": None, "side": None, "dls": None, "ext": None},
         "radius": draw(st.one_of(st.none(), gens.q(0.1, 3))),
         "zone": draw(st.one_of(st.none(), st.integers(1, 60))),
         "north": draw(st.booleans()), "ref": draw(st.sampled_from(["true", "grid", None])),
         "memory": draw(st.booleans()), "conv": draw(gens.q(-3, 3, 0.1))}
    u = draw(st.sampled_from(["meters", "feet"]))
    c["units"] = [u, u]
    c["plan"]["h"].update(depth_unit=u, azi_reference="grid", convergence=0.0,
                          declination=0.0)
    k = 1 if u == "meters" else 1 / 0.3048
    c["plan"]["start_nev"] = [round(k * draw(gens.q(1e5, 9e6, 0.01)), 2),
                              round(k * draw(gens.q(2e5, 8e5, 0.01)), 2),
                              draw(gens.q(-300, 300))]
    return c


def run_survey(c):
    s, plan = make_plan(c, c, None)
    p = geo.Path(s.md, s.inc_deg, s.azi_grid_deg, nev(s)[0])
    data = plan
    tol = 1e-3 + 1e-6 * (p.md[-1] - p.md[0])
    ang = 1e-5
    if not c["memory"]:
        folder = tempfile.mkdtemp(prefix="vt_wbp_")
        try:
            fn = os.path.join(folder, "plan.wbp")
            wbp.export(plan, fn)
            data = wbp.load(fn)[0]
        finally:
            shutil.rmtree(folder)
        # the file is rounded
        tol = 0.02 + 0.01 * len(plan.steps) + 2e-5 * (p.md[-1] - p.md[0]) \
            + 0.01 * len(plan.steps)
        ang = 5e-5
    kw = {}
    for k, x in (("radius", "radius"), ("utm_zone", "zone"), ("azi_reference", "ref")):
        if c[x] is not None:
            kw[k] = c[x]
    if not c["north"]:
        kw["utm_north"] = False
    if c["ref"] == "grid":
        kw["convergence"] = c["conv"]
    q = wbp.wbp_to_survey(data, step=c["step"], **kw)
    check(q.unit == c["units"][0] and q.header.depth_unit == c["units"][0],
          f"units {q.unit}, {q.header.depth_unit}")
    close(nev(q)[0], nev(s)[0], 0.00501, what="start")
    md = q.md
    check((np.diff(md) > 0).all(), "stations aren't in order")
    close(md[-1], p.md[-1], 0.02, what="end of the survey")
    P = nev(q)
    for k, m in enumerate(md):
        x, t = p.at(min(max(m, p.md[0]), p.md[-1]))
        close(P[k], x, tol, what=f"position at {m}")
        # rounded turn rates at near-vertical give noisy azimuths
        close(geo.tangent_rad(q.inc_rad[k], q.azi_grid_rad[k]), t, ang + 2e-4,
              what=f"direction at {m}")
    for t in plan.steps:
        check(np.abs(md - t.md).min() < 0.02, f"no station at the control point {t.md}")
    if c["step"]:
        check(np.diff(md).max() <= c["step"] + 1e-6, "stations too far apart")
    close(q.radius, np.full(len(md), c["radius"] or 10.0), 1e-9, what="radius")
    import utm
    f = 1.0 if c["units"][0] == "meters" else 0.3048
    lat, lon = utm.to_latlon(nev(s)[0][1] * f, nev(s)[0][0] * f, c["zone"] or 31,
                             northern=c["north"])
    close([q.header.latitude, q.header.longitude], [lat, lon], 1e-5, what="map location")
    close(q.header.altitude, -nev(s)[0][2], 0.00501, what="altitude")
    d = q.azi_true_rad - q.azi_grid_rad - np.radians(kw.get("convergence", 0.0))
    close(np.abs(np.sin(d)), np.zeros(len(d)), 1e-9, what="convergence of the survey")
    check(q.header.surface_unit == c["units"][1], "surface unit")
    return Info(len(plan.steps) > 3, [c["units"][0], "memory" if c["memory"] else "file"])


PROP = Prop("P27", [
    Facet("trip", case(), run, 400,
          rule="random plans, headers, targets and comments exported and loaded, "
               "twice; non-trivial: a plan with several sections"),
    Facet("foreign", case_foreign(), run_foreign, 600,
          rule="random files with survey points and target geometry; non-trivial: "
               "several plans or targets"),
    Facet("survey", case_survey(), run_survey, 150,
          rule="plans made into surveys, from memory or a file, at any step; "
               "non-trivial: several sections"),
], ["names up to 60 characters without colons"])
