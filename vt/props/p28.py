"""P28 control points and listings describe the survey."""
import math
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import make_header, nev
from .p05 import build
from .p31 import case_plan, plan_survey
from welleng.exchange.csv import export_csv as export_csv2
from welleng.version import __version__ as VERSION


STAMP = re.compile(r"\d\d:\d\d")


def judge_rows(tp, s, p):
    """Control points against the survey they are taken from."""
    den = 30.0 if s.unit == "meters" else 100.0
    P = nev(s)
    at = []
    for k, t in enumerate(tp):
        j = int(np.abs(s.md - t["md"]).argmin())
        at.append(j)
        close(t["md"], s.md[j], 1e-6, what=f"control point {k} is a station")
        close([t["y"], t["x"], -t["z"]], P[j], 1e-6 + 1e-9 * abs(t["md"]),
              what=f"location of control point {k}")
        close(geo.tangent(t["inc"], t["azi"]), p.t[j], 1e-6,
              what=f"direction of control point {k}")
    check(at[0] == 0 and at[-1] == len(s.md) - 1, "first and last station")
    check((np.diff(at) > 0).all(), "control points aren't in order")
    for k, (t, j) in enumerate(zip(tp, at)):
        if k == 0:
            close([t["dls"], t["toolface"], t["build"], t["turn"]], [0] * 4, 0,
                  what="rates of the first control point")
            continue
        u, i = tp[k - 1], at[k - 1]
        if p.dl[j] == 0:
            close([t["dls"], t["build"], t["turn"]], [0] * 3, 1e-6,
                  what=f"rates at the end of a hold (point {k})")
            continue
        if p.dl[j] < 1e-5:
            continue
        d = math.degrees(p.dl[j]) / (p.md[j] - p.md[j - 1]) * den
        close(t["dls"], d, 1e-5, 1e-6, what=f"dls of control point {k}")
        L = t["md"] - u["md"]
        close(t["build"], abs(t["inc"] - u["inc"]) / L * den, 1e-6, 1e-6,
              what=f"build rate of control point {k}")
        da = (t["azi"] - u["azi"] + 180) % 360 - 180
        if abs(abs(da) - 180) > 1e-3:
            close(t["turn"], da / L * den, 1e-6, 1e-6,
                  what=f"turn rate of control point {k}")
        # the toolface looks back to the previous control point
        inc, azi = math.radians(u["inc"]), math.radians(u["azi"])
        if math.sin(inc) > 1e-2 and p.dl[i + 1] > 1e-4:
            h, l, _ = geo.hla_axes(inc, azi)
            v = p.t[i + 1]
            tf = math.degrees(math.atan2(v @ l, v @ h))
            close(abs(t["toolface"]), abs(tf), 0.05, what=f"toolface of point {k}")
            if 0.01 < abs(da) < 179.9:
                check(t["toolface"] * da >= -1e-9,
                      lambda: f"toolface {t['toolface']} of a turn by {da}")
    return at


def points(secs):
    return [dict(md=float(t.md), inc=float(t.inc), azi=float(t.azi), dls=float(t.dls),
                 toolface=float(t.toolface), build=float(t.build_rate),
                 turn=float(t.turn_rate), x=float(t.location[0]),
                 y=float(t.location[1]), z=float(t.location[2])) for t in secs]


def run_plan(c):
    s, p, leg = plan_survey(c)
    if len(p.md) < 3 or (p.dl[1:][p.dl[1:] > 0] < 1e-4).any():
        raise Skip
    before = nev(s)
    secs = we.survey.get_sections(s)
    tp = points(secs)
    # the first is there twice, to tie on to
    close([tp[0][k] for k in ("md", "inc", "azi", "x", "y", "z")],
          [tp[1][k] for k in ("md", "inc", "azi", "x", "y", "z")], 0, what="tie on")
    tp = tp[1:]
    at = judge_rows(tp, s, p)
    ends = [0] + [k for k in range(1, len(leg)) if k == len(leg) - 1 or leg[k + 1] != leg[k]]
    check(at == ends, lambda: f"control points {at}, legs end at {ends}")
    # which are enough to follow the survey
    q = geo.Path([t["md"] for t in tp], [t["inc"] for t in tp],
                 [t["azi"] for t in tp], nev(s)[0])
    tol = 1e-2 + 1e-6 * (p.md[-1] - p.md[0])
    for k, md in enumerate(p.md):
        x, v = q.at(min(float(md), q.md[-1]))
        close(x, nev(s)[k], tol, what=f"plan through the control points at {md}")
        close(v, p.t[k], 1e-4, what=f"direction through the control points at {md}")
    close(nev(s), before, 0, what="survey")
    # the severity can start a section, too
    more = points(we.survey.get_sections(s, dls_cont=True))[1:]
    have = {t["md"] for t in more}
    check(have >= {t["md"] for t in tp}, "fewer points with dls_cont")
    judge_rows(more, s, p)
    return Info(len(ends) > 2, [s.unit, f"{min(len(ends) - 1, 4)} sections"])


def uneven(p):
    """Do successive intervals turn in one plane at different rates?"""
    for k in range(1, len(p.md) - 1):
        a, b = p.dl[k], p.dl[k + 1]
        if a < 1e-9 or b < 1e-9:
            continue
        u = np.cross(p.t[k - 1], p.t[k]) / math.sin(a)
        v = np.cross(p.t[k], p.t[k + 1]) / math.sin(b)
        if np.linalg.norm(u - v) < 1e-6 and abs(
                a / (p.md[k] - p.md[k - 1]) - b / (p.md[k + 1] - p.md[k])) > 1e-9:
            return True
    return False


@st.composite
def case_export(draw):
    if draw(st.booleans()):
        c = draw(case_plan())
        c["kind"] = "plan"
    else:
        c = draw(gens.stations(min_n=3, max_n=9, min_step=5))
        c["h"] = draw(gens.header(mag=False))
        c["start_nev"] = draw(gens.nev_offset)
        c["kind"] = "random"
    c["tol"] = draw(st.sampled_from([0.1, 0.01, 1.0, 5.0]))
    c["cont"] = draw(st.booleans())
    c["decimals"] = draw(st.sampled_from([3, 5, 1]))
    c["wrapper"] = draw(st.booleans())
    c["author"] = draw(st.sampled_from([None, "A. N. Other"]))
    return c


COLS = ["md", "inc", "azi", "y", "x", "z", "dls", "toolface", "build", "turn"]


def run_export(c):
    if c["kind"] == "plan":
        s, p, _ = plan_survey(c)
    else:
        from ..mk import grid_azi
        s = build(c)
        p = geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])
    if len(p.md) < 3 or (p.dl[1:][p.dl[1:] > 0] < 1e-4).any():
        raise Skip
    if (p.dl == 0).all() and np.sin(np.radians(s.inc_deg)).max() < 1e-6:
        pass
    before = nev(s)
    ex = export_csv2 if c["wrapper"] else we.survey.export_csv
    kw = dict(tolerance=c["tol"], dls_cont=c["cont"], decimals=c["decimals"])
    if c["author"]:
        kw["author"] = c["author"]
    df = ex(s, None, **kw)
    check(list(df.columns) == ["MD", "INC (deg)", "AZI (deg)", "NORTHING (m)",
                               "EASTING (m)", "TVDSS (m)", "DLS", "TOOLFACE",
                               "BUILD RATE", "TURN RATE"], f"columns {list(df.columns)}")
    rows = df.to_numpy(float)
    tp = [dict(zip(COLS, r)) for r in rows]
    judge_rows(tp, s, p)
    q = geo.Path(rows[:, 0], rows[:, 1], rows[:, 2], nev(s)[0])
    d = np.abs(q.pos[-1] - nev(s)[-1]).max()
    # without dls_cont, turns of different severity in one plane are taken as
    # one, whatever the tolerance
    check(d <= 2.05 * c["tol"] + 1e-3 or (not c["cont"] and uneven(p)),
          lambda: f"listing ends {d} from the survey's end, tolerance {c['tol']}")
    folder = tempfile.mkdtemp(prefix="vt_csv_")
    try:
        fn = os.path.join(folder, "plan.csv")
        r = ex(s, fn, **kw)
        with open(fn) as f:
            lines = f.read().splitlines()
    finally:
        shutil.rmtree(folder)
    k = [i for i, x in enumerate(lines) if x.startswith("MD,")]
    check(len(k) == 1, "one line of column names")
    k = k[0]
    check(lines[k].split(",") == list(df.columns), "column names in the file")
    check(lines[0].startswith("welleng, version: " + VERSION), "version line")
    check(lines[1] == "author, " + (c["author"] or "Jonny Corcutt"), "author line")
    for key, v in vars(s.header).items():
        check(any(x.startswith(f"{key}, ") for x in lines[:k]), f"header {key}")
    check(f"convergence, {s.header.convergence}" in lines[:k], "convergence")
    folder = tempfile.mkdtemp(prefix="vt_csv_")
    try:
        fn, f2 = os.path.join(folder, "a.csv"), os.path.join(folder, "b.csv")
        s.save(fn)
        we.survey.export_csv(s, f2)
        with open(fn) as f, open(f2) as g:
            x, y = ([r for r in h.read().splitlines() if not STAMP.search(r)]
                    for h in (f, g))
        check(x == y and len(x) > 5, "saved survey isn't its export")
    finally:
        shutil.rmtree(folder)
    got = np.array([[float(x) for x in y.split(",")] for y in lines[k + 1:]])
    close(got, rows, 0.5001 * 10.0 ** -c["decimals"], what="values in the file")
    for x in ",".join(lines[k + 1:]).split(","):
        check(len(x.split(".")[1]) == c["decimals"], f"{x} to {c['decimals']} decimals")
    close(nev(s), before, 0, what="survey")
    return Info(len(rows) > 2, [c["kind"], s.unit])


@st.composite
def case_df(draw):
    c = draw(gens.stations(min_n=2, max_n=8, long=True))
    c["h"] = draw(gens.header(mag=False, scale=True))
    c["start_nev"] = draw(gens.nev_offset)
    return c


def run_df(c):
    s = build(c)
    df = we.survey.survey_to_df(s)
    want = {
        "MD (m)": s.md, "INC (deg)": s.inc_deg, "AZI_GN (deg)": s.azi_grid_deg,
        "AZI_TN (deg)": s.azi_true_deg, "NORTHING (m)": s.pos_nev[:, 0],
        "EASTING (m)": s.pos_nev[:, 1], "TVDSS (m)": s.pos_nev[:, 2],
        "X (m)": s.pos_xyz[:, 0], "Y (m)": s.pos_xyz[:, 1],
        "Z (m)": s.pos_xyz[:, 2], "DLS (deg/30m)": s.dls}
    for k, v in want.items():
        close(df[k].to_numpy(float), v, 0, what=k)
    close(angdiff(np.radians(df["TOOLFACE (deg)"].to_numpy(float)), s.toolface),
          np.zeros(len(s.md)), 1e-9, what="toolface")
    t = df["TOOLFACE (deg)"].to_numpy(float)
    check((t >= 0).all() and (t <= 360).all(), f"toolfaces {t}")
    for k, v in (("BUILD RATE (deg)", s.build_rate), ("TURN RATE (deg)", s.turn_rate)):
        x = df[k].to_numpy(float)
        check(np.isfinite(x).all(), f"{k} isn't finite")
        v = np.asarray(v, float)
        close(x[np.isfinite(v)], v[np.isfinite(v)], 1e-12, what=k)
    # nodes
    for i in range(len(s.md)):
        n = we.survey.get_node(s, i)
        close(n.pos_nev, nev(s)[i], 1e-9, what="position of node")
        close(n.vec_nev, s.vec_nev[i], 1e-9, what="direction of node")
        close(n.md, s.md[i], 0, what="md of node")
        check(n.unit == s.unit, "unit of node")
    return Info(s.dogleg.max() > 1e-3)


# ---- plan of a drilled survey ----------------------------------------------
@st.composite
def case_drilled(draw):
    c = draw(gens.stations(min_n=3, max_n=8, max_dinc=8, max_dazi=8, max_inc=100,
                           min_step=100, max_step=250))
    c["h"] = draw(gens.header(unit=("meters",), mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["tol"] = draw(st.sampled_from([None, 0.0, 0.001, 0.005, 0.02]))
    c["dls"] = draw(st.sampled_from([30.0, 45.0, 60.0]))
    return c


def run_drilled(c):
    s = build(c)
    P, T, md = nev(s).copy(), np.array(s.vec_nev, float), np.array(s.md, float)
    N = np.asarray(s.get_nev_arr(), float)
    kw = {}
    if c["tol"] is not None:
        kw["tolerance"] = c["tol"]
    if c["dls"] is not None:
        kw["dls_design"] = c["dls"]
    secs = we.connector.survey_to_plan(s, **kw)
    check(len(secs) > 0, "no sections")
    pos, vec, z, at = P[0], T[0], md[0], 0
    for k, x in enumerate(secs):
        close(x.node_start.pos_nev, pos, 1e-3, what=f"start of section {k}")
        close(x.node_start.vec_nev, vec, 1e-6, what=f"direction at start of section {k}")
        close(x.node_start.md, z, 1e-6, what=f"depth at start of section {k}")
        e = x.node_end
        j = at + 1 + int(np.linalg.norm(P[at + 1:] - e.pos_nev, axis=1).argmin())
        close(e.pos_nev, P[j], 2e-3, what=f"end of section {k} at a station")
        close(e.vec_nev, T[j], 1e-4, what=f"direction at end of section {k}")
        check(e.md - z >= np.linalg.norm(P[j] - pos) - 1e-3,
              f"section {k} is shorter than its chord")
        tol = 0.2 if c["tol"] is None else c["tol"]
        if k < len(secs) - 1 and j - at > 3:
            # a longer section fits the stations it passes, growing by less
            # than the tolerance with each
            q = np.asarray(we.survey.from_connections(x, step=1).get_nev_arr(), float)
            d = [np.linalg.norm(q - y, axis=1).min() for y in P[at:j]]
            fit = sum(d) / (e.md - z)
            check(fit <= (j - at) * tol + 1e-4,
                  lambda: f"section {k} misses by {fit} a metre")
        m = len(md) - 3
        if k == len(secs) - 1 and m - at > 1:
            # the last section takes the last stations as they come, but was
            # tried against the ones before
            y = we.connector.Connector(
                node1=x.node_start, node2=we.node.Node(pos=P[m], vec=T[m]),
                dls_design=c["dls"])
            q = np.asarray(we.survey.from_connections(y, step=1).get_nev_arr(), float)
            d = [np.linalg.norm(q - v, axis=1).min() for v in P[at:m]]
            fit = sum(d) / (y.node_end.md - z)
            check(fit <= (m - at) * tol + 1e-4,
                  lambda: f"the last section, from station {at}, misses by {fit} a "
                          f"metre up to station {m}")
        pos, vec, z, at = e.pos_nev, e.vec_nev, e.md, j
        if k < len(secs) - 1:
            check(at < len(md) - 1, "the survey ends before the plan")
    check(at == len(md) - 1, f"plan ends at station {at} of {len(md)}")
    full = we.survey.from_connections(secs, step=30)
    # each section, for what it passes over
    F = np.asarray(full.get_nev_arr(), float)
    close(F[0], P[0], 1e-3, what="start of the plan as a survey")
    close(F[-1], P[-1], 5e-3, what="end of the plan as a survey")
    close(nev(s), P, 0, what="survey")
    try:
        we.connector.survey_to_plan(s, dls_design=0.0)
    except AssertionError:
        pass
    else:
        check(False, "a severity of zero was accepted")
    if c["tol"] == 0.0:
        check(len(secs) >= (len(md) - 1) // 3, f"{len(secs)} sections without tolerance")
    return Info(len(secs) > 1, [f"{min(len(secs), 3)} sections"])


PROP = Prop("P28", [
    Facet("drilled", case_drilled(), run_drilled, 150,
          rule="random wells drawn as plans with tight turns; non-trivial: two or "
               "more sections"),
    Facet("plan", case_plan(), run_plan, 600,
          rule="plans of clearly separate holds and turns, several stations on each; "
               "non-trivial: two or more sections"),
    Facet("export", case_export(), run_export, 250,
          rule="plans and random wells exported to a frame and a file"),
    Facet("table", case_df(), run_df, 200, rule="random wells as a table and nodes"),
])
