"""P35 validators pass what agrees and flag what doesn't."""
import contextlib
import io as sio
import json
import math
import os
import sys
import warnings

import numpy as np
from hypothesis import strategies as st
from openpyxl import Workbook

from .. import boot, gens
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from ..mk import make_header
from ..weights import FORMULAS, bindings, evaluate, stations
from .p15 import NAMES, domain, em_case
from .p34 import HLA, NEV, model_sheet, put, scratch
from welleng.errors import conformance, copsegrove_validate, iscwsa_validate

# ----------------------------------------------------------------- workbooks

MWD = [n for n in NAMES if "Rev" in n] * 15 + NAMES
KINDS = ["same", "same", "same", "rel in", "abs in", "rel out", "abs out", "zero",
         "all rel in"]


@st.composite
def case_book(draw):
    c = draw(em_case(max_n=7, names=MWD, unit=("meters",)))
    c["ft"] = draw(st.sampled_from([None, None, 0.3048, 0.304800609601]))
    c["tol"] = draw(st.sampled_from([[1e-3, 1e-6], [1e-2, 1e-6], [1e-5, 1e-4],
                                     [1e-3, 1e-3]]))
    n = len(c["md"])
    c["rows"] = draw(st.lists(st.fixed_dictionaries({
        "i": st.integers(0, n), "t": st.integers(0, 60), "k": st.sampled_from(KINDS),
        "c": st.integers(0, 5), "s": st.sampled_from([1, -1]),
        "by": st.sampled_from([2.0, 5.0, 100.0])}), max_size=8))
    c["totals"] = draw(st.lists(st.fixed_dictionaries({
        "k": st.sampled_from(KINDS), "c": st.integers(0, 5),
        "s": st.sampled_from([1, -1]), "by": st.sampled_from([2.0, 5.0, 100.0])}),
        min_size=n, max_size=n))
    c["unknown"] = draw(st.lists(st.sampled_from(["QQQ", "ZZ-1", "ODD"]), unique=True))
    c["drop"] = draw(st.integers(0, 60))
    c["off"] = draw(st.integers(0, 3)) == 0
    return c


def pack(m):
    return np.array([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[0, 2], m[1, 2]])


def spoil(v, r, tol):
    """The workbook's values for the true values v, and whether they agree."""
    rel, ab = tol
    w, k, i = v.copy(), r["k"], r["c"]
    if k == "rel in":
        w[i] /= 1 + 0.4 * rel * r["s"]
    elif k == "all rel in":
        w /= 1 + 0.4 * rel * r["s"]
    elif k == "abs in":
        w[i] += 0.4 * ab * r["s"]
    elif k == "rel out":
        w[i] *= 1 + r["by"] * rel * r["s"]
    elif k == "abs out":
        w[i] += r["by"] * ab * r["s"]
    elif k == "zero":
        w[i] = 0.0
    d = np.abs(v - w)
    small, near = ab - d, rel * np.abs(w) - d
    edge = (np.abs(small) < 0.05 * ab) & (near < 0.05 * rel * np.abs(w)) | \
        (np.abs(near) < 0.05 * rel * np.abs(w)) & (small < 0.05 * ab)
    return w, bool(((small > 0) | (near > 0)).all()), bool(edge.any())


def relative(g, expected, what):
    """The reported relative error is the largest where a value is expected."""
    on = np.abs(expected) > 0
    r = np.abs(g.welleng - expected)[on] / np.abs(expected)[on]
    close(g.max_rel_err, r.max(initial=0.0), 1e-12, 1e-6, what=f"relative error of {what}")


def worst(line, rows):
    """The line of a summary shows the largest error and where it is."""
    v = dict(x.split("=") for x in line.replace("= ", "=").split() if "=" in x)
    m = max(g.max_abs_err for g in rows)
    close(float(v["abs"]), m, 1e-300, 1e-3, what=f"worst error of {line}")
    check(any(abs(g.md - float(v["md"])) <= 1e-4 * abs(g.md) + 1e-3
              and g.max_abs_err >= m * (1 - 1e-3)
              and abs(g.max_rel_err - float(v["rel"])) <= 1e-3 * abs(g.max_rel_err)
              for g in rows), lambda: f"worst row of {line}")


@scratch
def run_book(c, d):
    domain(c)
    h, k = c["h"], c["ft"] or 1.0
    shown = [m / k for m in c["md"]]                  # in the unit of the workbook
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = we.survey.Survey(
            md=[m * k for m in shown], inc=c["inc"], azi=c["azi"],
            error_model=c["model"],
            header=we.survey.SurveyHeader(
                latitude=h["latitude"], G=h["G"], b_total=h["b_total"],
                dip=h["dip"], declination=h["declination"], convergence=0.0,
                azi_reference="true"))
    terms = s.err.errors.errors
    if not terms:
        raise Skip
    names = sorted(terms)
    left = [x for j, x in enumerate(names) if j != c["drop"] % (len(names) + 1)]
    n = len(c["md"])
    wb = Workbook()
    ts = [{"code": x, "text": "t", "fn": "DREF", "ref": None, "type": "Depth",
           "mag": 1.0, "unit": "m", "prop": "R", "p": [0, 0, 0], "note": None,
           "f": [1, 0, 0], "sing": [None] * 3, "conv": None}
          for x in left + c["unknown"]]
    model_sheet(wb.create_sheet("Model"), [["OWSG Prefix", "A1"], ["Short Name", "X"]],
                ts)
    ws = wb.create_sheet("Wellpath")
    for j, (a, v) in enumerate([
            ("Well", "w"), ("Latitude (deg)", h["latitude"]), ("G (m/s2)", h["G"]),
            ("Btotal (nT)", h["b_total"]), ("Dip (deg)", h["dip"]),
            ("Declination (deg)", h["declination"]),
            ("Depth Units", "ft" if c["ft"] else "m"), ("Feet to Metres", c["ft"])]):
        put(ws, 1 + j, 1, a)
        put(ws, 1 + j, 2, v)
    ws.merge_cells("E1:I1")
    put(ws, 1, 5, "INPUT WELLPATH")
    for j, t in enumerate(["MD", "Inc", "Az", "TVD", "Toolface"]):
        put(ws, 2, 5 + j, t)
    for i in range(n):
        for j, v in enumerate([shown[i], c["inc"][i], c["azi"][i], 0.0]):
            put(ws, 3 + i, 5 + j, v)
    ws = wb.create_sheet("TOTALS")
    put(ws, 1, 2, "Covariance")
    put(ws, 1, 8, "Covariance")
    for j, t in enumerate(["Md", *NEV, *HLA]):
        put(ws, 2, 1 + j, t)
    tot = []
    for i in range(n):
        v = pack(s.cov_nev[i])
        tot.append((v, *spoil(v, c["totals"][i], c["tol"])))
        for j, x in enumerate([shown[i], *tot[-1][1].tolist(), *[0.0] * 6]):
            put(ws, 3 + i, 1 + j, x)
    ws = wb.create_sheet("Validation")
    put(ws, 1, 3, "Diagnostic Values")
    for j, t in enumerate(["MD", "Source", *NEV, *NEV, *NEV]):
        put(ws, 2, 1 + j, t)
    rows = []
    for q, r in enumerate(c["rows"]):
        known = r["t"] % (len(names) + 1) < len(names)
        x = names[r["t"] % (len(names) + 1)] if known else "NOT-THERE"
        i = min(r["i"], n - 1)
        off = r["i"] == n and c["off"]
        v = pack(terms[x].cov_NEV[i]) if known else np.ones(6)
        w, ok, edge = spoil(v, r, c["tol"])
        for j, y in enumerate([shown[i] + (7.5e4 if off else 0.0), x,
                               *np.round(v, 4).tolist(), *w.tolist(), *[0.0] * 6]):
            put(ws, 3 + q, 1 + j, y)
        if known and not off:
            rows.append((x, shown[i], v, w, ok, edge))
    del wb["Sheet"]
    fn = os.path.join(d, "w.xlsx")
    wb.save(fn)
    rel, ab = c["tol"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rep = iscwsa_validate.validate_workbook(fn, c["model"], tolerance_rel=rel,
                                                tolerance_abs=ab)
    check(sorted(rep.missing_in_welleng) == sorted(c["unknown"]),
          lambda: f"missing {rep.missing_in_welleng}")
    got = list(rep.per_source)
    check([g.code for g in got] == [r[0] for r in rows],
          lambda: f"sources {[g.code for g in got]}, not {[r[0] for r in rows]}")
    good = {}
    unsure = False
    for g, (x, md, v, w, ok, edge) in zip(got, rows):
        top = np.abs(v).max() + 1e-9
        top = max(np.abs(v).max(), np.abs(w).max()) + 1e-9
        close(g.calculated, w, 1e-12 * top, what=f"calculated {x}")
        close(g.diagnostic, np.round(v, 4), 1e-9 * top, what=f"diagnostic {x}")
        close(g.welleng, v, 1e-7 * top, what=f"values of {x}")
        close(g.max_abs_err, np.abs(v - w).max(), 1e-7 * top, what=f"error of {x}")
        relative(g, g.calculated, x)
        close(g.md, md, 1e-9, what=f"depth of {x}")
        if edge:
            unsure = True
            continue
        check(bool(g.ok) == ok, lambda: f"{x} at {md}: {'passes' if g.ok else 'fails'} "
                                        f"for {w.tolist()}, being {v.tolist()}")
        good[x] = good.get(x, True) and ok
    pf = rep.source_pass_fail()
    if not unsure:
        check({a: bool(b) for a, b in pf.items()} == good, lambda: f"{pf}, not {good}")
    check(len(rep.totals) == n, f"{len(rep.totals)} totals")
    bad_tot = 0
    for i, (g, (v, w, ok, edge)) in enumerate(zip(rep.totals, tot)):
        top = np.abs(v).max() + 1e-9
        close(g.workbook, w, 1e-12 * top, what="total of the workbook")
        close(g.welleng, v, 1e-7 * top, what="total")
        close(g.max_abs_err, np.abs(v - w).max(), 1e-7 * top, what="error of a total")
        close(g.md, c["md"][i], 1e-6, what="depth of a total, in metres")
        relative(g, g.workbook, "a total")
        if not edge:
            check(bool(g.ok) == ok, lambda: f"total {i} {'passes' if g.ok else 'fails'} "
                                            f"for {w.tolist()}, being {v.tolist()}")
            bad_tot += not ok
    text = rep.summary()
    for x, ok in good.items():
        line = [q.split() for q in text.splitlines() if q.split()[1:2] == [x]]
        if not unsure:
            check(line and line[0][0] == ("PASS" if ok else "FAIL"),
                  lambda: f"summary of {x}: {line}")
    for x in {g.code for g in got}:
        line = [q for q in text.splitlines() if q.split()[1:2] == [x]]
        check(len(line) == 1, lambda: f"lines of {x} in the summary: {line}")
        worst(line[0], [g for g in got if g.code == x])
    line = [q for q in text.splitlines() if "stations pass" in q]
    check(len(line) == 1, lambda: f"totals of the summary: {line}")
    worst(line[0], rep.totals)
    check(line[0].split()[0] == f"{sum(bool(g.ok) for g in rep.totals)}/{n}",
          lambda: f"summary of the totals: {line}")
    listed = {q.split()[1] for q in text.splitlines() if q.split()[:1] == ["-"]}
    check(listed == set(c["unknown"]), lambda: f"not modelled: {listed}")
    out = sio.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        rc = iscwsa_validate.main([fn, "--model", c["model"], "--tol-rel", str(rel),
                                   "--tol-abs", str(ab)])
    if not unsure:
        check(rc == (0 if all(good.values()) else 1), f"exit {rc} for {good}")
    return Info(len(good) > 0, [
        "all agree" if all(good.values()) and not bad_tot else "disagreements",
        "feet" if c["ft"] else "metres"])


# --------------------------------------------------------------- conformance

LEGACY = ["ABZ", "ABXY-TI1", "AMID", "ASIXY-TI1", "ASIXY-TI2", "ASIXY-TI3", "ASXY-TI1",
          "ASXY-TI2", "ASXY-TI3", "ASZ", "AZ", "CNI", "DBH", "DREF", "DSF", "DST",
          "MBIXY-TI1", "MBIXY-TI2", "MBXY-TI1", "MBXY-TI2", "MBZ", "MDI",
          "MSIXY-TI1", "MSIXY-TI2", "MSIXY-TI3", "MSXY-TI1", "MSXY-TI2", "MSXY-TI3",
          "MSZ", "SAG", "SAGE", "XYM1", "XYM2", "ABIZ", "ASIZ"]
LEGACY = [x for x in LEGACY if x in FORMULAS]
SI = {"m": 1, "-": 1, "1/m": 1, "nT": 1, "m/s2": 1, "rad": 1, "deg": math.pi / 180,
      "deg/hr": math.pi / 180, "deg/nT": math.pi / 180}


@st.composite
def case_conf(draw):
    c = draw(em_case(names=["ISCWSA MWD Rev5.11"], unit=("meters",)))
    c["inc"] = [max(1.0, min(i, 85.0)) for i in c["inc"]]
    c["cli"] = draw(st.integers(0, 2)) == 0
    c["terms"] = [{
        "fn": draw(st.sampled_from(LEGACY)), "kind": draw(st.sampled_from(
            ["own", "own", "scaled", "one axis", "other", "bad", "name", "no legacy",
             "named"])),
        "mag": draw(st.one_of(gens.q(-5, 5, 0.001), st.sampled_from([2.5e-7, 130.0]))),
        "unit": draw(st.sampled_from(sorted(SI))), "by": draw(gens.q(-1, 1, 0.001)),
        "axis": draw(st.integers(0, 2)), "fn2": draw(st.sampled_from(LEGACY)),
        "var": draw(st.sampled_from(["Sin(Inc)", "Sin(Inc)", "Cos(Latitude)", "Gfield",
                                     "EarthRate * Sin(AzM)", "RAD", "BField / 5e4",
                                     "Tan(Dip)", "TVD / 1e3", "MD * Cos(Az)"])),
        "mode": draw(st.sampled_from(["Random", "Systematic", "Global", "Well"]))}
        for _ in range(draw(st.integers(1, 8)))]
    return c


@scratch
def run_conf(c, d):
    domain(c)
    js, want = [], []
    b = bindings(c, stations(c))
    for k, t in enumerate(c["terms"]):
        f = list(FORMULAS[t["fn"]])
        if t["kind"] == "scaled":
            f = [f"({x}) * {1 + t['by']}" for x in f]
        elif t["kind"] == "one axis":
            f[t["axis"]] = f"({f[t['axis']]}) + {t['by']} * {t['var']}"
        elif t["kind"] == "other":
            f = list(FORMULAS[t["fn2"]])
        elif t["kind"] == "bad":
            f[t["axis"]] = "Sin(Inc"
        elif t["kind"] == "name":
            f[t["axis"]] = "NoiseReductionFactor * 2"
        name = t["fn"] if t["kind"] == "named" else f"T{k}"
        j = {"name": name, "value": t["mag"], "units": t["unit"],
             "propagation_mode": t["mode"], "depth_formula": f[0],
             "inclination_formula": f[1], "azimuth_formula": f[2],
             "x_owsg_weight_function": "NOT-A-FN" if t["kind"] == "no legacy"
             else None if t["kind"] == "named" else t["fn"]}
        if t["kind"] == "named":
            del j["x_owsg_weight_function"]
        js.append(j)
        if t["kind"] in ("bad", "name"):
            want.append((name, False, False, None, None))
        elif t["kind"] == "no legacy":
            want.append((name, False, True, None, None))
        else:
            m = t["mag"] * SI[t["unit"]]
            A = np.column_stack([evaluate(x, b) for x in FORMULAS[t["fn"]]]) * m
            B = np.column_stack([evaluate(x, b) for x in f]) * m
            want.append((name, True, True, A, B))
    fn = os.path.join(d, "m.json")
    with open(fn, "w") as f:
        json.dump({"terms": js}, f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"],
                             header=make_header(c["h"]), start_nev=c["start_nev"])
        got = conformance.compare_model(fn, s)
    check([g.name for g in got] == [w[0] for w in want], "terms of the model")
    hits = 0
    for g, (name, leg, ok, A, B), t in zip(got, want, c["terms"]):
        check(bool(g.interp_available) == ok, lambda: f"{name} evaluates: {g}")
        check(bool(g.legacy_available) == leg, lambda: f"{name} has a function: {g}")
        check(g.n_stations == len(c["md"]), "stations")
        if not leg:
            check(math.isnan(g.max_abs_diff), lambda: f"difference of {g}")
            check(g.note != "", "no note")
            continue
        diff = np.abs(A - B)
        top = max(np.abs(A).max(), np.abs(B).max())
        # (a formula that cancels, or the sine of a whole turn, is rounding)
        noise = 1e-13 * abs(t["mag"]) * SI[t["unit"]]
        close(g.max_abs_diff, diff.max(), 1e-9 * top + noise + 1e-300,
              what=f"difference of {t['fn']} {t['kind']}")
        big = np.abs(A) > 1e-6 * top
        if big.any() and top > 1e6 * noise:
            r = (diff[big] / np.abs(A[big])).max()
            check(g.max_rel_diff >= r * (1 - 1e-6) - 1e-6,
                  lambda: f"relative difference {g.max_rel_diff} of {r}")
        if t["kind"] == "scaled" and t["by"] and top > 0:
            hits += 1
    if c["cli"]:
        cli(fn, [j["name"] for j in js])
    return Info(hits > 0 or any(t["kind"] in ("other", "one axis") for t in c["terms"]))


def cli(fn, names):
    """The printed report has a line for each term, with its verdict on the standard
    well, and counts them."""
    out, argv = sio.StringIO(), sys.argv
    try:
        sys.argv = ["conformance", "--json", fn]
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            conformance.main()
            rs = conformance.compare_model(fn, conformance.standard_test_survey())
    finally:
        sys.argv = argv
    lines = [x.split() for x in out.getvalue().splitlines()]
    at = [k for k, x in enumerate(lines) if x[:1] == ["term"]]
    check(len(at) == 1, lambda: f"report {out.getvalue()}")
    body = lines[at[0] + 1:at[0] + 1 + len(names)]
    check([x[0] for x in body] == names, lambda: f"terms of {out.getvalue()}")
    counts = {}
    for x, r in zip(body, rs):
        v = ("INTERP_FAILED" if not r.interp_available else "NO_LEGACY"
             if not r.legacy_available else "MATCH" if r.max_abs_diff < 1e-10 else
             "NEAR_MATCH" if r.max_abs_diff < 1e-6 else "DIFFER")
        counts[v] = counts.get(v, 0) + 1
        check(x[2] == v, lambda: f"verdict {x}, not {v}")
        if math.isnan(r.max_abs_diff) and v == "DIFFER":
            check(x[3] == "nan", lambda: f"difference in {x}")
        elif v in ("MATCH", "NEAR_MATCH", "DIFFER"):
            close(float(x[3]), r.max_abs_diff, 1e-300, 0.01, what=f"difference in {x}")
        else:
            check(x[3] == "n/a", lambda: f"difference in {x}")
    last = " ".join(lines[at[0] + 1 + len(names)])
    for v, k in counts.items():
        check(f"{v}={k}" in last.split(), lambda: f"{counts} counted as {last}")
    check(f"(of {len(names)} terms)" in last, lambda: f"counts {last}")


# the standard well of the conformance report: the test well of the data it reads
FIELDS = ["md", "latitude", "b_total", "dip", "declination", "convergence", "G",
          "azi_reference"]     # (inc and azi: known findings)


def run_standard(c):
    path = os.path.join(boot.REPO, "tests", "test_data",
                        "error_mwdrev5_1_iscwsa_data.json")
    with open(path) as f:
        d = json.load(f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = conformance.standard_test_survey()
    w = c["field"]
    if w in ("md", "inc", "azi"):
        got = {"md": s.md, "inc": s.inc_deg, "azi": s.azi_true_deg}[w]
        close(got, np.array(d["survey"][w], float), 1e-9, what=f"{w} of the standard well")
    elif w == "azi_reference":
        check(s.header.azi_reference == d["header"][w], w)
    else:
        close(getattr(s.header, w), d["header"][w], 1e-9, 1e-9,
              what=f"{w} of the standard well")
    return Info(True, [w])


# ---------------------------------------------------------------- copsegrove

SHAPES = ["0", "1", "Sin(Inc)", "Cos(Inc) * 0.5", "MD / 1000", "Sin(AzT) * Cos(Inc)",
          "1 / Gfield", "Cos(AzM) * Tan(Dip)", "Sin(Latitude)", "50000 / BField",
          "EarthRate * Cos(Latitude)", "Abs(Cos(Inc)) * Sin(Az)", "Max(Sin(Inc), 0.5)",
          "Inc * RAD ^ 0.5"]
NAN = "Sqr(Cos(Inc))"


@st.composite
def case_cops(draw):
    n = draw(st.integers(1, 6))
    c = {"st": [[draw(gens.q(0, 5000)), draw(st.one_of(st.just(0.0), gens.q(0, 120))),
                 draw(gens.q(0, 359))] for _ in range(n)],
         "lat": draw(gens.q(-80, 80)), "b": draw(gens.q(20000, 66000, 1)),
         "dip": draw(gens.q(-80, 80)), "G": draw(gens.q(9.77, 9.84, 0.0001)),
         "tol": draw(st.sampled_from([5e-4, 5e-4, 1e-2, 2e-4])), "terms": []}
    for k in range(draw(st.integers(1, 6))):
        c["terms"].append({
            "f": [draw(st.sampled_from(SHAPES + [NAN] * (j == 1))) for j in range(3)],
            "mag": draw(st.one_of(gens.q(-3, 3, 0.01), gens.q(0, 3, 0.01))),
            "mode": draw(st.sampled_from(["Random"] * 5 + ["Systematic", "Global",
                                                           "Well", "Odd"])),
            "kind": draw(st.sampled_from(["ok"] * 6 + ["bad", "absent"])),
            "on": [draw(st.integers(0, 4)) > 0 for _ in range(n)],
            "off": draw(st.sampled_from([0, 0, 0.3, 2.0, 4.0, 8.0, 40.0])),
            "at": [draw(st.integers(0, n - 1)), draw(st.integers(0, 2)),
                   draw(st.sampled_from([1, -1]))]})
    return c


@scratch
def run_cops(c, d):
    md, inc, azi = (np.array(x, float) for x in zip(*c["st"]))
    b = dict(MD=md, Inc=np.radians(inc), Az=np.radians(azi), AzT=np.radians(azi),
             AzM=np.radians(azi), TVD=md, Gfield=c["G"], Dip=math.radians(c["dip"]),
             BField=c["b"], EarthRate=0.262516, Latitude=math.radians(c["lat"]),
             RAD=math.pi / 180)
    js, shown, want = [], [{} for _ in md], []
    for k, t in enumerate(c["terms"]):
        name = "TERM%d" % k
        f = list(t["f"])
        true = np.abs(np.column_stack([evaluate(f[j], b) for j in (1, 2, 0)])) * t["mag"]
        if t["kind"] == "bad":
            f[0] = "Sin(Inc"
        js.append(dict(name=name, value=t["mag"], units="m",
                       propagation_mode=t["mode"], depth_formula=f[0],
                       inclination_formula=f[1], azimuth_formula=f[2]))
        file = np.where(np.isfinite(true), true, 0.0)
        file[t["at"][0], t["at"][1]] += t["at"][2] * t["off"] * c["tol"]
        on = [] if t["kind"] == "absent" else [i for i in range(len(md)) if t["on"][i]]
        for i in on:
            shown[i][name] = ["%.4f" % x for x in file[i]]
        if t["mode"] != "Random":
            v = "UNKNOWN_PROP" if t["mode"] == "Odd" else "DEFERRED"
        elif t["kind"] == "bad":
            v = "INTERP_FAIL"
        elif not on:
            v = "NOT_IN_COPSEGROVE"
        else:
            dd = np.abs(true[on] - np.array([[float(x) for x in shown[i][name]]
                                             for i in on]))
            m = dd.max()
            v = ("nan" if np.isnan(m) else "MATCH" if m <= c["tol"] else
                 "NEAR_MATCH" if m <= 5 * c["tol"] else "DIFFER")
            if v != "nan" and min(abs(m - c["tol"]), abs(m - 5 * c["tol"])) < 1e-9:
                v = None
            shw = np.array([[float(x) for x in shown[i][name]] for i in on])
            nz = np.abs(shw) > 0
            r, small = None, 1.0
            if not np.isnan(m) and nz.any():
                r, small = (dd[nz] / np.abs(shw)[nz]).max(), np.abs(shw)[nz].min()
            want.append((v, m, len(on), r, small))
            continue
        want.append((v, None, None, None, 1.0))
    fn = os.path.join(d, "m.json")
    with open(fn, "w") as f:
        json.dump({"terms": js}, f)
    lines = []
    for i in range(len(md)):
        lines.append("Source   Row         H/S         LAT         A/H")
        for name, v in shown[i].items():
            lines.append("%-8s svy  %10s  %10s  %10s  %10.4f" % (name, *v, 0.0))
            lines.append("%-8s dep  %10.4f  %10.4f  %10.4f  %10.4f" % ("", 9, 9, 9, 9))
        lines.append("%.2f        Inc: %.2f       Az (True): %.2f  TF: 0.00"
                     % (md[i], inc[i], azi[i]))
        lines.append("NEV Covariance Matrix Terms")
    txt = os.path.join(d, "x.txt")
    with open(txt, "w") as f:
        f.write("\n".join(lines) + "\n")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = copsegrove_validate.validate_random_terms(
            fn, txt, latitude_deg=c["lat"], b_total=c["b"], dip_deg=c["dip"], G=c["G"],
            abs_tol=c["tol"])
    check([g.name for g in got] == [j["name"] for j in js], "terms of the model")
    for g, (v, m, n, r, small), t in zip(got, want, c["terms"]):
        check(g.propagation_mode == t["mode"], lambda: f"mode of {g}")
        if v == "nan":
            check(g.verdict not in ("MATCH", "NEAR_MATCH"),
                  lambda: f"a term without a value is a match: {g}")
            continue
        if v is not None:
            check(g.verdict == v, lambda: f"{t} is {g}, not {v}")
        if m is not None:
            close(g.max_abs_diff, m, 1e-9, what=f"difference of {g}")
            check(g.n_stations == n, lambda: f"stations of {g}")
            if r is not None:
                close(g.max_rel_diff, r, 1e-9, 1e-6 + 1e-9 / small,
                      what=f"relative difference of {g}")
        else:
            check(math.isnan(g.max_abs_diff), lambda: f"difference of {g}")
            check(bool(g.note), lambda: f"no note: {g}")
    vs = {w[0] for w in want}
    return Info(bool(vs & {"MATCH", "NEAR_MATCH", "DIFFER", "nan"}),
                sorted(str(v) for v in vs))


PROP = Prop("P35", [
    Facet("workbooks", case_book(), run_book, 160,
          rule="rows that were compared"),
    Facet("conformance", case_conf(), run_conf, 400,
          rule="a formula that differs from the function"),
    Facet("copsegrove", case_cops(), run_cops, 400, rule="terms that were compared"),
    Facet("standard", st.sampled_from(FIELDS).map(lambda w: {"field": w}), run_standard,
          40, rule="each field of the standard well, against the data"),
])
