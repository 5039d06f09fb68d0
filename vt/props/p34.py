"""P34 published workbooks and diagnostics are read as written."""
import datetime
import json
import math
import os
import shutil
import tempfile
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st
from openpyxl import Workbook

from .. import gens
from ..boot import REPO, we
from ..core import Facet, Info, Prop, Skip, check, close
from welleng import io
from welleng.errors import (copsegrove, extract_iscwsa_codes as rev, iscwsa_ingest,
                            extract_owsg_codes_generic as owsg)
from welleng.errors.tools import owsg_to_json

LONG = {"R": "random", "S": "systematic", "G": "global", "W": "within_pad"}
JSON_MODE = {"R": "Random", "S": "Systematic", "G": "Global", "W": "Well"}
UNITS = ["m", "-", "1/m", "nT", "m/s2", "deg", "deg/nT", "deg/hr", "rad"]
FN = ["DREF", "DSF", "ABXY-TI1", "XYM3E", "AXYZ-MIS", "SAGE", "MBXY-TI2"]
FORMULA = ["MD", "MD * TVD", "-Cos(Inc) / Gfield", "Sin(AzM) * 2", "1 / (BField)"]
text = st.text("abcXYZ 019-.+/()#", min_size=1, max_size=12).map(
    lambda s: "t" + s.strip())
num = st.one_of(st.just(0.0), gens.q(-50, 50, 0.0001), st.integers(-9, 9),
                st.sampled_from([2.5e-7, 0.00056, 1e-9, 130.0]))


@st.composite
def term(draw, k):
    form = st.one_of(st.none(), st.just(0), st.just(1), st.sampled_from(FORMULA))
    return {"code": "%s%d%s" % (draw(st.sampled_from(
        ["DRF", "ABXY-TI", "XYM", "DEC-O", "AMIL", "X"])), k, draw(
            st.sampled_from(["", "S", "-R", "E"]))),
            "text": draw(text), "fn": draw(st.sampled_from(FN)),
            "ref": draw(st.one_of(st.none(), text)),
            "type": draw(st.sampled_from(["Depth", "Sensor", "Align", "AziRef"])),
            "mag": draw(num), "unit": draw(st.sampled_from(UNITS)),
            "prop": draw(st.sampled_from("RSGW")),
            "p": [draw(st.one_of(st.none(), st.integers(0, 2))) for _ in range(3)],
            "note": draw(st.one_of(st.none(), text)),
            "f": [draw(form) for _ in range(3)],
            "sing": [draw(st.one_of(st.none(), st.just(0), st.sampled_from(FORMULA)))
                     for _ in range(3)],
            "conv": draw(st.one_of(st.none(), st.booleans()))}


@st.composite
def terms(draw, n=(1, 7)):
    out = [draw(term(k)) for k in range(draw(st.integers(*n)))]
    if draw(st.integers(0, 3)) == 0 and len(out) > 1:
        out[-1]["code"] = "XCLL"
    return out


HEAD = ["Short Name", "Long Name", "Revision No", "Revision Comment", "Source",
        "Application", "Tool Type", "Status", "Checked", "Approved", "Notes",
        "Revision Date"]


@st.composite
def head(draw):
    h = [["OWSG Prefix", draw(text)]]
    most = draw(st.sampled_from([0, 0, 4]))
    for k in HEAD:
        if draw(st.integers(0, 5)) <= most and k != "Short Name":
            continue
        if k == "Revision No":
            v = draw(st.sampled_from([5, 5.1, 4, 0]))
        elif k == "Revision Date":
            v = [draw(st.integers(1990, 2030)), draw(st.integers(1, 12)),
                 draw(st.integers(1, 28))]
        elif k == "Tool Type":
            v = draw(st.sampled_from(["MWD", "Gyro", "Inertial", "Magnetic", "odd one"]))
        else:
            v = draw(st.one_of(text, text, st.none()))
        h.append([k, v])
    h.append(["Inclination Range Min", draw(st.sampled_from(["0 deg", "3 deg", "10 deg"]))])
    h.append(["Inclination Range Max", draw(st.sampled_from(["180 deg", "89 deg", "17 deg"]))])
    if draw(st.booleans()):
        h.append([draw(text), draw(text)])
    return h


def value(v):
    return datetime.datetime(*v) if isinstance(v, list) else v


TITLES = ["No", "Code", "Term Description", "Wt.Fn.", "Wt.Fn. Source", "Type",
          "Magnitude", "Units", "Prop.", "P1", "P2", "P3", "Wt.Fn. Comment",
          "Depth Formula", "Inclination Formula", "Azimuth Formula",
          "Singularity North Formula", "Singularity East Formula",
          "Singularity Vert. Formula", "Convert Magnitudes Degrees to Radians"]


def put(ws, r, c, v):
    if v is not None:
        ws.cell(row=r, column=c, value=v)


def term_row(k, t):
    return [k + 1, t["code"], t["text"], t["fn"], t["ref"], t["type"], t["mag"],
            t["unit"], t["prop"], *t["p"], t["note"], *t["f"], *t["sing"], t["conv"]]


def model_sheet(ws, h, ts, gyro=None):
    """The model sheet as published: the header in A:B, the terms from D4."""
    put(ws, 1, 1, "[OWSG Prefix]")
    put(ws, 1, 2, h[0][1])
    rows = [[k + ":", value(v)] for k, v in h]
    if gyro:
        at = min(gyro["at"], len(rows) - 1)
        block = [[gyro["name"] + ":", True]] + [["   " + k + ":", v]
                                                for k, v in gyro["rows"]]
        rows = rows[:at + 1] + block + rows[at + 1:]
    for k, (a, b) in enumerate(rows):
        put(ws, 3 + k, 1, a)
        put(ws, 3 + k, 2, b)
    for j, t in enumerate(TITLES):
        put(ws, 3, 4 + j, t)
    for k, t in enumerate(ts):
        for j, v in enumerate(term_row(k, t)):
            put(ws, 4 + k, 4 + j, v)


def radian(t):
    return math.radians(t["mag"]) if "deg" in t["unit"] else t["mag"]


def codes(ts):
    out = {}
    for t in ts:
        out["XCLA" if t["code"] == "XCLL" else t["code"]] = dict(
            function=t["fn"].replace("-", "_"), magnitude=radian(t),
            unit=t["unit"].replace("deg", "rad"), propagation=LONG[t["prop"]])
    return out


def same_codes(got, ts, what):
    want = codes(ts)
    check(set(got) == set(want), lambda: f"{what}: codes {sorted(got)}")
    for k, w in want.items():
        for f in ("function", "unit", "propagation"):
            check(got[k][f] == w[f], lambda: f"{what}: {f} of {k} is {got[k][f]!r}, "
                                             f"not {w[f]!r}")
        close(got[k]["magnitude"], w["magnitude"], 1e-15, 1e-12,
              what=f"{what}: magnitude of {k}")


def scratch(f):
    def run(c):
        d = tempfile.mkdtemp(prefix="p34")
        try:
            return f(c, d)
        finally:
            shutil.rmtree(d)
    return run


# ----------------------------------------------------------- example workbooks

NEV = ["NN", "EE", "VV", "NE", "NV", "EV"]
HLA = ["HH", "LL", "AA", "HL", "HA", "LA"]


@st.composite
def case_example(draw):
    c = {"head": draw(head()), "terms": draw(terms())}
    n = draw(st.integers(1, 6))
    c["n"] = n
    md = [0.0]
    for _ in range(n - 1):
        md.append(round(md[-1] + draw(gens.q(1, 400, 0.1)), 1))
    c["md"] = md
    c["path"] = [[draw(gens.q(0, 180)), draw(gens.angle_deg), draw(gens.q(0, 3000)),
                  draw(st.one_of(st.none(), gens.q(0, 360)))] for _ in range(n)]
    c["unit"] = draw(st.sampled_from([None, "m", "ft", "Ft", "M"]))
    c["ft"] = draw(st.sampled_from([None, 0.3048, 0.304800609601]))
    c["refs"] = [draw(gens.q(-80, 80)), draw(gens.q(9.78, 9.83, 0.0001)),
                 draw(gens.q(20000, 66000, 1)), draw(gens.q(-80, 80)),
                 draw(gens.q(-20, 20))]
    c["name"] = draw(st.one_of(st.none(), text))
    c["nums"] = [draw(num) for _ in range(12)]
    c["seed"] = draw(st.integers(0, 10 ** 6))
    c["check"] = draw(st.lists(st.tuples(st.integers(0, n - 1),
                                         st.integers(0, len(c["terms"]) - 1)).map(list),
                               max_size=6))
    c["more"] = draw(st.integers(0, 3))
    c["revs"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(
        ["Revision 5.01", "Revision 5.9", "Revision 5.11", "Revision 4.20",
         "Revision: 9.9", "Revision 10.2", "Revision", "Revision 5.10"]), max_size=5)))
    c["sheets"] = draw(st.lists(st.integers(0, len(c["terms"]) - 1), unique=True,
                                max_size=3))
    c["nocheck"] = draw(st.integers(0, 4)) == 0
    return c


BLOCKS = [("dpde", 2, ["D", "I", "A"]), ("e", 5, ["N", "E", "V"]),
          ("estar", 8, ["N", "E", "V"]), ("Sigma e systematic", 11, ["N", "E", "V"]),
          # a label of one column, and a repeated label
          ("Weight", 14, ["W"]), ("Covariance", 17, NEV), ("Covariance", 23, HLA)]


def write_example(c, fn):
    rng = np.random.default_rng(c["seed"])
    wb = Workbook()
    if c["revs"] is not None:
        ws = wb.create_sheet("Readme")
        put(ws, 1, 1, "An example")
        for k, v in enumerate(c["revs"]):
            put(ws, 3 + k, 1, v)
    model_sheet(wb.create_sheet("Model"), c["head"], c["terms"])
    ws = wb.create_sheet("Wellpath")
    put(ws, 1, 1, "Well")
    put(ws, 1, 2, c["name"])
    for k, (a, v) in enumerate(zip(["Latitude (deg)", "G (m/s2)", "Btotal (nT)",
                                    "Dip (deg)", "Declination (deg)"], c["refs"])):
        put(ws, 2 + k, 1, a)
        put(ws, 2 + k, 2, v)
    put(ws, 9, 1, "Depth Units")
    put(ws, 9, 2, c["unit"])
    put(ws, 10, 1, "Feet to Metres")
    put(ws, 10, 2, c["ft"])
    ws.merge_cells("E1:I1")
    put(ws, 1, 5, "INPUT WELLPATH")
    for j, t in enumerate(["MD", "Inc", "Az", "TVD", "Toolface"]):
        put(ws, 2, 5 + j, t)
    for k in range(c["n"]):
        for j, v in enumerate([c["md"][k], *c["path"][k]]):
            put(ws, 3 + k, 5 + j, v)
    ws = wb.create_sheet("TOTALS")
    put(ws, 1, 2, "Covariance")
    put(ws, 1, 8, "Covariance")
    for j, t in enumerate(["Md", *NEV, *HLA]):
        put(ws, 2, 1 + j, t)
    tot = rng.normal(size=(c["n"], 12)).round(6)
    for k in range(c["n"]):
        for j, v in enumerate([c["md"][k], *tot[k].tolist()]):
            put(ws, 3 + k, 1 + j, v)
    rows = []
    if not c["nocheck"]:
        ws = wb.create_sheet("Validation")
        put(ws, 1, 3, "Diagnostic Values")
        for j, t in enumerate(["MD", "Source", *NEV, *NEV, *NEV]):
            put(ws, 2, 1 + j, t)
        for k, (i, t) in enumerate(c["check"]):
            v = rng.normal(size=18).round(5).tolist()
            rows.append([c["md"][i], c["terms"][t]["code"], v[:6], v[6:12]])
            for j, x in enumerate([c["md"][i], c["terms"][t]["code"], *v]):
                put(ws, 3 + k, 1 + j, x)
    tabs = {}
    for t in c["sheets"]:
        code = c["terms"][t]["code"]
        ws = wb.create_sheet(code)
        put(ws, 2, 1, "Md")
        a = rng.normal(size=(c["n"] + c["more"], 28)).round(6)
        for lab, c0, subs in BLOCKS:
            put(ws, 1, c0, lab)
            if len(subs) > 1:
                ws.merge_cells(start_row=1, end_row=1, start_column=c0,
                               end_column=c0 + len(subs) - 1)
            for j, s in enumerate(subs):
                put(ws, 2, c0 + j, s)
        for k in range(len(a)):
            put(ws, 3 + k, 1, c["md"][k] if k < c["n"] else 0)
            for lab, c0, subs in BLOCKS:
                for j in range(len(subs)):
                    put(ws, 3 + k, c0 + j, float(a[k, c0 + j - 1]))
        tabs[code] = a[:c["n"]]
    ws = wb.create_sheet("Something else")
    put(ws, 1, 1, "x")
    del wb["Sheet"]
    wb.save(fn)
    return tot, rows, tabs


ATTR = {k: k.lower().replace(" ", "_") for k in ["OWSG Prefix", *HEAD]}


def isnan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


@scratch
def run_example(c, d):
    fn = os.path.join(d, "example.xlsx")
    tot, rows, tabs = write_example(c, fn)
    ex = iscwsa_ingest.load_iscwsa_example(fn)
    h = dict((k, value(v)) for k, v in c["head"])
    for k, a in ATTR.items():
        check(getattr(ex.header, a) == h.get(k), lambda: f"{k}: {getattr(ex.header, a)!r}")
    for k, v in h.items():
        if k not in ATTR:
            check(ex.header.extras.get(k) == v, lambda: f"extra {k!r}")
    check(len(ex.terms) == len(c["terms"]), f"{len(ex.terms)} terms")
    for k, (g, t) in enumerate(zip(ex.terms, c["terms"])):
        check((g.no, g.code, g.description, g.wt_fn, g.wt_fn_source, g.type, g.unit,
               g.propagation) == (k + 1, t["code"], t["text"], t["fn"], t["ref"] or "",
                                  t["type"], t["unit"], t["prop"]), lambda: f"term {g}")
        close(g.magnitude, t["mag"], 0, what="magnitude")
        close(g.magnitude_si, radian(t), 1e-15, 1e-12, what="magnitude in SI units")
        check(g.unit_si == t["unit"].replace("deg", "rad"), f"unit {g.unit_si}")
        check(g.propagation_name == LONG[t["prop"]], f"mode {g.propagation_name}")
        check([g.p1, g.p2, g.p3] == t["p"], lambda: f"parameters of {g}")
        check([g.depth_formula, g.inc_formula, g.az_formula] == t["f"],
              lambda: f"formulas of {g}")
        check([g.sing_n_formula, g.sing_e_formula, g.sing_v_formula] == t["sing"],
              lambda: f"singularities of {g}")
        check(g.wt_fn_comment == t["note"], lambda: f"comment of {g}")
        check(g.convert_deg_to_rad == bool(t["conv"]), lambda: f"conversion of {g}")
    w = ex.wellpath
    close([w.latitude_deg, w.g, w.btotal, w.dip_deg, w.declination_deg], c["refs"], 0,
          what="reference parameters")
    check(w.well_name == (c["name"] or ""), f"name {w.well_name!r}")
    check(w.depth_units == (c["unit"] or "m").lower(), f"unit {w.depth_units!r}")
    close(w.ft_to_m, c["ft"] or 0.3048, 0, what="feet to metres")
    want = [[m, *[math.nan if v is None else v for v in p]]
            for m, p in zip(c["md"], c["path"])]
    check(np.array_equal(w.stations, np.array(want, float), equal_nan=True),
          lambda: f"stations {w.stations.tolist()}")
    close(ex.totals.md, c["md"], 0, what="depths of the totals")
    close(ex.totals.nev, tot[:, :6], 0, what="totals, nev")
    close(ex.totals.hla, tot[:, 6:], 0, what="totals, hla")
    check(len(ex.validation) == len(rows), f"{len(ex.validation)} validation rows")
    for g, r in zip(ex.validation, rows):
        check((g.md, g.source) == (r[0], r[1]), lambda: f"validation row {g}")
        close(g.diagnostic, r[2], 0, what="diagnostic")
        close(g.calculated, r[3], 0, what="calculated")
    check(set(ex.sources) == set(tabs), lambda: f"sources {sorted(ex.sources)}")
    for code, a in tabs.items():
        t = ex.sources[code]
        close(t.md, c["md"], 0, what="depths of a source")
        names = ["dpde", "e", "estar", "Sigma e systematic", "Weight",
                 "Covariance", "Covariance_2"]
        check(set(t.blocks) == set(names), lambda: f"blocks {sorted(t.blocks)}")
        for nm, (_, c0, subs) in zip(names, BLOCKS):
            check(set(t.blocks[nm]) == set(subs), lambda: f"columns of {nm}")
            for j, s in enumerate(subs):
                close(t.blocks[nm][s], a[:, c0 + j - 1], 0, what=f"{nm} {s}")
    best = [r for r in (c["revs"] or []) if "." in r and ":" not in r]
    best = max(best, key=lambda r: tuple(map(int, r.split()[1].split("."))),
               default=None)
    check(ex.revision == best, f"revision {ex.revision!r}, not {best!r}")
    old = iscwsa_ingest.to_legacy_codes_dict(ex)
    same_codes(old["codes"], c["terms"], "codes of an example")
    check(old["header"] == {k: v for k, v in h.items() if k in ATTR and v is not None},
          lambda: f"header {old['header']}")
    # the older reader
    if len(c["terms"]) + 3 >= len(c["head"]) + 2:
        e = rev.extract_data(fn)
        same_codes(e["codes"], c["terms"], "codes of a model")
        for k, v in h.items():
            check(e["header"].get(k) == v, lambda: f"header {k}: {e['header'].get(k)!r}")
    return Info(len(c["terms"]) > 1 and c["n"] > 1, [
        "readme" if best else "no revision", "sources" if tabs else "no sources",
        "repeated"] if c["more"] else ["plain"])


# ---------------------------------------------------------- tool group workbooks

@st.composite
def case_group(draw):
    tools = []
    for k in range(draw(st.integers(1, 3))):
        t = {"head": draw(head()), "terms": draw(terms(draw(st.sampled_from([(2, 8), (9, 12)])))), "gyro": None,
             "name": "T%d %s" % (k, draw(st.sampled_from(["MWD", "MWD+AX", "GYRO-NS",
                                                          "MWD_Fl", "BLIND", "INC"])))}
        t["name"] = t["name"].replace(" ", "-") if draw(st.booleans()) else t["name"]
        if draw(st.booleans()):
            t["gyro"] = {"name": draw(st.sampled_from(["XY Static Gyro",
                                                       "Continuous gyro"])),
                         "at": draw(st.sampled_from([1, 3, 6, 20])),
                         "rows": [[x, draw(st.sampled_from(
                             ["0 deg", "17 deg", "180 deg", "3.5 deg", "fast"]))]
                             for x in draw(st.lists(st.sampled_from(
                                 ["Start Inc", "End Inc", "Mode"]), unique=True,
                                 min_size=1))]}
        for x in t["head"]:
            if x[0] == "OWSG Prefix":
                x[1] = "A%03d" % k
            if x[0] == "Short Name":
                x[1] = t["name"]
        t["bias"] = draw(st.integers(0, 4)) == 0
        t["odd"] = draw(st.integers(0, 4)) == 0
        if t["bias"]:
            t["terms"][0]["prop"] = "B"
        if t["odd"]:
            t["terms"][-1]["unit"] = "furlong"
        tools.append(t)
    return {"tools": tools, "set": draw(st.sampled_from(["SetA", "SetB"]))}


KIND = {"MWD": "Magnetic", "Magnetic": "Magnetic", "Gyro": "Gyroscopic",
        "Inertial": "Inertial"}


def formula(v):
    return "0" if v is None else str(v).strip()


def judge_json(j, t, c, warns, source):
    h = dict((k, value(v)) for k, v in t["head"])
    m = j["metadata"]
    check(m["short_name"] == t["name"], f"short name {m['short_name']!r}")
    check(m["long_name"] == (h.get("Long Name") or t["name"]),
          f"long name {m['long_name']!r}")
    check(m["model_id"] == h["OWSG Prefix"], f"id {m['model_id']!r}")
    check(m["revision_number"] == int(h.get("Revision No") or 0),
          f"revision {m['revision_number']}")
    dt = h.get("Revision Date")
    check(m["revision_date"] == (dt.strftime("%Y-%m-%d") if dt else "1970-01-01"),
          f"date {m['revision_date']!r}")
    for k in ("Revision Comment", "Source", "Application"):
        if h.get(k):
            check(m[ATTR[k]] == h[k], f"{k} {m[ATTR[k]]!r}")
    kind = KIND.get(h.get("Tool Type") or "")
    if kind:
        check(m["tool_type"] == kind, f"tool type {m['tool_type']!r}")
    else:
        check(any("tool_type" in w for w in warns) or not h.get("Tool Type"),
              "no warning of the tool type")
    lim = [int(h[f"Inclination Range {k}"].split()[0]) for k in ("Min", "Max")]
    check([j["parameters"]["inc_min"], j["parameters"]["inc_max"]] == lim,
          lambda: f"inclinations {j['parameters']}")
    check(len(j["terms"]) == len(t["terms"]), f"{len(j['terms'])} terms")
    ids = set()
    for g, x in zip(j["terms"], t["terms"]):
        check((g["name"], g["x_owsg_weight_function"], g["units"]) ==
              (x["code"], x["fn"], x["unit"]), lambda: f"term {g}")
        close(g["value"], x["mag"], 0, what="value")
        check([g["depth_factor"], g["inclination_factor"], g["azimuth_factor"]]
              == [p or 0 for p in x["p"]], lambda: f"factors of {g}")
        check(g["propagation_mode"] == JSON_MODE.get(x["prop"], x["prop"]),
              lambda: f"mode of {g}")
        check([g["depth_formula"], g["inclination_formula"], g["azimuth_formula"]]
              == [formula(f) for f in x["f"]], lambda: f"formulas of {g}")
        check([g["north_singularity"], g["east_singularity"], g["vertical_singularity"]]
              == [f or None for f in x["sing"]], lambda: f"singularities of {g}")
        ids.add(g["uuid"])
        for key, bad in (("unit", x["unit"] not in set(UNITS) - {"-"}),
                         ("propagation", x["prop"] not in JSON_MODE)):
            told = any(repr(x["code"]) in w and key in w for w in warns)
            check(told == bad, lambda: f"{key} of {x['code']}: {warns}")
    check(len(ids) == len({x["code"] for x in t["terms"]}), "identities aren't distinct")


@scratch
def run_group(c, d):
    fn = os.path.join(d, "group.xlsx")
    wb = Workbook()
    ws = wb.create_sheet("Index")
    fields = ["No", "OWSG Prefix", "Short Name", "Long Name", "Rev.", "Application"]
    for j, f in enumerate(fields):
        put(ws, 1, 1 + j, f)
    want = {}
    for k, t in enumerate(c["tools"]):
        h = dict(t["head"])
        row = [k + 1, h["OWSG Prefix"], t["name"], h.get("Long Name"),
               h.get("Revision No"), h.get("Application")]
        for j, v in enumerate(row):
            put(ws, 2 + k, 1 + j, v)
        key = row[1] + ("_Fl" if t["name"].endswith("_Fl") else "")
        want[key] = dict(zip(fields, row))
        model_sheet(wb.create_sheet(t["name"]), t["head"], t["terms"], t["gyro"])
    del wb["Sheet"]
    wb.save(fn)
    book = owsg.open_workbook(fn)
    idx = owsg.make_index(book)
    check(idx == want, lambda: f"index {idx}")
    check(owsg.get_short_names(idx) == {k: v["Short Name"] for k, v in want.items()},
          "short names")
    for k, v in want.items():
        check(owsg.get_index(v["Short Name"], idx) == k, f"index of {v['Short Name']}")
    check(owsg.get_index("nothing", idx) is None, "index of an unknown name")
    for t in c["tools"]:
        if t["bias"]:
            continue
        for src in (book, fn):
            e = owsg.extract_data(src, sheet_name=t["name"])
            same_codes(e["codes"], t["terms"], "codes of a tool")
            for k, v in t["head"]:
                check(e["header"].get(k) == value(v),
                      lambda: f"header {k}: {e['header'].get(k)!r}")
            if t["gyro"]:
                g = e["header"].get(t["gyro"]["name"])
                check(isinstance(g, dict) and set(g) == {x for x, _ in t["gyro"]["rows"]},
                      lambda: f"gyro {g}")
                for x, v in t["gyro"]["rows"]:
                    if "deg" in v:
                        close(g[x], math.radians(float(v.split()[0])), 1e-12, what=x)
                    else:
                        check(g[x] == v, f"gyro {x}")
    warns = owsg_to_json.convert_workbook(fn, os.path.join(d, "out"), c["set"])
    check(set(warns) - {"Index"} == {t["name"] for t in c["tools"]},
          lambda: f"sheets {sorted(warns)}")
    seen = set()
    for t in c["tools"]:
        safe = "".join(x if x.isalnum() or x in "_+-." else "_" for x in t["name"])
        with open(os.path.join(d, "out", safe + ".json")) as f:
            j = json.load(f)
        judge_json(j, t, c, warns[t["name"]], fn)
        seen.add(j["metadata"]["model_uuid"])
    check(len(seen) == len(c["tools"]), "models share an identity")
    return Info(True, ["gyro" if any(t["gyro"] for t in c["tools"]) else "plain",
                       "odd" if any(t["bias"] or t["odd"] for t in c["tools"]) else "ok"])


# ------------------------------------------------- the definitions that are shipped

@lru_cache(None)
def vendored(which):
    import pandas as pd
    p = {"A": owsg_to_json.DEFAULT_XLSX_A, "B": owsg_to_json.DEFAULT_XLSX_B}[which]
    return pd.ExcelFile(p), p


@lru_cache(None)
def sheets():
    return [(s, f[:-5]) for s in "AB" for f in sorted(os.listdir(os.path.join(
        REPO, "welleng", "errors", "iscwsa_json", f"owsg_{s.lower()}")))
        if f.endswith(".json")]


@st.composite
def case_shipped(draw):
    s, f = draw(st.sampled_from(sheets()))
    return {"set": s, "file": f}


def run_shipped(c):
    if not os.path.exists(owsg_to_json.DEFAULT_XLSX_A):
        raise Skip
    xl, p = vendored(c["set"])
    name = [s for s in xl.sheet_names
            if "".join(x if x.isalnum() or x in "_+-." else "_" for x in s) == c["file"]]
    if not name:
        raise Skip
    df = xl.parse(sheet_name=name[0], header=None)
    j, _ = owsg_to_json.convert_sheet(df, name[0], "Set" + c["set"], p)
    with open(os.path.join(REPO, "welleng", "errors", "iscwsa_json",
                           f"owsg_{c['set'].lower()}", c["file"] + ".json")) as f:
        got = json.load(f)
    check(set(got) == set(j), "keys")
    for k in ("metadata", "parameters"):
        for x, v in j[k].items():
            check(got[k].get(x) == v, lambda: f"{c['file']} {x}: {got[k].get(x)!r}, "
                                              f"not {v!r}")
    check([t["name"] for t in got["terms"]] == [t["name"] for t in j["terms"]], "terms")
    for a, b in zip(got["terms"], j["terms"]):
        for x, v in b.items():
            check(a.get(x) == v, lambda: f"{c['file']} {b['name']} {x}: {a.get(x)!r}, "
                                         f"not {v!r}")
    return Info(len(j["terms"]) > 1, [c["set"]])


# ------------------------------------------------------- clearance test workbooks

@st.composite
def case_wells(draw):
    c = {"acr": [draw(gens.q(0, 3)), draw(gens.q(0, 3)), draw(gens.q(1, 5)),
                 draw(st.integers(4, 40)), draw(st.integers(4, 40))], "wells": []}
    for k in range(draw(st.integers(0, 4))):
        c["wells"].append("%02d" % (k + 1))
    c["n"] = [draw(st.integers(1, 6)) for _ in range(len(c["wells"]) + 1)]
    c["seed"] = draw(st.integers(0, 10 ** 6))
    c["tail"] = draw(st.booleans())
    return c


@scratch
def run_wells(c, d):
    fn = os.path.join(d, "wells.xlsx")
    rng = np.random.default_rng(c["seed"])
    wb = Workbook()
    names = ["Reference well"] + [f"{w} - well" for w in c["wells"]]
    data = {}
    for w, n in zip(names, c["n"]):
        ws = wb.create_sheet(w)
        for j, t in enumerate(["MD", "Inclination", "Azimuth", "TVD", "North", "East",
                               "sigmaH", "sigmaL", "sigmaA"]):
            put(ws, 16, 2 + j, t)
            put(ws, 17, 2 + j, "[x]")
        a = rng.normal(size=(n, 9)).round(4)
        a[:, 0] = np.arange(n) * 30
        for k in range(n):
            for j in range(9):
                put(ws, 18 + k, 2 + j, float(a[k, j]))
        if c["tail"]:
            put(ws, 18 + n, 2, "a remark")
        data[w] = a
        if w == "Reference well":
            for k, v in enumerate(c["acr"]):
                put(ws, 4 + k, 9, v)
            continue
        cs = wb.create_sheet(w.replace("well", "clearance"))
        put(cs, 4, 15, "SF")
        sf = rng.normal(size=n).round(4)
        for k in range(n):
            put(cs, 5 + k, 15, float(sf[k]))
            put(cs, 5 + k, 16, 99.0)
        data[w, "sf"] = sf
    ws = wb.create_sheet("Revision")
    put(ws, 1, 1, "x")
    del wb["Sheet"]
    wb.save(fn)
    for f in (io.import_iscwsa_collision_data, io.get_standard_data):
        got = f(fn)
        check(set(got["wells"]) == set(names), lambda: f"wells {sorted(got['wells'])}")
        close([got["acr"][k] for k in ("Sm", "sigmapa", "k", "reference_h_and_c",
                                       "offset_h_and_c")], c["acr"], 0, what="set-up")
        for w in names:
            g = got["wells"][w]
            for j, k in enumerate(["MD", "IncDeg", "AziDeg", "TVD", "N", "E", "sigmaH",
                                   "sigmaL", "sigmaA"]):
                close(g[k], data[w][:, j], 0, what=f"{w} {k}")
            if w != "Reference well":
                sf = [x for x in g["SF"] if x is not None]
                close(sf, data[w, "sf"], 0, what=f"{w} separation factors")
            else:
                check("SF" not in g, "factors of the reference")
    return Info(len(names) > 1)


# -------------------------------------------------------------- diagnostics files

@st.composite
def case_cops(draw):
    pool = draw(st.lists(st.sampled_from(
        ["DRFR", "DSFS", "ABXY-TI1S", "XYM3E", "GXY-B1R", "DEC-OS", "XCLA", "X",
         "AXYZ-MIS", "DECR"]), min_size=1, max_size=5, unique=True))
    out = []
    for k in range(draw(st.integers(0, 6))):
        on = [t for t in pool if draw(st.integers(0, 3))]
        out.append({"md": draw(gens.q(0, 8000)), "inc": draw(gens.q(0, 120)),
                    "azi": draw(gens.angle_deg),
                    "s": {t: [draw(gens.q(-1, 30, 0.0001)) for _ in range(3)]
                          for t in on},
                    "noise": draw(st.booleans())})
    return {"stations": out, "pool": pool}


@scratch
def run_cops(c, d):
    lines = ["Error model diagnostics", "Tool: X   svy", ""]
    for s in c["stations"]:
        lines.append("Source   Row         H/S         LAT         A/H")
        for k, (t, v) in enumerate(s["s"].items()):
            if s["noise"]:
                lines.append("%-9s" % "Sensor")
            lines.append("%-8s svy  %10.4f  %10.4f  %10.4f  %10.4f" % (t, *v, 0.0))
            lines.append("%-8s dep  %10.4f  %10.4f  %10.4f  %10.4f" % ("", 9, 9, 9, 9))
            if s["noise"]:
                lines.append("%-8s dep  %10.4f  %10.4f  %10.4f  %10.4f" % (t, 8, 8, 8, 8))
        if s["noise"]:
            lines.append("Totals   svy  %10.4f  %10.4f  %10.4f" % (7, 7, 7))
            lines.append("Total    svy  %10.4f  %10.4f  %10.4f" % (7, 7, 7))
        lines.append("%.2f        Inc: %.2f       Az (True): %.2f  TF: 0.00"
                     % (s["md"], s["inc"], s["azi"]))
        lines.append("NEV Covariance Matrix Terms")
        for t in s["s"]:
            lines.append("%-8s  %10.4f  %10.4f  %10.4f" % (t, 5, 5, 5))
    fn = os.path.join(d, "x.txt")
    with open(fn, "w") as f:
        f.write("\n".join(lines) + "\n")
    got = copsegrove.parse_copsegrove(fn)
    check(len(got) == len(c["stations"]), f"{len(got)} stations")
    for g, s in zip(got, c["stations"]):
        close([g.md, g.inc_deg, g.azi_deg], [s["md"], s["inc"], s["azi"]], 1e-9,
              what="station")
        check(set(g.sigmas_svy) == set(s["s"]), lambda: f"terms {sorted(g.sigmas_svy)}")
        for t, v in s["s"].items():
            close(g.sigmas_svy[t], v, 1e-9, what=f"sigmas of {t}")
    for t in c["pool"]:
        have = [s for s in c["stations"] if t in s["s"]]
        md, inc, azi, sig = copsegrove.per_term_sigmas(got, t)
        check(len(md) == len(have), f"{len(md)} stations of {t}")
        for k, s in enumerate(have):
            close([md[k], inc[k], azi[k], *sig[k]], [s["md"], s["inc"], s["azi"],
                                                     *s["s"][t]], 1e-9, what=t)
    return Info(len(c["stations"]) > 1)


PROP = Prop("P34", [
    Facet("examples", case_example(), run_example, 160,
          rule="workbooks with two or more terms and stations"),
    Facet("tool groups", case_group(), run_group, 120, rule="every workbook"),
    Facet("shipped", case_shipped(), run_shipped, 120, thorough=400,
          rule="definitions of more than one term"),
    Facet("wells", case_wells(), run_wells, 100, rule="more than the reference well"),
    Facet("diagnostics", case_cops(), run_cops, 200, rule="more than one station"),
])
