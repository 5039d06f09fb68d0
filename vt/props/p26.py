"""P26 EDM queries return what the file says."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from welleng.exchange.edm import EDM

TAGS = ["CD_SITE", "CD_POLICY", "TU_THING", "CD_NOTE"]
KEYS = ["a", "b", "site_id", "kind"]
VALS = ["1", "2", "x", ""]


@st.composite
def case_query(draw):
    rows = draw(st.lists(st.tuples(
        st.sampled_from(TAGS),
        st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALS), max_size=4)),
        min_size=1, max_size=12))
    qs = []
    for _ in range(draw(st.integers(1, 5))):
        att = draw(st.dictionaries(st.sampled_from(KEYS + ["none"]), st.one_of(
            st.sampled_from(VALS + ["?"]),
            st.lists(st.sampled_from(VALS), max_size=3)), max_size=4))
        qs.append({"tags": draw(st.one_of(
            st.none(), st.sampled_from(TAGS + ["NOPE"]),
            st.lists(st.sampled_from(TAGS), min_size=1, max_size=3))),
            "att": att, "logic": draw(st.sampled_from(["AND", "OR", None]))})
    return {"rows": [[t, a] for t, a in rows], "qs": qs}


def write(rows, folder, pretty=True):
    root = ET.Element("export")
    for t, a in rows:
        e = ET.SubElement(root, t, {k: str(v) for k, v in a.items()})
        if t == "CD_NOTE":
            ET.SubElement(e, "CD_SITE", {"a": "1"})     # not a record
    fn = os.path.join(folder, "data.xml")
    ET.ElementTree(root).write(fn)
    return fn


def load(rows):
    folder = tempfile.mkdtemp(prefix="vt_edm_")
    try:
        return EDM(write(rows, folder))
    finally:
        shutil.rmtree(folder)


def plain(data):
    return {t: [dict(r) for r in v] for t, v in data.items()}


def select(rows, tags=None, att=None, logic="AND"):
    out = {}
    test = all if logic == "AND" else any
    for t, a in rows:
        if tags is not None and t not in tags:
            continue
        if att and not test(
                k in a and a[k] in (v if isinstance(v, list) else [v])
                for k, v in att.items()):
            continue
        out.setdefault(t, []).append(dict(a))
    return out


def run_query(c):
    rows = [(t, a) for t, a in c["rows"]]
    e = load(rows)
    tags = sorted({t for t, _ in rows})
    check(e.get_tags() == tags, f"tags {e.get_tags()}")
    check(sorted(e.get_tags(sort=False)) == tags, "unsorted tags")
    hits = 0
    for _ in range(2):      # and again
        for q in c["qs"]:
            kw = {}
            if q["logic"]:
                kw["logic"] = q["logic"]
            if q["att"]:
                kw["attributes"] = {k: list(v) if isinstance(v, list) else v
                                    for k, v in q["att"].items()}
            if q["tags"] is not None:
                kw["tags"] = q["tags"]
            t = q["tags"] if q["tags"] is None or isinstance(q["tags"], list) \
                else [q["tags"]]
            want = select(rows, t, q["att"], q["logic"] or "AND")
            got = plain(e.get_attributes(**kw))
            check(got == want, lambda: f"{kw} gives {got}, not {want}")
            hits += len(q["att"]) > 1 and 0 < sum(map(len, want.values())) < len(rows)
    for bad in ("and", "XOR", ""):
        try:
            e.get_attributes(logic=bad)
        except AssertionError:
            continue
        check(False, f"accepted logic {bad!r}")
    return Info(hits > 0)


@st.composite
def case_wells(draw):
    nw = draw(st.integers(1, 3))
    c = {"wells": nw, "bores": []}
    for k in range(draw(st.integers(1, 7))):
        parent = draw(st.one_of(st.none(), st.integers(0, k - 1))) if k else None
        well = c["bores"][parent]["well"] if parent is not None \
            else draw(st.integers(0, nw - 1))
        b = {"well": well, "parent": parent,
             "tie": draw(gens.q(50, 3000, 1)), "length": draw(gens.q(30, 2000, 1)),
             "gaps": draw(st.lists(gens.q(10, 400, 1), min_size=1, max_size=6)),
             "plan": draw(st.booleans()), "case": draw(st.booleans()),
             "groups": draw(st.integers(0, 2)),
             "tvd": [draw(gens.q(0, 4000, 0.5)) for _ in range(draw(st.integers(0, 5)))]}
        c["bores"].append(b)
    c["order"] = draw(st.sampled_from(["tags", "reversed", "bores"]))
    c["ask"] = [draw(st.integers(0, 6)) for _ in range(draw(st.integers(1, 4)))]
    c["by_name"] = draw(st.booleans())
    return c


PPFP = [("CD_PORE_PRESSURE", "pore_pressure_group_id", "pore_pressure"),
        ("CD_FRAC_GRADIENT", "frac_gradient_group_id", "frac_gradient_pressure"),
        ("CD_TEMP_GRADIENT", "temp_gradient_group_id", "temperature")]


def dataset(c):
    rows = [("CD_SITE", {"site_id": f"s{k}", "site_name": f"Site {k}"}) for k in range(2)]
    for w in range(c["wells"]):
        rows.append(("CD_WELL", {"well_id": f"w{w}", "site_id": "s0"}))
        rows.append(("CD_WELL_ALL", {"well_id": f"w{w}", "well_common_name": f"Well {w}"}))
        rows.append(("CD_DATUM", {"well_id": f"w{w}", "datum_id": f"d{w}"}))
    heads = []
    for k, b in enumerate(c["bores"]):
        i = f"b{k}"
        me = {"wellbore_id": i, "wellbore_name": f"Bore {k}", "well_id": f"w{b['well']}"}
        if b["parent"] is not None:
            me["parent_wellbore_id"] = f"b{b['parent']}"
        rows.append(("CD_WELLBORE", me))
        mds = [0.0 if b["parent"] is None else b["tie"]]
        for g in b["gaps"]:
            mds.append(mds[-1] + g)
        h = {"survey_header_id": f"h{k}", "wellbore_id": i, "md_max": f"{mds[-1]}"}
        if b["parent"] is not None:
            h.update(tie_survey_header_id=f"h{b['parent']}", tie_on_depth=f"{b['tie']}")
        rows.append(("CD_SURVEY_HEADER", h))
        heads.append((h, mds))
        for j, m in enumerate(mds[::-1]):
            rows.append(("CD_SURVEY_STATION", {
                "survey_header_id": f"h{k}", "wellbore_id": i, "md": f"{m}",
                "station": f"{k}/{j}"}))
        f = {"wellbore_id": i, "fluid_id": f"f{k}", "fluid_name": f"Mud {k}"}
        rows.append(("CD_FLUID", f))
        rows.append(("CD_FLUID", dict(f, fluid_id=f"g{k}")))
        rows.append(("CD_SCENARIO", {"wellbore_id": i, "scenario_id": f"n{k}"}))
        rows.append(("CD_HOLE_SECT_GROUP", {"wellbore_id": i, "hole_sect_group_id": f"q{k}"}))
        for j in range(2):
            rows.append(("CD_HOLE_SECT", {"wellbore_id": i, "hole_sect_id": f"r{k}{j}",
                                          "hole_sect_group_id": f"q{k}"}))
        if b["case"]:
            rows.append(("CD_CASE", {
                "case_id": f"c{k}", "case_name": f"Case {k}", "wellbore_id": i,
                "well_id": f"w{b['well']}", "datum_id": f"d{b['well']}",
                "fluid_id": f"f{k}", "scenario_id": f"n{k}",
                "hole_sect_group_id": f"q{k}"}))
        for t, g, v in PPFP[:b["groups"] + 1]:
            for j, z in enumerate(b["tvd"]):
                rows.append((t, {"wellbore_id": i, g: f"{t[3]}{k}{j % 2}",
                                 "tvd": f"{z}", v: f"{j + 0.5}"}))
    if c["order"] == "reversed":
        rows = rows[::-1]
    elif c["order"] == "tags":
        rows = sorted(rows, key=lambda r: r[0])
    return rows


def chain(c, k):
    out = []
    while c["bores"][k]["parent"] is not None:
        k = c["bores"][k]["parent"]
        out.append(k)
    return out


def run_wells(c):
    rows = dataset(c)
    e = load(rows)
    of = {}
    for t, a in rows:
        of.setdefault(t, []).append(a)
    check(plain({"x": list(e.get_wells().values())})["x"] == of["CD_WELL_ALL"], "wells")
    check(list(e.get_wells()) == [a["well_common_name"] for a in of["CD_WELL_ALL"]],
          "names of wells")
    check({k: dict(v) for k, v in e.get_sites().items()}
          == {a["site_name"]: a for a in of["CD_SITE"]}, "sites")
    check({k: dict(v) for k, v in e.get_wellbore_ids().items()}
          == {a["wellbore_name"]: a for a in of["CD_WELLBORE"]}, "well bores")
    check(e.wellbore_id_to_name == {a["wellbore_id"]: a["wellbore_name"]
                                    for a in of["CD_WELLBORE"]}, "names of ids")
    check(e.wellbore_name_to_id == {a["wellbore_name"]: a["wellbore_id"]
                                    for a in of["CD_WELLBORE"]}, "ids of names")
    check(e.well_id_to_wellbore_id == {a["wellbore_id"]: a["well_id"]
                                       for a in of["CD_WELLBORE"]}, "wells of well bores")
    G = e.get_wellbore_graph()
    check(set(G.nodes) == {a["wellbore_id"] for a in of["CD_WELLBORE"]}, "graph's nodes")
    check({frozenset(x) for x in G.edges}
          == {frozenset((a["wellbore_id"], a["parent_wellbore_id"]))
              for a in of["CD_WELLBORE"] if "parent_wellbore_id" in a}, "graph's edges")
    for k in range(len(c["bores"])):
        name = e.get_case_name_from_id(f"c{k}")
        check(name == (f"Case {k}" if c["bores"][k]["case"] else None), f"name {name}")
    deep = 0
    for k in c["ask"]:
        k = k % len(c["bores"])
        b = c["bores"][k]
        up = chain(c, k)
        deep = max(deep, len(up))
        got = e.get_parents(f"b{k}")
        check(got == [f"b{j}" for j in up], lambda: f"parents of b{k} are {got}")
        w = e.get_wellbore(f"Bore {k}", name=True) if c["by_name"] \
            else e.get_wellbore(f"b{k}")
        check((w.wellbore_id, w.wellbore_name) == (f"b{k}", f"Bore {k}"), "well bore")
        want = select(rows, None, {"wellbore_id": f"b{k}"})
        for t in ("CD_WELL", "CD_DATUM"):
            want[t] = select(rows, [t], {"well_id": f"w{b['well']}"})[t]
        if up:
            for t in ("CD_SURVEY_HEADER", "CD_SURVEY_STATION"):
                want[t] = want[t] + select(
                    rows, [t], {"wellbore_id": [f"b{j}" for j in up]})[t]
        got = plain(w.well_data)
        check(got == want, lambda: f"data of b{k}: " + "; ".join(
            f"{t}: {got.get(t)}, not {want.get(t)}" for t in sorted(set(got) | set(want))
            if got.get(t) != want.get(t)))
        check(sorted(w.get_hole_sections()) == [f"q{k}"], "hole sections")
        hs = w.get_hole_section_data()
        check(set(hs) == {f"q{k}"} and set(hs[f"q{k}"]) == (
            {"CD_HOLE_SECT_GROUP", "CD_HOLE_SECT"} | ({"CD_CASE"} if b["case"] else set())),
            f"hole section data {hs}")
        for t, r in hs[f"q{k}"].items():
            check(r in want[t], f"hole section data of {t}")
        tie = {f"h{j}": float(c["bores"][j]["tie"]) if c["bores"][j]["parent"] is not None
               else 0.0 for j in [k] + up}
        got = w.get_parent_surveys(f"h{k}")
        check([(a, float(v)) for a, v in got.items()] == list(tie.items()),
              lambda: f"surveys {dict(got)} are tied on, not {tie}")
        for key, t, on in (("fluid", "CD_FLUID", f"g{k}"), ("fluid", "CD_FLUID", "none"),
                           ("scenario", "CD_SCENARIO", f"n{k}")):
            x = [r for r in want[t] if r[key + "_id"] == on]
            got = w.get_data(on, key)
            check((got and [dict(r) for r in got]) == (x or None),
                  lambda: f"{key} {on}: {got}")
        pp = w.get_ppfpt_data()
        for key, (t, g, v) in zip(("pore_pressure", "fracture_pressure", "temperature"),
                                  PPFP):
            if t not in want:
                check(pp[key] is None, f"{key} of nothing")
                continue
            groups = {}
            for r in want[t]:
                groups.setdefault(r[g], []).append([float(r["tvd"]), float(r[v])])
            check(set(pp[key]) == set(groups), f"groups of {key}")
            for n, vals in groups.items():
                a = np.asarray(pp[key][n])
                check((np.diff(a[:, 0]) >= 0).all(), f"{key} isn't sorted by tvd")
                close(sorted(a.tolist()), sorted(vals), 1e-9, what=key)
        if not b["case"]:
            continue
        x = w.make_case(f"c{k}")
        row = want["CD_CASE"][0]
        for key, val in row.items():
            check(getattr(x, key) == val, f"{key} of the case")
        for key, t, on in (("fluid", "CD_FLUID", "fluid_id"),
                           ("wellbore", "CD_WELLBORE", "wellbore_id"),
                           ("scenario", "CD_SCENARIO", "scenario_id"),
                           ("well", "CD_WELL", "well_id"),
                           ("datum", "CD_DATUM", "datum_id"),
                           ("hole_sect_group", "CD_HOLE_SECT_GROUP", "hole_sect_group_id"),
                           ("hole_sect", "CD_HOLE_SECT", "hole_sect_group_id"),
                           ("survey_header", "CD_SURVEY_HEADER", "wellbore_id")):
            check([dict(r) for r in getattr(x, key)]
                  == [r for r in want[t] if r[on] == row[on]], f"{key} of the case")
        check({h: [dict(r) for r in v] for h, v in x.survey_station.items()}
              == {f"h{k}": [r for r in want["CD_SURVEY_STATION"]
                            if r["survey_header_id"] == f"h{k}"]}, "survey stations")
        for t, g, v in PPFP:
            if t in want:
                for n, rs in getattr(x, t[3:].lower()).items():
                    z = [float(r["tvd"]) for r in rs]
                    check(z == sorted(z), f"{t} of the case isn't sorted")
                    check(sorted(map(str, rs)) == sorted(
                        str(r) for r in want[t] if r[g] == n), f"{t} of the case")
        # down the chain of surveys, each from its tie-on
        must, floor = [], float("inf")
        for j in [k] + up:
            lo = c["bores"][j]["tie"] if c["bores"][j]["parent"] is not None else 0.0
            if lo >= floor:
                continue
            for r in want["CD_SURVEY_STATION"]:
                if r["survey_header_id"] == f"h{j}" and lo <= float(r["md"]) <= floor:
                    must.append(r["station"])
            floor = lo
        got = x.survey[f"h{k}"]
        check(sorted(r["station"] for r in got) == sorted(must),
              lambda: f"survey of the case: {sorted(r['station'] for r in got)}, "
              f"not {sorted(must)}")
        z = [float(r["md"]) for r in got]
        check(z == sorted(z), "survey of the case isn't sorted")
    return Info(deep > 0, [f"{deep} parents", c["order"]])


PROP = Prop("P26", [
    Facet("query", case_query(), run_query, 4000,
          rule="random records and queries, twice; non-trivial: several attributes "
               "that some records have"),
    Facet("wells", case_wells(), run_wells, 1500,
          rule="random forests of well bores with surveys, cases, fluids and pressures, "
               "asked for one after another; non-trivial: one with a parent"),
])
