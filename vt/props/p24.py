"""P24 strings and well bores keep contiguous sections through any history."""
import copy

from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from welleng.architecture import BHA, String, WellBore

KINDS = {"String": String, "WellBore": WellBore, "BHA": BHA}
TOL = 1e-7


@st.composite
def case(draw):
    c = {"kind": draw(st.sampled_from(sorted(KINDS))),
         "way": draw(st.sampled_from(["top_down", "bottom_up", None])),
         "top": draw(st.one_of(st.just(0.0), gens.q(0, 900, 0.1)))}
    c["bottom"] = round(c["top"] + draw(gens.q(50, 4000, 0.1)), 1)
    td = c["way"] == "top_down"
    c["ops"] = []
    kinds = ["end", "end", "rest", "depth", "over", "inverted", "missing"]
    if not td:
        kinds += ["length", "length", "toolong", "default", "default"]
    for _ in range(draw(st.integers(1, 9))):
        c["ops"].append({"op": draw(st.sampled_from(kinds)),
                         "f": draw(gens.q(0.02, 0.98, 0.001)),
                         "extra": draw(st.sampled_from([{}, {"od": 0.2}, {"density": 7.0},
                                                        {"od": 0.1, "name": "x"}]))})
    return c


def params(kind, k, extra):
    p = dict(extra, tag=k)
    if kind == "WellBore":
        p.update(id=0.3 + k / 100, coeff_friction_sliding=0.1 + k / 100)
    return p


def stored(kind, p):
    p = dict(p)
    if kind == "BHA":
        p.setdefault("density", 7.85)
    return p


def judge(s, model, c, what):
    top, bottom = c["top"], c["bottom"]
    check(list(s.sections) == list(range(len(model))),
          lambda: f"{what}: keys {list(s.sections)} of {len(model)} sections")
    for k, (m, v) in enumerate(zip(model, s.sections.values())):
        close([v["top"], v["bottom"]], [m["top"], m["bottom"]], TOL,
              what=f"{what}: ends of section {k}")
        for key, val in m["p"].items():
            check(v.get(key) == val, lambda: f"{what}: {key} of section {k} is {v.get(key)}")
        more = set(v) - set(m["p"]) - {"top", "bottom", "length"}
        check(not more, lambda: f"{what}: section {k} has {more}")
        if "length" in v:
            close(v["length"], m["bottom"] - m["top"], TOL,
                  what=f"{what}: length of section {k}")
    v = list(s.sections.values())
    for a, b in zip(v, v[1:]):
        check(a["bottom"] == b["top"], f"{what}: a gap")
    full = bool(model) and abs(model[0]["top"] - top) < TOL \
        and abs(model[-1]["bottom"] - bottom) < TOL
    check(s.complete == full, f"{what}: complete is {s.complete}")
    check(s.top == top and s.bottom == bottom, f"{what}: ends")


def state(s):
    return copy.deepcopy((s.sections, s.complete, s.name, s.top, s.bottom, s.method))


def rejected(s, what, f):
    before = state(s)
    try:
        f()
    except Exception:
        check(state(s) == before, f"{what} was rejected, but changed the collection")
        return
    check(False, f"{what} was accepted")


def cut(model, s, c, md):
    """The collection with its bottom at md."""
    before = state(s)
    n = s.depth(md)
    check(state(s) == before, "depth changed the original")
    up = c["bottom"] - md
    if any(0 < abs(m[k] - up - c["top"]) <= 10 * TOL for m in model for k in ("top", "bottom")):
        return      # a boundary at the top, to rounding
    want = [dict(m, top=max(m["top"] - up, c["top"]), bottom=m["bottom"] - up)
            for m in model if m["bottom"] - up > c["top"] + TOL]
    judge(n, want, dict(c, bottom=md), f"at {md}")
    for v in n.sections.values():       # nothing shared
        v["tag"] = -1
    check(state(s) == before, "the string at another depth shares its sections")


def run(c):
    kind = c["kind"]
    kw = {} if c["way"] is None else {"method": c["way"]}
    for bad in ("sideways", "topdown", ""):
        try:
            KINDS[kind]("bad", c["top"], c["bottom"], method=bad)
        except AssertionError:
            continue
        check(False, f"accepted method {bad!r}")
    s = KINDS[kind]("it", c["top"], c["bottom"], **kw)
    check(s.name == "it" and not s.complete and not s.sections, "a new collection")
    td = c["way"] == "top_down"
    model = []
    done = set()
    for k, o in enumerate(c["ops"]):
        op, f = o["op"], o["f"]
        p = params(kind, k, o["extra"])
        # the free interval
        a = (model[-1]["bottom"] if model else c["top"]) if td else c["top"]
        b = c["bottom"] if td else (model[0]["top"] if model else c["bottom"])
        room = b - a
        if op in ("end", "rest", "length", "default", "toolong") and room < 1:
            continue
        add = None
        if op == "depth":
            if model and (not td or s.complete):
                cut(model, s, c, c["top"] + f * (c["bottom"] - c["top"]))
                cut(model, s, c, c["bottom"])
                done.add(op)
            for md in (c["top"], c["top"] - 1, c["bottom"] + 1):
                rejected(s, f"depth {md}", lambda: s.depth(md))
            continue
        if op == "missing":
            if kind == "WellBore":
                for x in ("id", "coeff_friction_sliding"):
                    q = {y: z for y, z in p.items() if y != x}
                    q.update({"bottom": b} if td else {"length": room / 2})
                    rejected(s, f"a section without {x}", lambda: s.add_section(**q))
            if td:
                rejected(s, "a section without an end", lambda: s.add_section(**p))
            continue
        if op == "over":
            if td:
                rejected(s, "a section past the bottom", lambda: s.add_section(
                    bottom=c["bottom"] + 1 + f, **p))
            else:
                rejected(s, "a section past the top", lambda: s.add_section(
                    top=c["top"] - 1 - f, **p))
            done.add(op)
            continue
        if op == "inverted":
            if td:
                rejected(s, "an inverted section", lambda: s.add_section(
                    bottom=a - 1 - f, **p))
            else:
                rejected(s, "an inverted section", lambda: s.add_section(
                    top=b + 1 + f, **p))
            done.add(op)
            continue
        if op == "end":
            at = round(a + f * room, 2)
            if not a < at < b:
                continue
            add = (a, at) if td else (at, b)
            end = {"bottom": at} if td else {"top": at}
        elif op == "rest":
            add = (a, b)
            end = {"bottom": b} if td else {"top": a}
        elif op == "default":
            add, end = (a, b), {}
        elif op == "length":
            x = round(f * room, 2)
            if not 0 < x < room:
                continue
            add, end = (b - x, b), {"length": x}
        elif op == "toolong":
            add, end = (a, b), {"length": room * (1 + f)}
        keep = dict(p)
        s.add_section(**p, **end)
        check(p == keep, "the caller's parameters")
        new = {"top": add[0], "bottom": add[1], "p": stored(kind, p)}
        model = model + [new] if td else [new] + model
        done.add(op)
        judge(s, model, c, f"{op} ({k})")
    judge(s, model, c, "at the end")
    if s.complete:
        cut(model, s, c, (c["top"] + 2 * c["bottom"]) / 3)
    return Info(len(model) > 1, [kind, str(c["way"]), "complete" if s.complete else ""]
                + sorted(done))


PROP = Prop("P24", [
    Facet("history", case(), run, 4000,
          rule="histories of sections added by length, end or default (also ones that "
               "don't fit) and moves to other depths, against a list model; "
               "non-trivial: two or more sections"),
])
