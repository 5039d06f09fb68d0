"""P38 the form in which numbers are passed doesn't matter."""
import numpy as np
from hypothesis import strategies as st

from .. import api
from ..core import Facet, Info, Prop, Skip, check
from .p09 import differ, fp

NAMES = sorted(api.ENTRIES)
SLOW = ("survey_to_plan", "MeshClearance")


def tuples(v):
    return tuple(tuples(x) for x in v) if isinstance(v, list) else v


def strided(v):
    """A view of every other item of something bigger."""
    a = np.full(tuple(2 * k for k in v.shape), 777.0)
    a[tuple(slice(None, None, 2) for _ in v.shape)] = v
    return a[tuple(slice(None, None, 2) for _ in v.shape)]


def locked(v):
    v = v.copy()
    v.setflags(write=False)
    return v


ARRAY = {
    "list": lambda v: v.tolist(),
    "list of integers": lambda v: v.astype(int).tolist(),
    "tuple": lambda v: tuples(v.tolist()),
    "integers": lambda v: v.astype(int),
    "32 bit integers": lambda v: v.astype(np.int32),
    "read only": locked,
    "Fortran": lambda v: np.asfortranarray(v),
    "strided": strided,
}
NUMBER = {"int": int, "int64": np.int64, "int32": np.int32, "float64": np.float64,
          "float": float}


@st.composite
def case_form(draw):
    return {"call": draw(st.sampled_from([k for k in NAMES for _ in range(
        1 if k in SLOW else 4)])),
        "array": draw(st.sampled_from(sorted(ARRAY))),
        "number": draw(st.sampled_from(sorted(NUMBER))), "c": draw(api.cases())}


def run_form(k):
    fn, *_ = api.ENTRIES[k["call"]]
    kept = []

    def f(v):
        x = ARRAY[k["array"]](api.plain(v))
        kept.append((x, np.array(x, dtype=float)))
        return x

    try:
        a = fp(api.shut(fn, k["c"], api.plain, float))
    except ValueError as e:
        raise Skip(f"{k['call']}: {e}")
    b = fp(api.shut(fn, k["c"], f, NUMBER[k["number"]]))
    d = differ(a, b)
    check(not d, lambda: f"{k['call']} with {k['array']} and {k['number']} isn't what "
                         f"it is with arrays of floats: {d}")
    for x, y in kept:
        check(np.array_equal(np.array(x, dtype=float), y),
              lambda: f"{k['call']} changes what it's given")
    return Info(bool(kept) or k["number"] != "float", (k["call"], k["array"]))


# ------------------------------------------------- some whole numbers, some not
@st.composite
def case_mixed(draw):
    return {"call": draw(st.sampled_from([k for k in NAMES for _ in range(
        1 if k in SLOW else 4)])), "c": draw(api.cases()),
        "whole": draw(st.lists(st.booleans(), min_size=6, max_size=6)),
        "part": draw(st.lists(st.sampled_from([0.0, 0.0, 0.25]), min_size=6, max_size=6))}


def run_mixed(k):
    """Depths in whole numbers go along with angles that aren't, and so on."""
    fn, *_ = api.ENTRIES[k["call"]]
    used = set()

    def form(integers):
        n = [0]

        def f(v):
            i = n[0] % 6
            n[0] += 1
            v = api.plain(v)
            if v.ndim == 1 and v.size > 2 and np.amax(np.abs(v)) > 1:
                v = v + k["part"][i]
            if np.any(v % 1):
                used.add("part")
            elif k["whole"][i]:
                used.add("whole")
                return v.astype(int) if integers else v
            return v
        return f

    try:
        a = fp(api.shut(fn, k["c"], form(False), float))
    except (ValueError, AssertionError) as e:
        raise Skip(f"{k['call']}: {e}")
    d = differ(a, fp(api.shut(fn, k["c"], form(True), float)))
    check(not d, lambda: f"{k['call']} with some arrays of integers isn't what it is "
                         f"with arrays of floats: {d}")
    return Info(len(used) == 2, k["call"])


PROP = Prop("P38", [
    Facet("form", case_form(), run_form, 1200,
          rule="the call ran and took at least one array, or a number that isn't a "
               "float"),
    Facet("mixed", case_mixed(), run_mixed, 800,
          rule="the call took an array of integers and one that isn't whole"),
])
