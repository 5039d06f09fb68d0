"""P18 leaving out an argument is the same as passing its documented default."""
from hypothesis import strategies as st

from .. import api
from ..core import Facet, Info, Prop, Skip, check
from .p09 import differ, fp

NAMES = sorted(k for k, (_, d, _) in api.ENTRIES.items()
               if any(v is not None for v in d.values()))
# (the method of the modified index first resamples the survey)
PAIRS = sorted(k for k in api.ENTRIES if k + " (function)" in api.ENTRIES
               and k != "modified_tortuosity_index")
SLOW = ("survey_to_plan",)


@st.composite
def case_default(draw):
    name = draw(st.sampled_from([k for k in NAMES for _ in range(
        1 if k in SLOW else 4)]))
    known = [k for k, v in api.ENTRIES[name][1].items() if v is not None]
    return {"call": name, "with": sorted(draw(st.sets(st.sampled_from(known),
                                                      min_size=1))),
            "c": draw(api.cases())}


def run_default(k):
    fn, defaults, _ = api.ENTRIES[k["call"]]
    try:
        a = fp(api.shut(fn, k["c"], api.plain, float))
    except ValueError as e:     # nothing to connect
        raise Skip(f"{k['call']}: {e}")
    given = {n: defaults[n] for n in k["with"]}
    b = fp(api.shut(fn, k["c"], api.plain, float, **given))
    d = differ(a, b)
    check(not d, lambda: f"{k['call']} with the documented {given} isn't what it is "
                         f"without: {d}")
    return Info(True, (k["call"],) + tuple(f"{k['call']} {n}" for n in k["with"]))


@st.composite
def case_pair(draw):
    name = draw(st.sampled_from(PAIRS))
    defaults = api.ENTRIES[name + " (function)"][1]
    kw = {}
    for k, v in defaults.items():
        if draw(st.booleans()):
            if k == "data":
                kw[k] = draw(st.booleans())
            elif k == "step":
                kw[k] = draw(st.sampled_from([7, 20, 45.5]))
            elif k == "rtol":
                kw[k] = draw(st.sampled_from([0.02, 0.3, 1.0]))
            elif k == "dls":
                kw[k] = draw(st.sampled_from([1e-8, 0.1]))
            elif k == "dls_tol":
                kw[k] = draw(st.sampled_from([1e-3, 0.1]))
    return {"call": name, "kw": kw, "c": draw(api.cases())}


def run_pair(k):
    out = [fp(api.shut(api.ENTRIES[n][0], k["c"], api.plain, float, **k["kw"]))
           for n in (k["call"], k["call"] + " (function)")]
    d = differ(*out)
    check(not d, lambda: f"the method {k['call']} and the function differ with "
                         f"{k['kw']}: {d}")
    return Info(bool(k["kw"]), (k["call"],))


PROP = Prop("P18", [
    Facet("default", case_default(), run_default, 1000,
          rule="the call ran to a result with the defaults left out and passed"),
    Facet("method", case_pair(), run_pair, 160,
          rule="at least one argument is passed on"),
])
