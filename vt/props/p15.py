"""P15 positional uncertainty is a valid covariance for every tool model."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, Violation, check, close
from ..mk import grid_azi, make_header, nev
from ..weights import MODELS, excluded
from .p19 import psd, psd_of

NAMES = sorted(MODELS)
PARTS = ("random", "systematic", "global", "within_pad")


@st.composite
def em_case(draw, min_n=2, max_n=9, names=NAMES, unit=("meters", "feet")):
    # a few models at a time, so that every model is met often
    name = draw(st.sampled_from(names))
    m = MODELS[name]
    top = m["inc_max"]
    c = draw(gens.stations(
        min_n=min_n, max_n=max_n, min_step=5, max_step=300, long=True,
        max_inc=min(150.0, 0.95 * top),
        max_dinc=min(40.0, top / 3)))
    c["h"] = draw(gens.header(unit=unit))
    c["h"]["G"] = draw(st.one_of(st.just(9.80665), gens.q(9.77, 9.84, 0.0001)))
    c["h"]["latitude"] = draw(gens.q(-75, 75))
    c["start_nev"] = draw(gens.nev_offset)
    c["model"] = name
    return c


def survey(c, n=None, **kw):
    kw.setdefault("error_model", c["model"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return we.survey.Survey(
            md=c["md"][:n], inc=c["inc"][:n], azi=c["azi"][:n],
            header=make_header(c["h"]), unit=c["h"]["depth_unit"],
            start_nev=c["start_nev"], **kw)


def domain(c):
    if MODELS[c["model"]]["ax"] and excluded(c):
        raise Skip("horizontal east-west exclusion")


def valid(cov, what, tol=1e-9):
    check(np.isfinite(cov).all(), f"{what} isn't finite")
    scale = np.abs(cov).max(axis=(1, 2))[:, None, None] + 1e-12
    close(cov / scale, np.transpose(cov, (0, 2, 1)) / scale, tol,
          what=f"{what} is symmetric")
    w = np.linalg.eigvalsh((cov + np.transpose(cov, (0, 2, 1))) / 2)
    check((w.min(axis=1) >= -1e-8 * scale[:, 0, 0]).all(),
          lambda: f"{what} has negative eigenvalues: {w.min()}")


@st.composite
def case_models(draw):
    c = draw(em_case())
    c["start_cov"] = draw(st.one_of(st.none(), psd()))
    return c


def run_models(c):
    domain(c)
    s = survey(c)
    n = len(c["md"])
    bare = survey(c, error_model=None)
    close(nev(s), nev(bare), 0, what="positions with an error model")
    for w in ("nev", "hla"):
        check(np.shape(getattr(s, "cov_" + w)) == (n, 3, 3), f"cov_{w} shape")
    cov = s.cov_nev
    top = np.abs(cov).max() + 1e-9
    valid(cov, "cov_nev")
    valid(s.cov_hla, "cov_hla")
    close(cov[0], np.zeros((3, 3)), 1e-12, what="uncertainty of the first station")
    total = np.zeros((n, 3, 3))
    for p in PARTS:
        part = getattr(s, "cov_nev_" + p)
        valid(part, "cov_nev_" + p)
        total = total + part
    close(total, cov, 1e-10 * top, what="sum of the propagation modes")
    terms = s.err.errors.errors
    if terms:
        close(sum(e.cov_NEV for e in terms.values()), cov, 1e-10 * top,
              what="sum of the terms")
    for e in terms.values():
        valid(e.cov_NEV, f"term {e.code}")
    for p in PARTS:
        got = sum((e.cov_NEV for e in terms.values() if e.propagation == p),
                  np.zeros((n, 3, 3)))
        close(getattr(s, "cov_nev_" + p), got, 1e-10 * top,
              what=f"sum of the {p} terms")
    # the same uncertainty about the axes of the hole (true azimuth)
    true = np.radians(np.array(grid_azi(c["h"], c["azi"])) + c["h"]["convergence"])
    for k in range(n):
        m = geo.hla_axes(math.radians(c["inc"][k]), true[k])
        close(s.cov_hla[k], m @ cov[k] @ m.T, 1e-8 * top, what=f"cov_hla at {k}")
    # diagnostics
    d = we.error.make_diagnostic_data(s)
    for k, md in enumerate(s.md):
        want = [cov[k][0, 0], cov[k][1, 1], cov[k][2, 2], cov[k][0, 1],
                cov[k][0, 2], cov[k][1, 2]]
        if terms:
            close(d[md]["TOTAL"], want, 1e-10 * top, what=f"diagnostic total at {k}")
        for name, e in terms.items():
            close(d[md][name], we.error.get_errors(e.cov_NEV[k]), 0,
                  what=f"diagnostic of {name}")
    # asking for it afterwards is the same
    late = survey(c, error_model=None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = late.get_error(c["model"])
        err = late.get_error(c["model"], return_error=True)
    check(got is late, "get_error returns the survey")
    close(late.cov_nev, cov, 1e-12 * top, what="get_error covariance")
    close(err.errors.cov_NEVs, cov, 1e-12 * top, what="returned error covariance")
    # an uncertain start moves the whole well
    if c["start_cov"]:
        c0 = psd_of(c["start_cov"])
        keep = c0.copy()
        b = survey(c, start_cov_nev=c0)
        close(b.cov_nev, cov + c0, 1e-9 * (top + np.abs(c0).max()),
              what="covariance with an uncertain start")
        close(c0, keep, 0, what="caller's start covariance")
        valid(b.cov_hla, "cov_hla with an uncertain start")
        # ... also to covariances that are given
        given = cov + np.eye(3)
        b = survey(c, error_model=None, cov_nev=given.copy(), start_cov_nev=c0)
        close(b.cov_nev, given + c0, 1e-9 * (top + 1 + np.abs(c0).max()),
              what="given covariance with an uncertain start")
    k = MODELS[c["model"]]["kind"]
    vert = (np.array(c["inc"]) == 0).any()
    return Info(bool(terms) and n > 2 and max(c["inc"]) > 0,
                [k, "vertical stations" if vert else "inclined"])


@st.composite
def case_prefix(draw):
    c = draw(em_case(min_n=3))
    c["keep"] = draw(st.integers(2, len(c["md"]) - 1))
    c["flat"] = draw(st.booleans())
    if c["flat"]:       # the last station kept is vertical
        c["inc"][c["keep"] - 1] = 0.0
    return c


def run_prefix(c):
    domain(c)
    a = survey(c)
    n = c["keep"]
    b = survey(c, n)
    top = np.abs(a.cov_nev[:n]).max() + 1e-9
    close(b.cov_nev, a.cov_nev[:n], 1e-9 * top,
          what=f"covariance of the first {n} stations, surveyed on their own")
    for nm, e in a.err.errors.errors.items():
        t = np.abs(e.cov_NEV[:n]).max() + 1e-9
        close(b.err.errors.errors[nm].cov_NEV, e.cov_NEV[:n], 1e-8 * t,
              what=f"term {nm} of the first {n} stations")
    return Info(MODELS[c["model"]]["terms"] and max(c["inc"]) > 0,
                ["vertical end" if c["inc"][n - 1] == 0 else "inclined end"])


@st.composite
def case_reject(draw):
    c = draw(em_case())
    c["over"] = draw(st.one_of(st.just(0.0), gens.q(0.01, 20)))
    c["at"] = draw(st.integers(0, len(c["md"]) - 1))
    c["bad"] = draw(st.text(
        alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ+-_ 0123456789", max_size=12))
    return c


def rejects(f, what):
    try:
        f()
    except AssertionError:
        return
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__} {e}")
    raise Violation(f"{what} was accepted")


def run_reject(c):
    domain(c)
    m = MODELS[c["model"]]
    listed = we.error.get_error_models()
    check(c["model"] in listed, f"{c['model']} isn't listed")
    for name in NAMES:
        check(name in listed, f"{name} isn't listed")
    if m["inc_max"] < 180:
        bad = dict(c)
        bad["inc"] = list(c["inc"])
        bad["inc"][c["at"]] = m["inc_max"] + c["over"] + 1e-6
        rejects(lambda: survey(bad), "an inclination beyond the model's range")
    if c["bad"] not in listed and c["bad"] != "ISCWSA MWD Rev5":
        rejects(lambda: survey(c, error_model=c["bad"]), "an unknown error model")
        rejects(lambda: survey(c, error_model=None).get_error(c["bad"]),
                "an unknown error model given to get_error")
    # the deprecated name
    h = make_header(c["h"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h,
                             unit=c["h"]["depth_unit"], start_nev=c["start_nev"],
                             error_model="ISCWSA MWD Rev5")
    check(any(issubclass(x.category, DeprecationWarning) for x in w),
          "the deprecated name gives no DeprecationWarning")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"],
                             header=make_header(c["h"]),
                             unit=c["h"]["depth_unit"], start_nev=c["start_nev"],
                             error_model="ISCWSA MWD Rev5.11")
        em = we.error.ErrorModel(t)
    check(not any(issubclass(x.category, DeprecationWarning) for x in w),
          "the current name is deprecated")
    close(s.cov_nev, t.cov_nev, 0, what="deprecated name's covariance")
    close(em.errors.cov_NEVs, t.cov_nev, 0, what="default error model")
    return Info(True, ["limited" if m["inc_max"] < 180 else "unlimited"])


def run_listed(c):
    """Every listed model can be used."""
    s = survey(c)
    valid(s.cov_nev, "cov_nev")
    return Info(True)


def case_listed():
    base = {"md": [0.0, 500.0, 1000.0], "inc": [0.0, 2.0, 4.0],
            "azi": [0.0, 30.0, 40.0], "start_nev": [0.0, 0.0, 0.0],
            "h": {"azi_reference": "grid", "convergence": 0.0,
                  "declination": 0.0, "depth_unit": "meters",
                  "b_total": 50000.0, "dip": 70.0, "G": 9.80665,
                  "latitude": 60.0}}
    names = [m for m in we.error.get_error_models()
             if m != "spe-90408-ma_example_table_3"]
    return st.sampled_from(names).map(lambda m: {**base, "model": m})


PROP = Prop("P15", [
    Facet("models", case_models(), run_models, 700,
          rule="random listed model, well within its inclination range, header "
               "and unit; non-trivial: the model has terms, the well has 3+ "
               "stations and isn't all vertical"),
    Facet("prefix", case_prefix(), run_prefix, 500,
          rule="random model and well, cut after 2+ stations (half of them "
               "vertical at the cut); non-trivial: as above"),
    Facet("reject", case_reject(), run_reject, 120,
          rule="random model with one station beyond its range, random names"),
    Facet("listed", case_listed(), run_listed, 150,
          rule="every listed model on a near vertical well"),
], ["outside of 15 degrees of horizontal east-west for axially corrected models, "
    "whose published exclusion that is"])
