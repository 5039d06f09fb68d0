"""P16 error models evaluate their published weight functions."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Info, Prop, check, close
from ..weights import FT, MODELS, covariances, derivatives
from .p15 import NAMES, PARTS, domain, em_case, survey
import warnings

YAML = [m for m in NAMES if MODELS[m]["kind"] == "yaml" and MODELS[m]["terms"]]
JSON = [m for m in NAMES if MODELS[m]["kind"] == "json"]


@st.composite
def case_terms(draw, names, vertical):
    c = draw(em_case(names=names))
    n = len(c["md"])
    rev4 = c["model"].endswith("Rev4")
    if vertical:
        for k in range(0 if rev4 else 2, n):
            if draw(st.booleans()):
                c["inc"][k] = 0.0
    low = min(0.5, 0.02 * MODELS[c["model"]]["inc_max"])
    for k in range(n):
        keep = vertical and (rev4 or k != 1)
        if c["inc"][k] < low and not (keep and c["inc"][k] == 0):
            c["inc"][k] = low
    return c


def run_terms(c):
    domain(c)
    want, unknown = covariances(c, c["model"])
    u = FT ** 2 if c["h"]["depth_unit"] == "feet" else 1.0
    s = survey(c)
    got = s.err.errors.errors
    check(sorted(got) == sorted(want),
          lambda: f"terms {sorted(set(got) ^ set(want))} differ")
    for name, (prop, cov) in want.items():
        e = got[name]
        check(e.propagation == prop,
              f"{name} propagates {e.propagation}, published as {prop}")
        t = np.abs(cov).max()
        close(e.cov_NEV * u, cov, 2e-4 * t if name.startswith("XCL")
              else 1e-6 * t + 1e-12, what=f"covariance of {name} in {c['model']}")
    total = sum(v for _, v in want.values())
    t = np.abs(total).max()
    close(s.cov_nev * u, total, 1e-4 * t + 1e-12,
          what=f"total covariance of {c['model']}")
    for p in PARTS:
        part = sum((v for q, v in want.values() if q == p),
                   np.zeros_like(total))
        close(getattr(s, "cov_nev_" + p) * u, part,
              2e-4 * np.abs(part).max() + 1e-9, what=f"{p} covariance")
    # terms that can't be evaluated are announced
    if MODELS[c["model"]]["kind"] == "json":
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            from ..boot import we
            we.error.ErrorModel(s, c["model"])
        text = " ".join(str(x.message) for x in w
                        if issubclass(x.category, RuntimeWarning))
        for name in unknown:
            check(name in text, f"no warning that {name} isn't evaluated")
    inc = np.array(c["inc"])
    return Info(len(inc) > 2 and (inc > 0).any() and (inc < 80).any(),
                [c["model"].split("_")[0].split("+")[0],
                 "vertical" if (inc[2:] == 0).any() else "inclined"])


def run_derivatives(c):
    """The derivatives the propagation is made of, on their own."""
    domain(c)
    s = survey(c)
    sv = np.column_stack([s.md, np.radians(c["inc"]), s.azi_true_rad])
    m = s.err
    x = {"md": sv[:, 0], "inc": sv[:, 1], "true": sv[:, 2]}
    a, b = derivatives(x, c["model"].lower().split()[-1] == "rev4")
    keep = sv.copy()
    for k, nm in enumerate(("dDepth", "dInc", "dAz")):
        for fn, want in (("drk_", a), ("drkplus1_", b)):
            got = getattr(m, fn + nm)(sv)
            t = 1e-9 * (1 + np.abs(want).max())
            close(got, want[:, :, k], t, what=fn + nm)
    close(sv, keep, 0, what="stations")
    return Info(len(sv) > 2 and (sv[:, 1] > 0.01).any(), [c["model"].split()[-1]])


PROP = Prop("P16", [
    Facet("derivatives", em_case(names=NAMES), run_derivatives, 150,
          rule="the position derivatives of depth, inclination and azimuth of both "
               "intervals at each station"),
    Facet("terms", case_terms(YAML, False), run_terms, 700,
          rule="random MWD/EMS/... model and inclined well: each term against "
               "the published weight function; non-trivial: 3+ stations"),
    Facet("vertical", case_terms(YAML, True), run_terms, 400,
          rule="as terms, with vertical stations"),
    Facet("gyro", case_terms(JSON, False), run_terms, 250,
          rule="as terms, for the formula-driven (gyro) models"),
], ["an accelerometer or misalignment term of a vertical station is the north/"
    "east singularity of the published model"])
