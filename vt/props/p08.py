"""P08 slicing a survey and splicing the parts gives the well back."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import make_header, nev
from .p05 import cov_of


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=3, max_n=10, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    n = len(c["md"])
    k = draw(st.integers(1, min(4, n - 1)))
    cuts = draw(st.lists(st.integers(1, n - 2), min_size=k - 1, max_size=k - 1,
                         unique=True)) if n > 2 and k > 1 else []
    c["cuts"] = sorted(cuts)
    a = draw(st.integers(0, n - 2))
    c["slice"] = [a, draw(st.one_of(st.none(), st.integers(a + 2, n)))]
    c["cov"] = draw(st.sampled_from(["none", "given", "model"]))
    c["radius"] = draw(st.booleans())
    if c["cov"] == "model":
        c["inc"] = [min(i, 80.0) for i in c["inc"]]
    return c


def build(c):
    kw = {}
    if c["cov"] == "given":
        kw["cov_nev"] = cov_of(c)
    if c["cov"] == "model":
        kw["error_model"] = "ISCWSA MWD Rev5.11"
    if c["radius"]:
        kw["radius"] = [0.1 + 0.01 * k for k in range(len(c["md"]))]
    h = make_header(c["h"])
    return we.survey.Survey(
        md=c["md"], inc=c["inc"], azi=c["azi"], header=h,
        unit=c["h"]["depth_unit"], start_nev=c["start_nev"], **kw)


def same(part, s, a, b, what):
    tol = 1e-5 + 1e-8 * (s.md[-1] - s.md[0])
    sl = slice(a, b)
    close(part.md, s.md[sl], 1e-9, what=f"{what} md")
    close(part.inc_rad, s.inc_rad[sl], 1e-9, what=f"{what} inclination")
    for nm in ("azi_grid_rad", "azi_true_rad", "azi_mag_rad"):
        d = angdiff(getattr(part, nm), getattr(s, nm)[sl])
        close(d, np.zeros(len(d)), 1e-9, what=f"{what} {nm}")
    close(nev(part), nev(s)[sl], tol, what=f"{what} positions")
    close(part.pos_nev, s.pos_nev[sl], tol, what=f"{what} pos_nev")
    close(part.vec_nev, s.vec_nev[sl], 1e-9, what=f"{what} directions")
    close(part.dls[1:], s.dls[sl][1:], 1e-6, 1e-6, what=f"{what} dls")
    close(part.radius, s.radius[sl], 0, what=f"{what} radius")
    check(part.unit == s.unit, f"{what} unit {part.unit}")
    close(part.start_nev, nev(s)[a], tol, what=f"{what} start")
    if s.cov_nev is None:
        check(part.cov_nev is None, f"{what} gained a covariance")
    else:
        sc = max(1.0, float(np.abs(s.cov_nev).max()))
        close(part.cov_nev / sc, s.cov_nev[sl] / sc, 1e-9, what=f"{what} cov_nev")
        close(part.cov_hla / sc, s.cov_hla[sl] / sc, 1e-9, what=f"{what} cov_hla")


def run(c):
    s = build(c)
    hd = copy.copy(vars(s.header))
    a, b = c["slice"]
    part = we.survey.slice_survey(s, a, b)
    same(part, s, a, b, "slice")
    n = len(c["md"])
    ends = [0] + c["cuts"] + [n - 1]
    parts = [we.survey.slice_survey(s, i, j + 1)
             for i, j in zip(ends, ends[1:])]
    for p, i, j in zip(parts, ends, ends[1:]):
        same(p, s, i, j + 1, f"part {i}..{j}")
    w = we.survey.splice_surveys(parts)
    same(w, s, 0, n, "spliced well")
    check(vars(s.header) == hd, "header of the whole well changed")
    # originals stated in the header's own reference splice as well
    same(we.survey.splice_surveys([s]), s, 0, n, "well spliced alone")
    check(len(parts[0].md) == ends[1] + 1, "splicing changed a part")
    return Info(len(parts) > 1 and len({*zip(c["inc"], c["azi"])}) > 1,
                [c["h"]["azi_reference"], c["h"]["depth_unit"], c["cov"],
                 f"parts={len(parts)}"])


@st.composite
def case_own(draw):
    c = draw(case())
    c["cov"] = draw(st.sampled_from(["none", "given"]))
    return c


def run_own(c):
    """Parts surveyed separately (same header reference) splice into the well."""
    s = build(c)
    n = len(c["md"])
    ends = [0] + c["cuts"] + [n - 1]
    cov = cov_of(c) if c["cov"] == "given" else None
    parts = []
    for i, j in zip(ends, ends[1:]):
        parts.append(we.survey.Survey(
            md=c["md"][i:j + 1], inc=c["inc"][i:j + 1], azi=c["azi"][i:j + 1],
            header=make_header(c["h"]), unit=c["h"]["depth_unit"],
            start_nev=nev(s)[i], radius=s.radius[i:j + 1],
            cov_nev=None if cov is None else cov[i:j + 1].copy()))
    w = we.survey.splice_surveys(parts)
    same(w, s, 0, n, "spliced well")
    if cov is not None and len(parts) > 1:
        # the uncertainty of the well isn't known where that of a part isn't
        k = c["slice"][0] % len(parts)
        p, i, j = parts[k], ends[k], ends[k + 1]
        parts[k] = we.survey.Survey(
            md=c["md"][i:j + 1], inc=c["inc"][i:j + 1], azi=c["azi"][i:j + 1],
            header=make_header(c["h"]), unit=c["h"]["depth_unit"],
            start_nev=nev(s)[i], radius=s.radius[i:j + 1])
        x = we.survey.splice_surveys(parts)
        check(x.cov_nev is None, "covariance of a well of which a part has none")
        close(nev(x), nev(w), 1e-9, what="well of which a part has no covariance")
    check(w.header.azi_reference == c["h"]["azi_reference"],
          "azimuth reference of the spliced well")
    return Info(len(parts) > 1 and len({*zip(c["inc"], c["azi"])}) > 1,
                [c["h"]["azi_reference"], c["h"]["depth_unit"], c["cov"]])


R = ("random well, header, cuts; covariances absent, given or from an error "
     "model; non-trivial: more than one part of a bending well")
PROP = Prop("P08", [
    Facet("slice", case(), run, 900, rule=R),
    Facet("own", case_own(), run_own, 700, rule=R),
])
