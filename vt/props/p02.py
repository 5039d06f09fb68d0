"""P02 azimuth reference and angle-unit equivalence."""
import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close
from ..mk import make_header, nev

REFS = ("grid", "true", "magnetic")


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=3, max_n=9, long=True))
    c["h"] = draw(gens.header())
    del c["h"]["azi_reference"]
    c["vsa"] = draw(st.one_of(st.just(0.0), gens.angle_deg))
    c["start_nev"] = draw(gens.nev_offset)
    return c


def offset_of(ref, conv, decl):
    """azimuth in `ref` minus grid azimuth (degrees)."""
    return {"grid": 0.0, "true": conv, "magnetic": conv - decl}[ref]


def build(c, ref, deg, **kw):
    hd = dict(c["h"])
    azi = np.array(c["azi"], float) + offset_of(
        ref, hd["convergence"], hd["declination"])
    inc = np.array(c["inc"], float)
    if deg:
        h = make_header(hd, azi_reference=ref,
                        vertical_section_azimuth=c["vsa"])
    else:
        # the header states its own angles in radians too
        hd2 = dict(hd)
        for k in ("convergence", "declination", "dip"):
            hd2[k] = float(np.radians(hd2[k]))
        h = make_header(hd2, azi_reference=ref, deg=False,
                        vertical_section_azimuth=float(np.radians(c["vsa"])),
                        vertical_inc_limit=float(np.radians(0.0001)))
        azi, inc = np.radians(azi), np.radians(inc)
    return we.survey.Survey(
        md=c["md"], inc=inc, azi=azi, deg=deg, header=h,
        unit=hd["depth_unit"], start_nev=c["start_nev"], **kw)


def cls(c):
    out = [c["h"]["depth_unit"]]
    if any(i == 0 and a != 0 for i, a in zip(c["inc"], c["azi"])):
        out.append("vertical-with-azimuth")
    if c["h"]["convergence"] and c["h"]["declination"]:
        out.append("conv+decl")
    return out


def nontrivial(c):
    return (c["h"]["convergence"] != 0 or c["h"]["declination"] != 0) and \
        any(i > 0 for i in c["inc"])


def run_equiv(c):
    conv, decl = c["h"]["convergence"], c["h"]["declination"]
    base = None
    for ref in REFS:
        for deg in (True, False):
            s = build(c, ref, deg)
            tag = f"{ref}/{'deg' if deg else 'rad'}"
            want = {"grid": np.array(c["azi"]),
                    "true": np.array(c["azi"]) + conv,
                    "magnetic": np.array(c["azi"]) + conv - decl}
            for nm, key in (("grid", "grid"), ("true", "true"),
                            ("mag", "magnetic")):
                d = getattr(s, f"azi_{nm}_deg")
                r = getattr(s, f"azi_{nm}_rad")
                close(angdiff(np.radians(d), np.radians(want[key])),
                      np.zeros(len(d)), 1e-9, what=f"{tag} azi_{nm}_deg")
                close(angdiff(r, np.radians(want[key])),
                      np.zeros(len(d)), 1e-9, what=f"{tag} azi_{nm}_rad")
            close(s.inc_deg, c["inc"], 1e-9, what=f"{tag} inc_deg")
            close(s.inc_rad, np.radians(c["inc"]), 1e-12, what=f"{tag} inc_rad")
            check(s.header.azi_reference == ref, "header reference changed")
            p = nev(s)
            if base is None:
                base = (p, s.vec_nev, s.dls, s.pos_xyz)
            else:
                for got, want_, nm in zip(
                        (p, s.vec_nev, s.dls, s.pos_xyz), base,
                        ("positions", "directions", "dls", "xyz")):
                    close(got, want_, 1e-6, 1e-9, what=f"{tag} {nm}")
    return Info(nontrivial(c), cls(c))


MODELS = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+SRGM+AX+SAG",
          "GYRO-NS", "BLIND"]


@st.composite
def case_cov(draw):
    c = draw(case())
    c["model"] = draw(st.sampled_from(
        [m for m in MODELS if m in we.error.ERROR_MODELS]))
    lim = 85.0
    c["inc"] = [min(i, lim) for i in c["inc"]]
    return c


def run_cov(c):
    ref = build(c, "grid", True, error_model=c["model"]).cov_nev
    for r in REFS:
        for deg in (True, False):
            s = build(c, r, deg, error_model=c["model"])
            scale = max(1.0, float(np.abs(ref).max()))
            close(s.cov_nev / scale, ref / scale, 1e-7,
                  what=f"covariance stated with {r} azimuths, deg={deg}")
    return Info(nontrivial(c), cls(c) + [c["model"]])


PROP = Prop("P02", [
    Facet("equiv", case(), run_equiv, 1500,
          rule="random well, convergence, declination, unit and section azimuth; "
               "the same well stated six ways; non-trivial: some rotation is "
               "non-zero and the well is not vertical"),
    Facet("cov", case_cov(), run_cov, 160,
          rule="as equiv with an error model attached"),
])
