"""P30 vertical section."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from ..mk import grid_azi, make_header, nev


@st.composite
def case(draw):
    c = draw(gens.stations(min_n=2, max_n=8, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    c["vs"] = draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), gens.angle_deg))
    c["how"] = draw(st.sampled_from(["header", "get", "get_rad", "set", "set_rad"]))
    c["cut"] = draw(st.integers(0, 20))
    c["other"] = draw(gens.angle_deg)
    return c


def run(c):
    kw = {}
    if c["how"] == "header":
        kw["vertical_section_azimuth"] = math.radians(c["vs"])
    elif c["how"].startswith("set"):
        kw["vertical_section_azimuth"] = math.radians(c["other"])
    hd = make_header(c["h"], **kw) if c["how"] != "header" else make_header(
        c["h"], vertical_section_azimuth=c["vs"])
    s = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=hd,
                         unit=c["h"]["depth_unit"], start_nev=c["start_nev"])
    before = nev(s), s.azi_grid_deg.copy(), s.azi_true_deg.copy(), s.azi_mag_deg.copy()
    if c["how"] == "header":
        got = s.vertical_section
    elif c["how"] == "get":
        got = s.get_vertical_section(c["vs"])
    elif c["how"] == "get_rad":
        got = s.get_vertical_section(math.radians(c["vs"]), deg=False)
    elif c["how"] == "set":
        s.set_vertical_section(c["vs"])
        got = s.vertical_section
    else:
        s.set_vertical_section(math.radians(c["vs"]), deg=False)
        got = s.vertical_section
    a = math.radians(float(grid_azi(c["h"], c["vs"])))
    p = geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])
    d = p.pos - p.pos[0]
    want = d[:, 0] * math.cos(a) + d[:, 1] * math.sin(a)
    tol = 1e-5 + 1e-8 * (c["md"][-1] - c["md"][0])
    got = np.asarray(got, float)
    check(got.size == len(c["md"]), f"vertical section has shape {got.shape}")
    close(got.reshape(-1), want, tol, what="vertical section")
    if c["how"].startswith("set"):
        # the header keeps it for surveys made from this one
        s2 = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=s.header,
                              unit=c["h"]["depth_unit"], start_nev=c["start_nev"])
        close(np.ravel(s2.vertical_section), want, tol,
              what="vertical section of a survey with the updated header")
    if c["how"] in ("header", "set", "set_rad"):
        # ... and for interpolated ones, at the same depths
        r = s.interpolate_survey(step=50)
        for m, v in zip(s.md, want):
            j = int(np.abs(r.md - m).argmin())
            close(np.ravel(r.vertical_section)[j], v, 10 * tol,
                  what=f"vertical section of the resampled survey at {m}")
        k = c["cut"] % (len(c["md"]) - 1)
        z = we.survey.slice_survey(s, k, None)
        close(np.ravel(z.vertical_section), want[k:] - want[k], tol,
              what="vertical section of a slice")
    check((nev(s) == before[0]).all(), "positions changed")
    for x, y in zip((s.azi_grid_deg, s.azi_true_deg, s.azi_mag_deg), before[1:]):
        check((np.asarray(x) == y).all(), "azimuths changed")
    return Info(np.abs(d[:, :2]).max() > 1, [c["how"], c["h"]["azi_reference"],
                                             c["h"]["depth_unit"]])


PROP = Prop("P30", [
    Facet("section", case(), run, 1200,
          rule="random well, header, section azimuth (in the header, asked for, or "
               "set; degrees or radians); non-trivial: the well moves sideways"),
])
