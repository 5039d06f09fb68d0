"""P33 map coordinates and survey headers."""
import datetime
import math

import numpy as np
import pyproj
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import nev

SP = we.survey.SurveyParameters

# projections (and a box of longitudes and latitudes where they are in use)
CRS = {
    "EPSG:23031": (0, 6, 40, 70), "EPSG:32631": (0, 6, 0, 80),
    "EPSG:25831": (0, 6, 40, 70), "EPSG:23032": (6, 12, 40, 70),
    "EPSG:28992": (3.5, 7, 51, 53.4), "EPSG:27700": (-6, 1, 50, 58),
    "EPSG:26915": (-96, -90, 25, 60), "EPSG:32733": (12, 18, -60, 0),
    "EPSG:32118": (-74.2, -72, 40.5, 41.2), "EPSG:31467": (7.5, 10.5, 47, 54),
    "EPSG:2193": (167, 178, -46, -35), "EPSG:31700": (21, 29, 44, 48),
    "EPSG:2100": (20, 28, 35, 41),
}
FEET = {"EPSG:2263": (-74.2, -72, 40.5, 41.2), "EPSG:2277": (-100, -95, 30, 32)}
NORTHING_FIRST = {"EPSG:31467", "EPSG:2193", "EPSG:31700"}


def base(epsg):
    crs = pyproj.CRS(epsg)
    return crs, crs.geodetic_crs, pyproj.Proj(epsg)


@st.composite
def place(draw, table=CRS):
    epsg = draw(st.sampled_from(sorted(table)))
    lo, hi, s, n = table[epsg]
    return {"epsg": epsg, "lon": draw(gens.q(lo + 0.1, hi - 0.1, 0.001)),
            "lat": draw(gens.q(s + 0.1, n - 0.1, 0.001))}


@st.composite
def case_factors(draw):
    c = draw(place({**CRS, **FEET}))
    c["date"] = draw(st.one_of(st.none(), st.sampled_from(
        ["2020-01-01", "1999-12-31", "2024-02-29"])))
    c["alt"] = draw(st.one_of(st.none(), gens.q(0, 500, 0.1)))
    c["r"] = draw(gens.q(1, 100))
    return c


def run_factors(c):
    crs, geog, proj = base(c["epsg"])
    x, y = proj(c["lon"], c["lat"])
    sp = SP(c["epsg"])
    f = sp.get_factors_from_x_y(x=x, y=y, altitude=c["alt"], date=c["date"])
    close(f["longitude"], c["lon"], 1e-7, what="longitude")
    close(f["latitude"], c["lat"], 1e-7, what="latitude")
    check(f["x"] == x and f["easting"] == x, "x isn't the easting")
    check(f["y"] == y and f["northing"] == y, "y isn't the northing")
    # and it projects back
    close(sp(f["longitude"], f["latitude"]), (x, y), 1e-2, what="projected back")
    # the grid direction and length of a short step along the meridian
    u = crs.axis_info[0].unit_conversion_factor
    geod = crs.get_geod()
    d = 50.0

    def step(az):
        a = geod.fwd(c["lon"], c["lat"], az, d)
        b = geod.fwd(c["lon"], c["lat"], az + 180, d)
        p, q = np.array(proj(*a[:2])), np.array(proj(*b[:2]))
        return (p - q) * u / (2 * d)
    n = step(0)
    k = math.hypot(*n)
    # true = grid + convergence: the grid azimuth of true north is -convergence
    conv = -math.degrees(math.atan2(n[0], n[1]))
    close(f["convergence"], conv, 1e-4, what="convergence")
    close(f["scale_factor"], k, 1e-6, what="scale factor")
    for az in (45.0, 90.0):
        v = step(az)
        close(math.degrees(angdiff(math.atan2(v[0], v[1]),
                                   math.radians(az - f["convergence"]))), 0, 1e-3,
              what=f"grid azimuth of true azimuth {az}")
    today = datetime.date.today()
    want = [c["date"]] if c["date"] else [
        str(today), str(today - datetime.timedelta(days=1))]
    check(f["date"] in want, lambda: f"date {f['date']}")
    check(f["srs"] == sp.crs.srs, "srs")
    # the factors are header inputs: true directions come out as grid ones
    h = we.survey.SurveyHeader(
        latitude=f["latitude"], longitude=f["longitude"], azi_reference="true",
        convergence=f["convergence"], grid_scale_factor=f["scale_factor"],
        b_total=50000.0, dip=70.0, declination=0.0)
    close(h.convergence, math.radians(conv), 1e-5, what="header convergence")
    s = we.survey.Survey(md=[0, 100], inc=[90, 90], azi=[0, 0], header=h)
    close(s.pos_nev[1], [100 * n[1], 100 * n[0], 0], 1e-2,
          what="grid position 100 true north")
    return Info(abs(conv) > 1e-3, [c["epsg"]])


@st.composite
def case_transform(draw):
    a = draw(place())
    # a second projection covering the same ground
    near = [k for k, b in CRS.items()
            if b[0] - 1 <= a["lon"] <= b[1] + 1 and b[2] <= a["lat"] <= b[3]]
    return {"from": a["epsg"], "to": draw(st.sampled_from(sorted(near))),
            "pts": [[a["lon"], a["lat"]]] + [
                [a["lon"] + draw(gens.q(-0.05, 0.05, 0.001)),
                 a["lat"] + draw(gens.q(-0.05, 0.05, 0.001))]
                for _ in range(draw(st.integers(0, 4)))],
            "dims": draw(st.sampled_from([2, 3])), "z": draw(gens.q(0, 300, 0.1)),
            "form": draw(st.sampled_from(["list", "tuple", "array", "single",
                                          "single array"]))}


def run_transform(c):
    crs, geog, proj = base(c["from"])
    to, tgeog, tproj = base(c["to"])
    ll = np.array(c["pts"])
    xy = np.column_stack(proj(ll[:, 0], ll[:, 1]))
    if c["dims"] == 3:
        xy = np.column_stack([xy, np.full(len(xy), c["z"])])
    if c["form"].startswith("single"):
        xy, ll = xy[:1], ll[:1]
    arg = {"list": xy.tolist(), "tuple": tuple(map(tuple, xy)), "array": xy.copy(),
           "single": xy[0].tolist(), "single array": xy[0].copy()}[c["form"]]
    sp = SP(c["from"])
    out = np.asarray(sp.transform_coordinates(arg, c["to"]))
    check(out.shape == xy.shape, lambda: f"shape {out.shape} for {xy.shape}")
    # there and back
    back = np.asarray(SP(c["to"]).transform_coordinates(out, c["from"]))
    # (between datums PROJ may take another operation back near the edge of
    # an area of use)
    close(back[:, :2], xy[:, :2], 0.05 if geog == tgeog else 600,
          what="there and back")
    # x stays the easting: the points are within datum shifts of their place
    m = np.isfinite(out[:, :2]).all()
    check(m, "coordinates not finite")
    lon, lat = tproj(out[:, 0], out[:, 1], inverse=True)
    _, _, off = to.get_geod().inv(lon, lat, ll[:, 0], ll[:, 1])
    check(np.max(off) < 600, lambda: f"moved by {np.max(off)} m")
    if geog == tgeog:
        want = np.column_stack(tproj(ll[:, 0], ll[:, 1]))
        close(out[:, :2], want, 1e-2, what="coordinates in the same datum")
    else:
        t = pyproj.Transformer.from_crs(crs, to, always_xy=True)
        want = np.column_stack(t.transform(*xy.T[:2]))
        close(out[:, :2], want, 0.5, what="coordinates in another datum")
    # longitudes and latitudes of the projection's own datum
    g = np.asarray(sp.transform_coordinates(arg, geog.to_string()))
    close(g[:, :2], ll, 1e-6, what="geographic coordinates")
    if c["from"] == c["to"]:
        close(out[:, :2], xy[:, :2], 1e-3, what="the same projection")
    return Info(c["from"] != c["to"],
                [c["form"], f"{c['dims']}D", "datum shift" if geog != tgeog
                 else "same datum", "northing first" if {c["from"], c["to"]}
                 & NORTHING_FIRST else "easting first"])


# --- headers ----------------------------------------------------------------
UNITS = {"m": "meters", "meters": "meters", "ft": "feet", "feet": "feet"}


@st.composite
def case_header(draw):
    opt = lambda s: draw(st.one_of(st.none(), s))
    return {"lat": opt(gens.q(-90, 90)), "lon": opt(gens.q(-180, 180)),
            "alt": opt(gens.q(-100, 3000)), "b": draw(gens.q(20000, 70000, 1)),
            "dip": draw(gens.q(-90, 90)), "dec": draw(gens.q(-40, 40)),
            "conv": draw(gens.q(-6, 6)), "vsa": draw(gens.angle_deg),
            "ref": draw(st.sampled_from(["true", "magnetic", "grid"])),
            "du": draw(st.sampled_from(sorted(UNITS))),
            "su": draw(st.sampled_from(sorted(UNITS))),
            "scale": draw(st.one_of(st.just(1.0), gens.q(0.99, 1.01, 0.0001))),
            "date": draw(st.one_of(st.none(), st.dates(
                datetime.date(1900, 1, 1), datetime.date(2090, 1, 1)).map(str))),
            "vil": draw(gens.q(0, 1, 0.0001)), "G": draw(gens.q(9.7, 9.9)),
            "rate": draw(gens.q(0.2, 0.3, 0.0001)), "name": opt(st.just("A-1")),
            "bad": draw(st.sampled_from(["lat+", "lat-", "lon+", "lon-", "ref",
                                         "date", "month"])),
            "by": draw(gens.q(0.01, 90)), "st": draw(gens.stations(max_n=5)),
            "mag": draw(st.booleans())}


def run_header(c):
    kw = dict(name=c["name"], latitude=c["lat"], longitude=c["lon"],
              altitude=c["alt"], survey_date=c["date"], G=c["G"], b_total=c["b"],
              earth_rate=c["rate"], azi_reference=c["ref"], depth_unit=c["du"],
              surface_unit=c["su"], grid_scale_factor=c["scale"])
    ang = dict(dip=c["dip"], declination=c["dec"], convergence=c["conv"],
               vertical_inc_limit=c["vil"], vertical_section_azimuth=c["vsa"])
    rad = {k: math.radians(v) for k, v in ang.items()}
    H = we.survey.SurveyHeader
    out = []
    today = datetime.date.today()
    for h in (H(**kw, **ang), H(**kw, **ang, deg=True), H(**kw, **rad, deg=False)):
        for k, v in rad.items():
            close(getattr(h, k), v, 1e-12, what=f"{k} in radians")
        for k in ("name", "G", "b_total", "earth_rate", "azi_reference",
                  "grid_scale_factor"):
            check(getattr(h, k) == kw[k], lambda: f"{k} {getattr(h, k)}")
        check(h.depth_unit == UNITS[c["du"]], "depth unit")
        check(h.surface_unit == UNITS[c["su"]], "surface unit")
        check(h.latitude == (51.4934 if c["lat"] is None else c["lat"]), "latitude")
        check(h.longitude == (0.0098 if c["lon"] is None else c["lon"]), "longitude")
        check(h.altitude == (0 if c["alt"] is None else c["alt"]), "altitude")
        check(h.survey_date in ([c["date"]] if c["date"] else
              [str(today), str(today - datetime.timedelta(days=1))]), "survey date")
        out.append(h)
    if c["mag"]:
        # the caller's defaults stand in for fields that can't be looked up
        k = {a: v for a, v in ang.items() if a != "declination"}
        h = H(**{**kw, "b_total": None}, **k,
              mag_defaults={"b_total": c["b"], "dip": c["dip"],
                            "declination": c["dec"]})
        if not getattr(we.survey, "MAG_CALC", True):
            check(h.b_total == c["b"], "default field")
            close(h.declination, rad["declination"], 1e-12, what="default declination")
            hr = H(**{**kw, "b_total": None}, deg=False,
                   **{a: v for a, v in rad.items() if a != "declination"},
                   mag_defaults={"b_total": c["b"], "dip": c["dip"],
                                 "declination": c["dec"]})
            close(hr.declination, rad["declination"], 1e-12,
                  what="default declination (angles in radians)")
    # the same well from either
    sv = [we.survey.Survey(md=c["st"]["md"], inc=c["st"]["inc"], azi=c["st"]["azi"],
                           header=h, unit=h.depth_unit) for h in (out[0], out[2])]
    close(nev(sv[1]), nev(sv[0]), 1e-6, what="positions")
    close(sv[1].vertical_section, sv[0].vertical_section, 1e-6,
          what="vertical section")
    # what can't be is refused
    bad = {"lat+": {"latitude": 90 + c["by"]}, "lat-": {"latitude": -90 - c["by"]},
           "lon+": {"longitude": 180 + c["by"]},
           "lon-": {"longitude": -180 - c["by"]},
           "ref": {"azi_reference": "compass"}, "date": {"survey_date": "01/02/2020"},
           "month": {"survey_date": "2020-13-01"}}[c["bad"]]
    try:
        H(**{**kw, **ang, **bad})
    except (AssertionError, ValueError):
        pass
    else:
        check(False, lambda: f"{bad} accepted")
    return Info(True, [c["ref"], UNITS[c["du"]], c["bad"]])


@st.composite
def case_default(draw):
    return {"bounds": draw(st.sampled_from([(90, 180), (-90, -180), (0, 0)])),
            "st": draw(gens.stations(max_n=5))}


def run_default(c):
    """Extremes are places too, and headers don't share state."""
    H = we.survey.SurveyHeader
    h = H(latitude=c["bounds"][0], longitude=c["bounds"][1])
    check((h.latitude, h.longitude) == tuple(c["bounds"]), "place")
    a, b = H(), H()
    a.mag_defaults  # present
    a.convergence, a.name = 0.1, "changed"
    check(b.convergence == 0 and b.name is None, "headers share state")
    check(b.azi_reference == "true" and b.depth_unit == "meters"
          and b.surface_unit == "meters", "defaults")
    check(b.vertical_section_azimuth == 0 and b.grid_scale_factor == 1, "defaults")
    close(b.vertical_inc_limit, math.radians(0.0001), 1e-15, what="default limit")
    return Info(True)


# --- magnetic values, looked up ----------------------------------------------
@st.composite
def case_mag(draw):
    opt = lambda s: draw(st.one_of(st.none(), s))
    return {"lat": opt(gens.q(-90, 90)), "lon": opt(gens.q(-180, 180)),
            "alt": opt(gens.q(-100, 3000)), "b": opt(gens.q(20000, 70000, 1)),
            "dip": opt(gens.q(-90, 90)), "dec": opt(gens.q(-40, 40)),
            "date": draw(st.one_of(st.none(), st.dates(
                datetime.date(1900, 1, 1), datetime.date(2090, 1, 1)).map(str))),
            "deg": draw(st.booleans()),
            "since": draw(st.sampled_from(["1900-01-01", "2015-01-01", "2020-06-01",
                                           "9999-01-01"])),
            "utm": draw(st.integers(28, 33)), "x": draw(gens.q(3e5, 7e5, 1)),
            "y": draw(gens.q(1e6, 8e6, 1)), "alt2": opt(gens.q(0, 3000)),
            "date2": draw(st.one_of(st.none(), st.just("2019-03-01"),
                                    st.just("2022-11-30")))}


class Lookup:
    """Stands in for the service: a field of the place, height and date."""

    def __init__(self, since):
        self.since, self.calls = since, []

    def __enter__(self):
        import magnetic_field_calculator as m
        self.cls = m.MagneticFieldCalculator
        self.was, self.on = self.cls.calculate, we.survey.MAG_CALC
        look = self

        def calculate(_, latitude, longitude, altitude=None, depth=None, radius=None,
                      year=None, date=None, username=None, password=None):
            look.calls.append((latitude, longitude, altitude, date))
            if (date or str(datetime.date.today())) < look.since:
                raise m.ApiError("the date is beyond the model")
            b, i, d = look.field(latitude, longitude, altitude, date)
            return {"field-value": {
                "total-intensity": {"units": "nT", "value": b},
                "inclination": {"units": "deg (down)", "value": i},
                "declination": {"units": "deg (east)", "value": d}}}
        self.cls.calculate = calculate
        we.survey.MAG_CALC = True
        return self

    def __exit__(self, *a):
        self.cls.calculate, we.survey.MAG_CALC = self.was, self.on

    @staticmethod
    def field(lat, lon, alt, date):
        t = datetime.date.fromisoformat(date or str(datetime.date.today())).toordinal()
        return (30000 + 200 * abs(lat) + (alt or 0) / 10 + t % 997,
                round(0.7 * lat + 0.01 * lon, 3), round(lon / 10 + t % 7, 3))


def run_mag(c):
    kw = dict(latitude=c["lat"], longitude=c["lon"], altitude=c["alt"],
              survey_date=c["date"], deg=c["deg"])
    f = 1 if c["deg"] else math.pi / 180
    for a, b in (("b", "b_total"), ("dip", "dip"), ("dec", "declination")):
        if c[a] is not None:
            kw[b] = c[a] * (1 if a == "b" else f)
    today = str(datetime.date.today())
    with Lookup(c["since"]) as look:
        h = we.survey.SurveyHeader(**kw)
        sp = we.survey.SurveyParameters(f"EPSG:326{c['utm']}")
        r = sp.get_factors_from_x_y(c["x"], c["y"], altitude=c["alt2"],
                                    date=c["date2"])
    if str(datetime.date.today()) != today:
        raise Skip      # midnight
    check(h.survey_date == (c["date"] or today),
          lambda: f"survey date {h.survey_date}, not {c['date'] or today}")
    place = (51.4934 if c["lat"] is None else c["lat"],
             0.0098 if c["lon"] is None else c["lon"], c["alt"] or 0.0)
    when = c["date"] or today
    if when < c["since"]:
        when = today    # the next best
    b, i, d = (50000.0, 70.0, 0.0) if when < c["since"] else look.field(*place, when)
    close(h.b_total, b if c["b"] is None else c["b"], 1e-9, what="total field")
    close(h.dip, math.radians(-i if c["dip"] is None else c["dip"]), 1e-12, what="dip")
    close(h.declination, math.radians(d if c["dec"] is None else c["dec"]), 1e-12,
          what="declination")
    # the place on a map
    when = c["date2"] or today
    check(r["date"] == when, lambda: f"date {r['date']}, not {when}")
    if when < c["since"]:
        check(r["declination"] is None and r["dip"] is None
              and r["magnetic_field_intensity"] is None, lambda: f"found {r}")
    else:
        b, i, d = look.field(r["latitude"], r["longitude"], c["alt2"], when)
        close([r["magnetic_field_intensity"], r["dip"], r["declination"]], [b, -i, d],
              1e-9, what="magnetic values of a place")
    return Info(c["since"] < "2026", ["fallen back" if (c["date"] or today) < c["since"]
                                      else "looked up"])


PROP = Prop(
    "P33",
    [Facet("factors", case_factors(), run_factors, 700,
           "the convergence isn't zero"),
     Facet("transform", case_transform(), run_transform, 500,
           "the projections differ"),
     Facet("header", case_header(), run_header, 1200, "every case"),
     Facet("magnetic", case_mag(), run_mag, 400,
           "the stand-in for the magnetic service has values"),
     Facet("defaults", case_default(), run_default, 40, "every case")],
    ["latitude and longitude are those of the projection's own datum",
     "no network: magnetic values come from a stand-in for the service"])
