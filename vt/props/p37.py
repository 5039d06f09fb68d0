"""P37 curvature circles, annular volumes and unit conversions."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from ..mk import nev
from .p05 import build

U = we.utils


@st.composite
def case_circle(draw):
    c = draw(gens.stations(min_n=2, max_n=8, long=True))
    c["h"] = draw(gens.header(mag=False))
    c["start_nev"] = draw(gens.nev_offset)
    return c


def run_circle(c):
    s = build(c)
    keep = nev(s).copy()
    with np.errstate(all="ignore"):
        starts, ends = we.survey.get_circle_radius(s)
    P, n = nev(s), len(s.md)
    check(np.shape(starts) == (2 * n - 2, 3) == np.shape(ends),
          f"shapes {np.shape(starts)} and {np.shape(ends)}")
    close(ends, np.vstack([P[:-1], P[1:]]), 1e-9, what="ends of the spokes")
    t = np.asarray(s.vec_nev, float)
    bent = 0
    for k in range(n - 1):
        th = geo.angle_between(t[k], t[k + 1])
        if th < 1e-4:
            continue
        bent += 1
        r = (s.md[k + 1] - s.md[k]) / th
        w = t[k + 1] - (t[k] @ t[k + 1]) * t[k]
        want = P[k] + r * w / np.linalg.norm(w)
        tol = 1e-6 + 1e-8 * r / th
        close(starts[k], want, tol, what=f"centre from the start of interval {k}")
        close(starts[n - 1 + k], want, tol, what=f"centre from the end of interval {k}")
        # the rest of the interval is on the circle, too
        m, _ = geo.arc(t[k], t[k + 1], s.md[k + 1] - s.md[k],
                       (s.md[k + 1] - s.md[k]) / 3)
        close(np.linalg.norm(P[k] + m - starts[k]), r, tol, what="radius inside")
    close(nev(s), keep, 0, what="survey")
    return Info(bent > 1, [s.unit, f"{min(bent, 3)} bent"])


# ---- volumes ---------------------------------------------------------------
dim = gens.q(0.01, 40, 0.001)


@st.composite
def case_volume(draw):
    a, b = draw(dim), draw(dim)
    return {"od": max(a, b) + 0.5, "id": draw(st.sampled_from([None, min(a, b), 0.0])),
            "L": draw(st.one_of(st.none(), gens.q(0.1, 5000, 0.1),
                                st.sampled_from([0.0, 1.0]))),
            "cut": draw(gens.q(0.05, 0.95)),
            "units": draw(st.lists(st.sampled_from(
                ["inch", "meter", "foot", "millimeter"]), min_size=3, max_size=3)),
            "n": draw(st.integers(1, 4))}


def run_volume(c):
    od, i, L = c["od"], c["id"], c["L"]
    f = we.utils.annular_volume
    kw = {}
    if i is not None:
        kw["id"] = i
    if L is not None:
        kw["length"] = L
    v = f(od, **kw)
    area = math.pi * ((od / 2) ** 2 - ((i or 0.0) / 2) ** 2)
    close(v, area * (1.0 if L is None else L), 0, 1e-12, what="volume")
    check(f(od=od, id=i, length=L) == v, "None isn't the default")
    # a hole is its annulus and the pipe's inside, one length after another
    pipe = f(i, length=L) if i is not None else 0.0
    close(v + pipe, f(od, length=L), 0, 1e-12, what="annulus and inside")
    if L is not None:
        x = dict(kw, length=L * c["cut"])
        y = dict(kw, length=L * (1 - c["cut"]))
        close(f(od, **x) + f(od, **y), v, 0, 1e-12, what="two lengths")
    many = f(np.full(c["n"], od), **kw)
    close(many, np.full(c["n"], v), 0, 1e-12, what="volumes of an array")
    # quantities
    ur = we.units.ureg
    u = c["units"]
    q = f(ur(f"{od} {u[0]}").to(u[1]),
          id=None if i is None else ur(f"{i} {u[0]}").to(u[1]),
          length=None if L is None else ur(f"{L} {u[2]}").to(u[1]))
    m = {"inch": 0.0254, "meter": 1.0, "foot": 0.3048, "millimeter": 0.001}
    want = area * m[u[0]] ** 2 * (1.0 if L is None else L * m[u[2]])
    close(q.to("meter**2" if L is None else "meter**3").magnitude, want, 0, 1e-9,
          what="volume with units")
    return Info(i is not None and L is not None, ["annulus" if i else "cylinder"])


# ---- unit conversion -------------------------------------------------------
num = st.one_of(gens.q(-5000, 5000, 0.01), st.just(0.0), st.integers(-99, 99))


@st.composite
def case_convert(draw):
    return {"data": draw(st.one_of(num, st.none(), st.lists(
        st.one_of(num, st.none()), max_size=6))), "k": draw(gens.q(0.01, 50))}


def run_convert(c):
    d, k = c["data"], c["k"]
    keep = list(d) if isinstance(d, list) else d
    one = lambda x: None if x is None else x * k
    got = U.linear_convert(d, k)
    check(type(got) is list if isinstance(d, list) else not isinstance(got, list),
          f"{got} from {d}")
    check(got == ([one(x) for x in d] if isinstance(d, list) else one(d)),
          lambda: f"{got} from {d} times {k}")
    check(d == keep, "the data changed")
    if not isinstance(d, list) and d is not None:
        a = np.array([d, 2.0 * d])
        close(U.linear_convert(a, k), a * k, 0, 1e-15, what="array")
    return Info(isinstance(d, list) and None in d and len(d) > 1)


SI = {"m": {"meter": 1.0, "feet": 0.3048, "ft": 0.3048, "inch": 0.0254},
      "N": {"newton": 1.0, "lbf": 4.4482216152605, "kilonewton": 1e3},
      "N*m": {"newton * meter": 1.0, "ft_lbf": 1.3558179483314004,
              "foot * lbf": 1.3558179483314004}}


@st.composite
def case_units(draw):
    k = draw(st.sampled_from(sorted(SI)))
    u = st.sampled_from(sorted(SI[k]))
    return {"kind": k, "a": draw(u), "b": draw(u), "x": draw(gens.q(-9999, 9999))}


def run_units(c):
    k = SI[c["kind"]]
    for q in (we.units.ureg.Quantity(c["x"], c["a"]), we.units.Q_(c["x"], c["a"]),
              c["x"] * we.units.ureg(c["a"])):
        close(q.to(c["b"]).magnitude, c["x"] * k[c["a"]] / k[c["b"]], 0, 1e-9,
              what=f"{c['a']} to {c['b']}")
    return Info(c["a"] != c["b"], [c["kind"]])


PROP = Prop("P37", [
    Facet("circles", case_circle(), run_circle, 900,
          rule="random wells; the centre of every bent interval from both its "
               "stations against the arc; non-trivial: two or more bent intervals"),
    Facet("volume", case_volume(), run_volume, 600,
          rule="random cylinders and annuli, numbers, arrays and quantities; "
               "non-trivial: an annulus with a length"),
    Facet("convert", case_convert(), run_convert, 800,
          rule="numbers, None and lists of them; non-trivial: a list with a None"),
    Facet("units", case_units(), run_units, 300,
          rule="quantities of length, force and torque; non-trivial: two units"),
], ["intervals that turn by less than 1e-4 radians have no circle"])
