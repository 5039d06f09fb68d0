"""P29 degrees, minutes and seconds."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from welleng.utils import decimal2dms, dms2decimal, dms_from_string, pprint_dms

DIRS = ["N", "S", "E", "W"]


@st.composite
def value(draw):
    """(sign, degrees, minutes, seconds) or a decimal; both as one decimal."""
    s = draw(st.sampled_from([1.0, -1.0]))
    kind = draw(st.sampled_from(["dms", "decimal", "edge"]))
    if kind == "decimal":
        return draw(st.floats(-180, 180, allow_nan=False))
    d, m = draw(st.integers(0, 179)), draw(st.integers(0, 59))
    x = draw(gens.q(0, 59.9999, 0.0001)) if kind == "dms" else draw(
        st.sampled_from([0.0, 59.99999, 59.9999999, 59.999999999999, 1e-5, 30.0]))
    return s * (d + m / 60 + x / 3600)


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    return {"x": [draw(value()) for _ in range(n)],
            "d": [draw(st.sampled_from(DIRS)) for _ in range(n)],
            "nd": draw(st.one_of(st.none(), st.integers(0, 10))),
            "form": draw(st.sampled_from(
                ["scalar", "array", "column", "pair", "pairs", "int"]))}


def parts(row, x, nd, what):
    d, m, s = float(row[0]), float(row[1]), float(row[2])
    check(d == int(d) and m == int(m), f"{what}: degrees {d} and minutes {m}")
    check(0 <= m < 60 and 0 <= s < 60, f"{what}: {m} minutes, {s} seconds")
    got = abs(d) + m / 60 + s / 3600
    tol = 1e-12 * abs(x) + 1e-13 + (0 if nd is None else 0.5001 * 10.0 ** -nd / 3600)
    check(abs(got - abs(x)) <= tol, lambda: f"{what}: {row} is {got}, not {abs(x)}")
    if x and got:
        check(math.copysign(1, d) == math.copysign(1, x), f"{what}: sign of {row} for {x}")
    if nd is not None:
        check(abs(s - round(s, nd)) < 1e-12, f"{what}: {s} isn't rounded to {nd}")
    return got


def back(row, x, nd, what):
    """row of dms -> decimal"""
    y = dms2decimal(row)
    v = float(np.asarray(y, dtype=object).ravel()[0])
    tol = 1e-11 + (0 if nd is None else 0.51 * 10.0 ** -nd / 3600)
    close(v, x, tol, what=f"{what} and back")
    if len(row) == 4:
        check(np.asarray(y, dtype=object).ravel()[1] == row[3], f"{what}: direction lost")
    for k in (0, 3, 8):
        v2 = float(np.asarray(dms2decimal(row, ndigits=k), dtype=object).ravel()[0])
        close(v2, x, tol + 0.51 * 10.0 ** -k, what=f"{what} and back to {k} digits")
        check(abs(v2 - round(v2, k)) < 1e-12, f"{what}: {v2} isn't rounded to {k}")


def run(c):
    xs, nd, f = c["x"], c["nd"], c["form"]
    kw = {} if nd is None else {"ndigits": nd}
    if f == "scalar":
        r = decimal2dms(xs[0], **kw)
        rows, xs = [np.asarray(r, float).ravel()], xs[:1]
    elif f == "int":
        xs = [int(xs[0])]
        rows = [np.asarray(decimal2dms(xs[0], **kw), float).ravel()]
    elif f in ("array", "column"):
        a = np.array(xs).reshape((-1, 1) if f == "column" else -1)
        keep = a.copy()
        r = decimal2dms(a, **kw)
        check(np.shape(r) == (len(xs), 3), f"{f}: shape {np.shape(r)}")
        close(a, keep, 0, what="caller's array")
        rows = list(r)
        y = dms2decimal(r)
        tol = 1e-11 + (0 if nd is None else 0.51 * 10.0 ** -nd / 3600)
        close(np.asarray(y, float).ravel(), xs, tol, what="array and back")
    elif f == "pair":
        r = decimal2dms((xs[0], c["d"][0]), **kw)
        check(len(r) == 4, f"pair: {r}")
        rows, xs = [r], xs[:1]
    else:
        r = decimal2dms(tuple(zip(xs, c["d"])), **kw)
        rows = [tuple(r)] if len(xs) == 1 and np.shape(r) == (4,) else list(r)
        y = np.asarray(dms2decimal(r), dtype=object).reshape(-1, 2)
        tol = 1e-11 + (0 if nd is None else 0.51 * 10.0 ** -nd / 3600)
        close(y[:, 0].astype(float), xs, tol, what="pairs and back")
        check(list(y[:, 1]) == c["d"], "directions lost")
    check(len(rows) == len(xs), f"{f}: {len(rows)} rows")
    for row, x, d in zip(rows, xs, c["d"]):
        check(np.shape(row) == ((4,) if f in ("pair", "pairs") else (3,)),
              f"{f}: row {row}")
        if len(row) == 4:
            check(row[3] == d, f"direction {row[3]}, not {d}")
        parts(row, x, nd, f)
        back(tuple(row), x, nd, f)
        for sym in (True, False):
            t = pprint_dms(row, symbols=sym, return_data=True)
            v = dms_from_string(t)
            check(v is not None and len(v) == len(row), f"{t!r} is read as {v}")
            close([float(q) for q in v[:3]], [float(q) for q in row[:3]], 0,
                  what=f"{t!r} as read")
            if len(row) == 4:
                check(v[3] == row[3], f"{t!r} is read as {v}")
            close(float(np.asarray(dms2decimal(v), dtype=object).ravel()[0]),
                  x, 1e-11 + (0 if nd is None else 0.51 * 10.0 ** -nd / 3600),
                  what=f"{t!r} as a decimal")
    return Info(any(abs(x) > 0.02 for x in xs), [f, "south/west" if min(xs) < 0 else "",
                                                 "small" if abs(xs[0]) < 1 else ""])


PROP = Prop("P29", [
    Facet("dms", case(), run, 2000,
          rule="random values with either sign (also just under a whole minute or "
               "within a degree of zero), alone, in arrays or with directions; "
               "non-trivial: over a minute"),
])
