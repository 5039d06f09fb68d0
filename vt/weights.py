"""Independent reference for the positional uncertainty models: the published
weight functions (vt/data/models.json, formulas of the OWSG workbook) evaluated
with a small evaluator and propagated with the ISCWSA partial derivatives."""
import json
import math
import os

import numpy as np

from . import geo
from .mk import grid_azi

with open(os.path.join(os.path.dirname(__file__), "data", "models.json")) as _f:
    _D = json.load(_f)
MODELS, FORMULAS = _D["models"], _D["formulas"]
FT = 0.3048
EARTH_RATE = 0.262516     # rad/hr

NS = dict(Sin=np.sin, Cos=np.cos, Tan=np.tan, Asin=np.arcsin, Acos=np.arccos,
          Atan=np.arctan, Abs=np.abs, Sqr=np.sqrt, Sqrt=np.sqrt, sqrt=np.sqrt,
          Exp=np.exp, Log=np.log, Max=np.maximum, Min=np.minimum, pi=np.pi)


def evaluate(f, b):
    with np.errstate(all="ignore"):
        v = eval(f.replace("^", "**"), {"__builtins__": {}}, {**NS, **b})
    return np.broadcast_to(np.asarray(v, float), b["MD"].shape)


def stations(c):
    """The case in metres and radians: md, inc, true and magnetic azimuth, tvd."""
    h = c["h"]
    k = FT if h["depth_unit"] == "feet" else 1.0
    g = grid_azi(h, c["azi"])
    p = geo.Path(c["md"], c["inc"], g, c["start_nev"])
    true = np.radians(np.asarray(g, float) + h["convergence"])
    return dict(
        md=np.asarray(c["md"], float) * k, inc=np.radians(c["inc"]),
        true=true, mag=true - math.radians(h["declination"]),
        grid=np.radians(g), tvd=np.array([x[2] for x in p.pos]) * k)


def bindings(c, s):
    h = c["h"]
    return dict(MD=s["md"], Inc=s["inc"], AzT=s["true"], AzM=s["mag"],
                Az=s["grid"], TVD=s["tvd"], Gfield=h["G"], GField=h["G"],
                Dip=math.radians(h["dip"]), BField=h["b_total"],
                Bfield=h["b_total"], EarthRate=EARTH_RATE,
                Latitude=math.radians(h["latitude"]), RAD=math.pi / 180)


def derivatives(s, rev4):
    """Balanced tangential partial derivatives of the interval that ends (a) and
    that starts (b) at each station: columns depth, inclination, azimuth."""
    n = len(s["md"])
    t = np.column_stack([np.sin(s["inc"]) * np.cos(s["true"]),
                         np.sin(s["inc"]) * np.sin(s["true"]), np.cos(s["inc"])])
    ti = np.column_stack([np.cos(s["inc"]) * np.cos(s["true"]),
                          np.cos(s["inc"]) * np.sin(s["true"]), -np.sin(s["inc"])])
    ta = np.column_stack([-np.sin(s["inc"]) * np.sin(s["true"]),
                          np.sin(s["inc"]) * np.cos(s["true"]), np.zeros(n)])
    d = np.diff(s["md"])[:, None] / 2
    a, b = np.zeros((n, 3, 3)), np.zeros((n, 3, 3))
    a[1:, :, 0] = (t[1:] + t[:-1]) / 2
    b[:-1, :, 0] = -(t[1:] + t[:-1]) / 2
    a[1:, :, 1], b[:-1, :, 1] = d * ti[1:], d * ti[:-1]
    a[1:, :, 2], b[:-1, :, 2] = d * ta[1:], d * ta[:-1]
    if not rev4:
        # the workbooks take the full first interval here
        a[1, 0, 1] *= 2
    return a, b


def propagate(e, star, random):
    """Covariances from the error of each station as an inner and last station."""
    e, star = e.copy(), star.copy()
    e[0] = star[0] = 0
    outer = lambda v: v[:, :, None] * v[:, None, :]
    if random:
        acc = np.cumsum(outer(e), axis=0)
        return outer(star) + np.concatenate([np.zeros((1, 3, 3)), acc[:-1]])
    acc = np.cumsum(e, axis=0)
    return outer(star + np.vstack([np.zeros((1, 3)), acc[:-1]]))


def covariances(c, model):
    """{term: (propagation, covariance in m^2)} and the terms without a value."""
    m = MODELS[model]
    rev4 = model.split()[-1] == "Rev4"
    s = stations(c)
    bind = bindings(c, s)
    da, db = derivatives(s, rev4)
    n = len(s["md"])
    vert = s["inc"] < 1e-7
    d1 = np.r_[0.0, np.diff(s["md"])]           # interval that ends here
    d2 = np.r_[np.diff(s["md"]), 0.0]
    out, unknown = {}, []
    for name, w, mag, prop in m["terms"]:
        sing = None
        coeff = np.ones(n)
        coeff[1:] = np.maximum(1, np.sqrt(10 / d1[1:]))
        if m["kind"] == "json":
            try:
                dia = np.column_stack([evaluate(f, bind) for f in FORMULAS[w]])
            except NameError:
                unknown.append(name)
                dia = np.zeros((n, 3))
            dia = np.where(np.isfinite(dia), dia, 0.0) * mag
        elif w in ("XCLA", "XCLH"):
            # course length errors are in the cross axial directions
            dI = np.abs(np.diff(s["inc"]))
            sA = np.abs(np.sin(np.diff(s["true"])) * np.sin(s["inc"][1:]))
            sA[vert[:-1]] = 0
            v = np.zeros((n, 3))
            k = np.diff(s["md"]) * np.maximum(
                sA if w == "XCLA" else dI, m["tortuosity"] * np.diff(s["md"])) * mag
            i, a = s["inc"][1:], s["true"][1:]
            v[1:] = (np.column_stack([-np.sin(a), np.cos(a), 0 * a]) if w == "XCLA"
                     else np.column_stack([np.cos(i) * np.cos(a),
                                           np.cos(i) * np.sin(a), -np.sin(i)])
                     ) * k[:, None]
            out[name] = (prop, propagate(v, v, prop == "random"))
            continue
        else:
            i, t = s["inc"], s["true"]
            zero = np.zeros(n)
            if w in ("XYM3E", "XYM4E"):
                with np.errstate(all="ignore"):
                    dia = np.column_stack(
                        [zero, np.abs(np.cos(i)) * np.cos(t),
                         -np.abs(np.cos(i)) * np.sin(t) / np.sin(i)]
                        if w == "XYM3E" else
                        [zero, np.abs(np.cos(i)) * np.sin(t),
                         np.abs(np.cos(i)) * np.cos(t) / np.sin(i)])
                dia = dia * coeff[:, None] * mag
                sing = np.array([[1.0, 0, 0]] if w == "XYM3E" else [[0, 1.0, 0]]) \
                    * coeff[:, None] * mag
            else:
                dia = np.column_stack([evaluate(f, bind) for f in FORMULAS[w]]) * mag
                lat = np.column_stack([-np.sin(t), np.cos(t), zero])
                if w in ("ABXY-TI2", "ABIXY-TI2"):
                    sing = lat / c["h"]["G"] * mag
                elif w == "CNA":
                    sing = lat * mag
                elif w == "XYM3":
                    sing = np.column_stack([zero + 1, zero, zero]) * mag
                elif w == "XYM4":
                    sing = np.column_stack([zero, zero + 1, zero]) * mag
        dia[vert] = np.where(np.isfinite(dia[vert]), dia[vert], 0.0)
        e = np.einsum("nij,nj->ni", da + db, dia)
        star = np.einsum("nij,nj->ni", da, dia)
        if sing is not None:
            e[vert] = ((d1 + d2)[:, None] / 2 * sing)[vert]
            star[vert] = (d1[:, None] / 2 * sing)[vert]
        out[name] = (prop, propagate(e, star, prop == "random"))
    return out, unknown


def excluded(c):
    """Within 15 degrees of horizontal east or west (magnetic)."""
    s = stations(c)
    return bool((np.abs(np.sin(s["inc"]) * np.sin(s["mag"]))
                 > math.cos(math.radians(15))).any())
