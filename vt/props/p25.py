"""P25 fluid densities solve the published equation."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from welleng.fluid import DensityDiesel, Fluid

A = (7.24032, -2.84383e-3, 2.75660e-5)      # oil: ppg, per F, per psi
B = (8.63186, -3.31977e-3, 2.37170e-5)      # water
SOLIDS = {"barite": 35.0, "spe_11118": 24.0}


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    c = {"t0": draw(st.one_of(gens.q(32, 160, 0.5), st.just(32.0))),
         "p0": draw(st.one_of(st.just(0.0), gens.q(0, 2000, 1))),
         "ratio": draw(st.one_of(gens.q(0, 1), st.just(0.2))),
         "heavier": draw(gens.q(0.05, 9)),
         "solids": draw(st.sampled_from(["Barite", "barite", "SPE_11118", "spe_11118"])),
         "applied": draw(st.one_of(st.just(0.0), gens.q(0, 5000, 1))),
         "depth": [draw(st.one_of(st.just(0.0), gens.q(1, 25000, 1))) for _ in range(n)],
         "grad": [draw(gens.q(-0.004, 0.022, 0.0001)) for _ in range(n)],
         "form": draw(st.sampled_from(["array", "list", "scalar", "tuple", "int", "one"])),
         "fractions": draw(st.one_of(st.none(), st.tuples(
             gens.q(0.02, 0.4), gens.q(0.02, 0.4)).map(list)))}
    return c


def mean(rho, D, t0, grad, p, coef):
    """Mean over the column of density at surface over density at depth, of a
    liquid under a column of mean density rho."""
    c0, c1, c2 = coef
    a1 = c0 + c1 * t0 + c2 * p
    a2 = c1 * grad + 0.052 * c2 * rho
    x = a2 * D / a1
    if x <= -0.9:
        raise Skip
    return math.log1p(x) / x if abs(x) > 1e-12 else 1 - x / 2


def solve(top, D, t0, grad, p, vo, vw):
    """Sorelle et al.: the average density of the column."""
    if D == 0:
        return top

    def f(r):
        return r * ((1 - vo - vw) + vo * mean(r, D, t0, grad, p, A)
                    + vw * mean(r, D, t0, grad, p, B)) - top
    lo, hi = 5.0, 40.0
    if f(lo) > 0 or f(hi) < 0:
        raise Skip
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    return lo


def run(c):
    t0, p0, w = c["t0"], c["p0"], c["ratio"]
    oil = A[0] + A[1] * t0 + A[2] * p0
    water = B[0] + B[1] * t0 + B[2] * p0
    base = w * water + (1 - w) * oil
    top = base + c["heavier"]
    kw = {}
    if t0 != 32.0:
        kw["reference_temp"] = t0
    if p0:
        kw["reference_pressure"] = p0
    if w != 0.2:
        kw["base_fluid_water_ratio"] = w
    if c["solids"] != "Barite":
        kw["weighting_material"] = c["solids"]
    f = Fluid(top, **kw)
    rho = SOLIDS[c["solids"].lower()]
    close(f.density_oil_reference, oil, 1e-9, what="oil at the reference")
    close(f.density_water_reference, water, 1e-9, what="water at the reference")
    close(f.density_weighting_material, rho, 0, what="weighting material")
    vo, vw, vs = (f.volume_oil_reference_relative, f.volume_water_reference_relative,
                  f.volume_weighting_material_relative)
    close(vo + vw + vs, 1.0, 1e-12, what="volumes")
    check(min(vo, vw, vs) >= 0, f"volumes {vo}, {vw}, {vs}")
    close(vw, w * (vo + vw), 1e-12, what="water's part of the base fluid")
    close(vo * oil + vw * water + vs * rho, top, 1e-9, what="density of the mixture")
    if c["fractions"]:      # measured, rather than calculated, volumes
        vo, vw = c["fractions"]
        f.volume_oil_reference_relative = vo
        f.volume_water_reference_relative = vw
    D = c["depth"]
    T = [t0 + g * d for g, d in zip(c["grad"], D)]
    form = c["form"]
    if form == "scalar":
        D, T = D[:1], T[:1]
        args = D[0], T[0]
    elif form == "one":     # one temperature
        T = [T[0]] * len(D)
        args = np.array(D), T[0]
    elif form == "int":
        T = [round(t) for t in T]
        args = np.array(D).astype(int), np.array(T)
    else:
        k = {"array": np.array, "list": list, "tuple": tuple}[form]
        args = k(D), k(T)
    kw = {"pressure_applied": c["applied"]} if c["applied"] else {}
    want = [solve(top, d, t0, (t - t0) / d if d else 0.0, c["applied"], vo, vw)
            for d, t in zip(D, T)]
    if not all(6.05 < x < 24.9 for x in want):
        raise Skip
    got = f.get_density_profile(*args, **kw)
    check(isinstance(got, list) and len(got) == len(D), f"profile {got}")
    # log1p(x) / x is evaluated less exactly where x is next to none
    for r, w, d, t in zip(got, want, D, T):
        x = min(abs(((k[1] * (t - t0) / d if d else 0) + 0.052 * k[2] * w) * d
                    / (k[0] + k[1] * t0 + k[2] * c["applied"])) for k in (A, B))
        if d and x < 1e-9:
            continue
        close(r, w, 3e-2 if d and x < 1e-4 else 2e-4, what="density profile")
    return Info(max(D) > 500, [form, c["solids"].lower()])


@st.composite
def case_diesel(draw):
    return {"p": sorted(draw(st.lists(gens.q(15, 12500, 1), min_size=1, max_size=3,
                                      unique=True))),
            "t": draw(gens.q(100, 350, 0.5)), "dp": draw(gens.q(100, 3000, 1)),
            "dt": draw(gens.q(5, 60, 1)),
            "node": [draw(st.integers(0, 4)), draw(st.integers(0, 3))]}


TABLE = np.array([          # SPE 11118, by temperature and pressure
    [6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
    [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
    [6.3575, 6.4782, 6.5965, 6.6673, 6.7198],
    [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]])
PSI, DEG = [15.0, 3000.0, 7000.0, 10000.0, 12500.0], [100.0, 200.0, 300.0, 350.0]


def run_diesel(c):
    d = DensityDiesel()
    i, j = c["node"]

    def one(p, t):
        r = np.asarray(d.get_density(p, t), float).ravel()
        check(len(r) == 1, f"density {r}")
        return float(r[0])
    close(one(PSI[i], DEG[j]), TABLE[j, i], 1e-6, what="tabulated density")
    many = np.asarray(d.get_density(np.array(c["p"]), c["t"]), float).ravel()
    check(len(many) == len(c["p"]), f"densities {many}")
    for p, r in zip(c["p"], many):
        x = one(p, c["t"])
        close(r, x, 1e-9, what="one of many")
        a = [k for k in range(4) if p >= PSI[k]][-1]
        b = [k for k in range(3) if c["t"] >= DEG[k]][-1]
        cell = TABLE[b:b + 2, a:a + 2]
        check(cell.min() - 1e-6 <= x <= cell.max() + 1e-6,
              lambda: f"density {x} at {p} psi and {c['t']} F outside of its cell")
        # against bilinear in the cell
        u = (p - PSI[a]) / (PSI[a + 1] - PSI[a])
        v = (c["t"] - DEG[b]) / (DEG[b + 1] - DEG[b])
        lin = ((1 - u) * (1 - v) * cell[0, 0] + u * (1 - v) * cell[0, 1]
               + (1 - u) * v * cell[1, 0] + u * v * cell[1, 1])
        close(x, lin, 0.02, what=f"density at {p} psi and {c['t']} F")
        if p + c["dp"] <= 12500:
            check(one(p + c["dp"], c["t"]) > x, "not denser at a higher pressure")
        if c["t"] + c["dt"] <= 350:
            check(one(p, c["t"] + c["dt"]) < x, "not lighter at a higher temperature")
    return Info(len(c["p"]) > 1)


PROP = Prop("P25", [
    Facet("profile", case(), run, 2000,
          rule="random fluids, depths, temperatures (any form) and applied pressures "
               "against bisection of the published equation; non-trivial: over 500 ft"),
    Facet("diesel", case_diesel(), run_diesel, 600,
          rule="random pressures and temperatures in the tabulated range; "
               "non-trivial: several pressures"),
], ["fluids no lighter than their base fluid; average densities within the default bounds"])
