"""P20 separation factor."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, check, close
from .p15 import MODELS, NAMES
from .p19 import (args, closest, geometry, make, path, psd_of, scenario, survey)


def cov_at(c, md):
    m = np.array(c["md"], float)
    covs = np.array([psd_of(a) for a in c["cov"]])
    j = int(np.clip(np.searchsorted(m, md, side="right") - 1, 0, len(m) - 2))
    f = (md - m[j]) / (m[j + 1] - m[j])
    f = min(max(f, 0.0), 1.0)
    return covs[j] + f * (covs[j + 1] - covs[j])


def radius_of(c, on):
    if on:
        return np.array(c["radius"])
    # 12 inches, in the unit of the survey
    return np.full(len(c["md"]),
                   1.0 if c["h"]["depth_unit"] == "feet" else 0.3048)


def formula(c, cl, p, o, rr=None):
    """Judge every figure of the separation factor at the clearance's stations."""
    n = len(cl.ref.md)
    Rr, Ro = radius_of(c["ref"], c["radii"]), radius_of(c["off"], c["radii"])
    near = 0
    ref_md = np.array(c["ref"]["md"])
    for i in range(n):
        md = float(cl.ref.md[i])
        x, _ = p.at(md)
        y = np.array([cl.off.n[i], cl.off.e[i], cl.off.tvd[i]], float)
        d = np.linalg.norm(y - x)
        if d < 0.01:
            u = None
        else:
            u = (y - x) / d
        C1, C2 = cov_at(c["ref"], md), cov_at(c["off"], float(cl.off.md[i]))
        close(np.reshape(cl.ref_cov_nev[i], (3, 3)), C1, 1e-6 + 1e-6 * np.abs(C1).max(),
              what="reference covariance")
        close(np.reshape(cl.off_cov_nev[i], (3, 3)), C2, 1e-4 + 1e-5 * np.abs(C2).max(),
              what="offset covariance at the closest point")
        b = float(cl.toolface_bearing[i]), float(cl.hoz_bearing[i])
        check(all(0 <= v <= 6.2832 for v in b), lambda: f"bearings {b} not in [0, 2 pi)")
        ds = np.linalg.norm(o.pos - x, axis=1)
        k = int(np.argmin(ds))
        srt = np.sort(ds)
        if srt[1] - srt[0] < 1e-6:
            continue
        m = float(cl.off.md[i])
        if not o.md[max(k - 1, 0)] - 1e-3 <= m <= o.md[min(k + 1, len(ds) - 1)] + 1e-3:
            # the closest point isn't next to the nearest station
            gap = np.sort(np.abs(o.md - m))
            if gap[1] - gap[0] < 1e-3:
                continue
            k = int(np.argmin(np.abs(o.md - m)))
        check(int(cl.idx[i]) == k, lambda: f"nearest station {cl.idx[i]}, not {k}")
        # an added station takes the radius of the hole it is in
        j = int(np.searchsorted(ref_md, md))
        j = min(j, len(Rr) - 1)
        if ref_md[j] != md and j and abs(ref_md[j - 1] - md) < 1e-3 and abs(
                cl.calc_hole[i] - Rr[j - 1] - Ro[k]) < 1e-9:
            j -= 1      # added at a station
        close(cl.calc_hole[i], Rr[j] + Ro[k], 1e-9, what="sum of the hole radii")
        hole = Rr[j] + Ro[k]
        close(cl.wellbore_separation[i], d - hole - c["Sm"], 1e-5, 1e-8,
              what="wellbore separation")
        if u is None:
            continue
        near += 1
        s1, s2 = math.sqrt(max(u @ C1 @ u, 0)), math.sqrt(max(u @ C2 @ u, 0))
        a = 1e-4 + 0.01 * math.sqrt(np.abs(C1).max() + np.abs(C2).max()) / max(d, 1) * 0.01
        # sqrt of a nearly singular form
        a1 = a + (1e-3 if s1 < 0.05 else 0)
        a2 = a + (5e-3 if s2 < 0.05 else 0)
        if d > 0.05:
            close(cl.ref_pcr[i], s1, a1, 1e-4, what="reference pedal radius")
            close(cl.off_pcr[i], s2, a2, 1e-4, what="offset pedal radius")
        ss = math.hypot(float(cl.ref_pcr[i]), float(cl.off_pcr[i]))
        close(cl.sigmaS[i], ss, 1e-9, what="relative uncertainty")
        eou = c["k"] * math.hypot(ss, c["sigma_pa"])
        close(cl.eou_boundary[i], eou, 1e-9, 1e-9, what="eou boundary")
        close(cl.masd[i], eou + hole + c["Sm"], 1e-8, what="masd")
        close(cl.eou_separation[i], d - hole - c["Sm"] - eou, 1e-5, 1e-8,
              what="eou separation")
        close(cl.sf[i], (d - hole - c["Sm"]) / eou, 1e-6, 1e-5, what="separation factor")
    return near


def run(c):
    p, o = path(c["ref"]), path(c["off"])
    cl = make(c, minimize_sf=False)
    near = formula(c, cl, p, o)
    cl2 = make(c)
    formula(c, cl2, p, o)
    a = len(cl2.sf) - len(cl.sf)
    # (the direction between points that coincide is rounding)
    apart = cl.distance_cc.ravel()[int(np.argmin(cl.sf))] > 0.01
    check(not apart or cl2.sf.min() <= cl.sf.min() + 0.01 + 1e-3 * abs(cl.sf.min()),
          lambda: f"minimum {cl2.sf.min()} after minimising, {cl.sf.min()} before")
    return Info(near > 1, [c["kind"], "added" if a else "none added"])


# --- the minima between stations ---------------------------------------------
@st.composite
def case_min(draw):
    from .p19 import well
    c = draw(scenario())
    off = draw(well(n=(2, 4), start=[0.0, 0.0, 0.0]))
    off["h"]["depth_unit"] = c["ref"]["h"]["depth_unit"]
    off["cov"] = [[abs(draw(gens.q(0.5, 4, 0.1))), 0.0] + [abs(v) + 0.1 for v in a[2:3]]
                  + [0.0, 0.0] + [abs(v) + 0.1 for v in a[5:]] for a in off["cov"]]
    c["off"] = off
    c["frac"] = [draw(gens.q(0.02, 0.98)), draw(gens.q(0.1, 0.9))]
    c["cross"] = [draw(gens.q(5, 60)), draw(gens.angle_deg)]
    c["same"] = draw(st.booleans())
    if draw(st.integers(0, 3)):
        c["Sm"] = 0.0
    return c


def sf_at(c, p, o, md, oj, Ro):
    """Separation factor at a reference depth from the closest point of the offset."""
    x, _ = p.at(md)
    d, omd, j = min(closest(o, x, 24))
    if d < 0.5:
        raise Skip
    u = (o.at(omd)[0] - x) / d
    s = u @ (cov_at(c["ref"], md) + cov_at(c["off"], omd)) @ u
    k = int(np.argmin(np.linalg.norm(o.pos - x, axis=1)))
    if j not in (k - 1, k):
        k = j + int(2 * omd > o.md[j] + o.md[j + 1])
    jj = int(np.searchsorted(np.array(c["ref"]["md"]), md - 1e-9))
    r = radius_of(c["ref"], c["radii"])[jj] + Ro[k]
    return (d - r - c["Sm"]) / (c["k"] * math.sqrt(s + c["sigma_pa"] ** 2))


def turns(v):
    d = np.sign(np.diff(v))
    return int((np.diff(d[d != 0]) != 0).sum())


def run_min(c):
    # pass the offset a given distance beside the reference
    p = path(c["ref"])
    f = c["frac"]
    x = p.at(c["ref"]["md"][0] + f[0] * (p.md[-1] - p.md[0]))
    o0 = path(c["off"])
    y = o0.at(o0.md[0] + f[1] * (o0.md[-1] - o0.md[0]))
    w = np.cross(x[1], y[1])
    if np.linalg.norm(w) < 0.05:
        w = np.cross(x[1], np.eye(3)[int(np.argmin(np.abs(x[1])))])
    w /= np.linalg.norm(w)
    c["off"]["start_nev"] = (x[0] + c["cross"][0] * w - y[0]).tolist()
    o = path(c["off"])
    # uncertainty and radius that vary slowly, so that minima are minima of distance
    for w_ in ("ref", "off"):
        c[w_]["radius"] = [c[w_]["radius"][0]] * len(c[w_]["md"])
        if c["same"]:
            c[w_]["cov"] = [c[w_]["cov"][0]] * len(c[w_]["md"])
    cl = make(c, minimize_sf=False)
    cl2 = make(c)
    Ro = radius_of(c["off"], c["radii"])
    hit = False
    for i in range(1, len(cl.sf) - 1):
        if not (cl.sf[i] < cl.sf[i - 1] - 1e-6 and cl.sf[i] < cl.sf[i + 1] - 1e-6):
            continue
        a, b = cl.ref.md[i - 1], cl.ref.md[i + 1]
        m = np.linspace(a, b, 41)
        v = np.array([sf_at(c, p, o, t, None, Ro) for t in m])
        got = cl2.sf[(cl2.ref.md >= a) & (cl2.ref.md <= b)].min()
        hit = True
        # one basin, also from close by
        if turns(v) > 1:
            continue
        k = int(v.argmin())
        near = np.linspace(m[max(k - 2, 0)], m[min(k + 2, 40)], 61)
        if turns([sf_at(c, p, o, t, None, Ro) for t in near]) > 1:
            continue
        tol = 1e-3 + 1e-3 * abs(v.min())
        check(got <= v.min() + tol, lambda: f"separation factor {v.min()} at md "
              f"{m[v.argmin()]} is smaller than any reported between {a} and {b}: {got}")
    return Info(hit, ["same covariance" if c["same"] else "varying"])


# --- invariance ---------------------------------------------------------------
@st.composite
def case_inv(draw):
    c = draw(scenario())
    c["spin"] = draw(gens.angle_deg)
    c["shift"] = draw(gens.nev_offset)
    c["scale"] = draw(st.sampled_from([1.0, 2.0, 0.5, 0.3048, 10.0]))
    return c


def run_inv(c):
    cl = make(c, minimize_sf=False)
    z = c["scale"]
    a = args(c)
    for k in ("Sm", "sigma_pa"):
        a[k] *= z
    m = dict(shift=np.array(c["shift"]), spin=c["spin"], scale=z)
    kk = dict(c)
    r, o = [survey(c[w], True, **m) for w in ("ref", "off")]
    kk["radii"] = True
    cl = make(kk, minimize_sf=False)
    cl2 = we.clearance.IscwsaClearance(r, o, **a, minimize_sf=False)
    n = 0
    for i in range(len(cl.sf)):
        if cl.distance_cc[i] < 1 or cl.idx[i] != cl2.idx[i]:
            continue
        if abs(cl.off.md[i] - cl2.off.md[i] / z) > 0.1:
            continue
        n += 1
        close(cl2.distance_cc[i] / z, cl.distance_cc[i], 2e-3, 1e-3,
              what="distance of the moved wells")
        close(cl2.sf[i], cl.sf[i], 0.05, 0.02, what="separation factor of the moved wells")
    return Info(n > 0, [f"x{z}"])


# --- kick-off depth -----------------------------------------------------------
@st.composite
def case_kop(draw):
    c = draw(scenario())
    n = len(c["ref"]["md"])
    c["at"] = draw(st.integers(0, n - 2))
    c["between"] = draw(st.booleans())
    c["err"] = draw(st.booleans())
    c["em"] = draw(st.one_of(st.sampled_from(["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4"]),
                             st.sampled_from(NAMES)))
    return c


def since(s, em, j):
    """The uncertainty of the stations from j on relative to station j: systematic
    errors by what they add to the position, random ones by what they add to the
    covariance, and depth proportional ones whole (but none at j)."""
    out = np.zeros((len(s.md) - j, 3, 3))
    for e in we.error.ErrorModel(s, error_model=em).errors.errors.values():
        dia = np.reshape(e.e_DIA, (-1, 3))
        depth = np.abs(dia[:, 1:]).max() < 1e-10 < np.abs(dia[:, 0]).max()
        if e.propagation == "random":
            m = np.reshape(e.cov_NEV, (-1, 3, 3))[j:]
            m = m * (np.arange(len(m)) > 0)[:, None, None] if depth else m - m[0]
        else:
            v = np.reshape(e.sigma_e_NEV, (-1, 3))[j:]
            v = v * (np.arange(len(v)) > 0)[:, None] if depth else v - v[0]
            m = np.einsum("ij,ik->ijk", v, v)
        out += m
    return out


def run_kop(c):
    j = c["at"]
    md = c["ref"]["md"]
    kop = md[j] - (0.4 * (md[j] - md[j - 1]) if c["between"] and j else 0.0)
    if c["err"]:
        for w in ("ref", "off"):
            top = min(80.0, 0.95 * MODELS[c["em"]]["inc_max"])
            c[w]["inc"] = [min(v, top) for v in c[w]["inc"]]
            c[w]["h"] = dict(c[w]["h"], azi_reference="grid", b_total=50000.0, dip=70.0)
        kw = dict(cov=False)
        def mk(w):
            s = survey(c[w], c["radii"], cov=False)
            return we.survey.Survey(md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg,
                                    header=s.header, unit=s.unit, radius=s.radius,
                                    start_nev=c[w]["start_nev"], error_model=c["em"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, f = mk("ref"), mk("off")
        if not (np.isfinite(r.cov_nev).all() and np.isfinite(f.cov_nev).all()):
            raise Skip("outside the model's range")
        held = [(w, k, e.cov_NEV.copy(), e.sigma_e_NEV.copy()) for w in (r, f)
                for k, e in w.err.errors.errors.items()]
        cl = we.clearance.IscwsaClearance(r, f, **args(c), kop_depth=kop,
                                          minimize_sf=False)
        for w, k, x, y in held:
            e = w.err.errors.errors[k]
            check(np.array_equal(x, e.cov_NEV) and np.array_equal(y, e.sigma_e_NEV),
                  lambda: f"the well's own errors of {k} have changed")
        close(cl.ref.md, md[j:], 1e-9, what="stations from the kick-off")
        C = np.reshape(cl.ref_cov_nev, (-1, 3, 3))
        if j:
            close(C[0], np.zeros((3, 3)), 1e-9, what="covariance at the kick-off")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = since(r, c["em"], j)
            close(C, want, 1e-6 + 1e-7 * np.abs(want).max(),
                  what="covariance relative to the kick-off")
        lam = np.linalg.eigvalsh(C)
        check((lam > -1e-6 * (1 + np.abs(lam).max())).all(), "covariance not PSD")
        for i in range(len(cl.sf)):
            d = cl.distance_cc[i]
            eou = c["k"] * math.sqrt(cl.ref_pcr[i] ** 2 + cl.off_pcr[i] ** 2
                                     + c["sigma_pa"] ** 2)
            close(cl.sf[i], (d - cl.calc_hole[i] - c["Sm"]) / eou, 1e-6, 1e-6,
                  what="separation factor from the kick-off")
        return Info(j > 0, ["error model", c["em"]])
    cl = make(c, kop_depth=kop, minimize_sf=False)
    geometry(c, cl, path(c["ref"]), path(c["off"]), None)
    close(cl.ref.md, md[j:], 1e-9, what="stations from the kick-off")
    full = make(c, minimize_sf=False)
    for nm in ("sf", "distance_cc", "hoz_bearing_deg", "ref_pcr", "off_pcr", "calc_hole",
               "masd", "toolface_bearing_deg", "trav_cyl_azi_deg"):
        close(getattr(cl, nm), getattr(full, nm)[j:], 1e-5, 1e-5,
              what=f"{nm} from the kick-off")
    cl = make(c, kop_depth=kop)
    formula(c, cl, path(c["ref"]), path(c["off"]))
    return Info(j > 0, ["given covariance"])


PROP = Prop("P20", [
    Facet("formula", scenario(), run, 200,
          rule="random pairs of wells, covariances, radii, factors; non-trivial: "
               "two or more stations apart from the offset"),
    Facet("minima", case_min(), run_min, 100,
          rule="wells that pass each other; non-trivial: an interior minimum"),
    Facet("invariance", case_inv(), run_inv, 200,
          rule="both wells moved, turned about the vertical and scaled; non-trivial: "
               "a station compared"),
    Facet("kop", case_kop(), run_kop, 120,
          rule="random kick-off depths with given covariances or an error model; "
               "non-trivial: the kick-off is below the first station"),
], assumptions=["the closest point is in an interval at the offset's nearest station"])
