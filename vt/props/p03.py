"""P03 frame conversions against explicit axes; inverses and invariants."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, angdiff, check, close

U = we.utils

vec3 = st.tuples(*[st.one_of(st.just(0.0), gens.q(-500, 500, 0.01))] * 3).map(list)
inc_d = st.one_of(st.sampled_from([0.0, 90.0, 180.0]), gens.q(0, 180))
azi_d = st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), gens.angle_deg)


@st.composite
def rows(draw, extra=(), min_n=1):
    n = draw(st.integers(min_n, 6))
    c = {"inc": [draw(inc_d) for _ in range(n)],
         "azi": [draw(azi_d) for _ in range(n)]}
    for k, s in extra:
        c[k] = [draw(s) for _ in range(n)]
    return c


def axes(c):
    return np.array([geo.hla_axes(math.radians(i), math.radians(a))
                     for i, a in zip(c["inc"], c["azi"])])


def listing(c):
    n = len(c["inc"])
    return np.column_stack([np.arange(n) * 10.0, np.radians(c["inc"]),
                            np.radians(c["azi"])])


# ---- coordinates -----------------------------------------------------------
def run_hla(c):
    sv, P, T = listing(c), np.array(c["p"], float), axes(c)
    keep = P.copy()
    h = U.NEV_to_HLA(sv, P, cov=False)
    want = np.einsum("nij,nj->ni", T, P)
    # rows are paired: the conversion returns row k in its own frame
    h = np.asarray(h)
    if h.ndim == 3:
        h = np.array([h[i, i] for i in range(len(P))])
    close(h, want, 1e-8, what="HLA coordinates")
    back = np.asarray(U.HLA_to_NEV(sv, want, cov=False))
    close(back.reshape(-1, 3), P, 1e-8, what="NEV coordinates from HLA")
    close(np.linalg.norm(h, axis=1), np.linalg.norm(P, axis=1), 1e-8,
          what="length under frame change")
    close(P, keep, 0, what="input coordinates")
    close(U.get_transform(sv), T, 1e-12, what="NEV to HLA transform")
    return Info(any(i % 90 for i in c["inc"]), ["n=%d" % min(len(P), 3)])


@st.composite
def case_cov(draw):
    c = draw(rows())
    n = len(c["inc"])
    small = gens.q(-5, 5, 0.01)
    c["L"] = [[draw(small) for _ in range(9)] for _ in range(n)]
    return c


def covs(c):
    L = np.array(c["L"], float).reshape(-1, 3, 3)
    return L @ L.swapaxes(-1, -2)


def run_cov(c):
    sv, C, T = listing(c), covs(c), axes(c)
    keep = C.copy()
    H = U.NEV_to_HLA(sv, C)
    close(H, T @ C @ T.swapaxes(-1, -2), 1e-8, what="HLA covariance")
    close(U.HLA_to_NEV(sv, H), C, 1e-8, what="covariance back in NEV")
    close(np.trace(H, axis1=1, axis2=2), np.trace(C, axis1=1, axis2=2), 1e-8,
          what="trace under frame change")
    close(np.linalg.eigvalsh(H), np.linalg.eigvalsh(C), 1e-7,
          what="eigenvalues under frame change")
    close(np.stack(U.get_sigmas(C), -1),
          np.sqrt(np.diagonal(C, axis1=1, axis2=2)), 1e-9, what="sigmas")
    aa, bb, cc, ab, ac, bc = U.get_sigmas(C, long=True)
    for got, (i, j), nm in ((aa, (0, 0), "aa"), (bb, (1, 1), "bb"),
                            (cc, (2, 2), "cc"), (ab, (0, 1), "ab"),
                            (ac, (0, 2), "ac"), (bc, (1, 2), "bc")):
        close(got, C[:, i, j], 0, what=f"long sigma {nm}")
    e = U.errors_from_cov(C)
    close(e, np.stack([C[:, 0, 0], C[:, 0, 1], C[:, 0, 2], C[:, 1, 1],
                       C[:, 1, 2], C[:, 2, 2]], -1), 0, what="unpacked elements")
    close(U.make_long_cov(e), C, 0, what="repacked covariance")
    d = U.errors_from_cov(C, data=True)
    check(len(d) == len(C), "wrong number of stations in error table")
    for k, row in d.items():
        close([row[x] for x in ("nn", "ne", "nv", "ee", "ev", "vv")], e[k], 0,
              what="error table row")
    v = np.array(c["L"], float)[:, :3]
    close(U.cov_from_vec(v), v[:, :, None] * v[:, None, :], 0,
          what="outer-product covariance")
    close(U.make_cov(*v.T), np.array([np.diag(x * x) for x in v]), 1e-12,
          what="diagonal covariance")
    close(U.make_cov(*v.T, long=True), v[:, :, None] * v[:, None, :], 1e-12,
          what="full covariance")
    close(C, keep, 0, what="input covariance")
    return Info(any(i % 90 for i in c["inc"]) and np.abs(C).max() > 0)


# ---- directions ------------------------------------------------------------
def run_dir(c):
    inc, azi = np.array(c["inc"], float), np.array(c["azi"], float)
    t = np.array([geo.tangent(i, a) for i, a in zip(inc, azi)])
    close(U.get_vec(inc, azi, nev=True), t, 1e-9, what="direction from degrees")
    close(U.get_vec(np.radians(inc), np.radians(azi), nev=True, deg=False), t,
          1e-9, what="direction from radians")
    close(U.get_vec(inc, azi), t[:, [1, 0, 2]], 1e-9, what="xyz direction")
    k = np.array(c["k"], float)[:, None]
    close(U.get_vec(inc, azi, nev=True, r=k[:, 0]), t * k, 1e-9 * k.max(),
          what="scaled directions")
    close(U.get_vec(inc, azi, r=float(k[0, 0])), t[:, [1, 0, 2]] * k[0],
          1e-9 * k.max(), what="scaled xyz directions")
    for nev in (True, False):
        v = t if nev else t[:, [1, 0, 2]]
        keep = (v * k).copy()
        arg = v * k
        a = np.asarray(U.get_angles(arg, nev=nev))
        close(arg, keep, 0, what="input vectors")
        check(a.shape == (len(inc), 2), f"angles have shape {a.shape}")
        close(a[:, 0], np.radians(inc), 2e-8, what="inclination of direction")
        check(((a[:, 1] >= 0) & (a[:, 1] <= 2 * np.pi)).all(),
              "azimuth outside [0, 360]")
        m = (inc > 0) & (inc < 180)
        # accuracy of a recovered azimuth degrades with 1/sin(inc)
        close(angdiff(a[m, 1], np.radians(azi[m])) * np.sin(np.radians(inc[m])),
              np.zeros(m.sum()), 1e-9, what="azimuth of direction")
        one = np.asarray(U.get_angles(arg[0], nev=nev)).reshape(-1)
        close(one, a[0], 1e-12, what="angles of a single vector")
    return Info(any(0 < i < 180 for i in inc))


@st.composite
def case_pos(draw):
    n = draw(st.integers(1, 6))
    return {"p": [draw(vec3) for _ in range(n)], "sx": draw(vec3),
            "sn": draw(vec3)}


def run_pos(c):
    p = np.array(c["p"], float)
    sx, sn = np.array(c["sx"]), np.array(c["sn"])
    keep = p.copy()
    want = (p - sx)[:, [1, 0, 2]] + sn
    nev = U.get_nev(p, start_xyz=sx, start_nev=sn)
    close(nev, want, 1e-9, what="nev of xyz")
    close(U.get_xyz(nev, start_xyz=sx, start_nev=sn), p, 1e-9,
          what="xyz of nev")
    close(U.get_nev(p), p[:, [1, 0, 2]], 0, what="nev without datum")
    close(U.get_xyz(p), p[:, [1, 0, 2]], 0, what="xyz without datum")
    close(U.get_nev(p[0], start_xyz=sx, start_nev=sn), want[:1], 1e-9,
          what="nev of one point")
    close(p, keep, 0, what="input points")
    w = U.get_unit_vec(p[0]) if np.linalg.norm(p[0]) > 1e-9 else None
    if w is not None:
        close(w * np.linalg.norm(p[0]), p[0], 1e-9, what="unit vector")
    return Info(np.abs(p).max() > 0 and (sx.any() or sn.any()))


# ---- a survey's own frames -------------------------------------------------
@st.composite
def case_survey(draw):
    c = draw(gens.stations(min_n=2, max_n=7, long=True))
    c["L"] = [[draw(gens.q(-5, 5)) for _ in range(9)] for _ in c["md"]]
    return c


def run_survey(c):
    C = covs(c)
    n = len(C)
    h = we.survey.SurveyHeader(name="t", azi_reference="grid", b_total=50000.,
                               dip=70., declination=0., convergence=0.)
    T = axes(c)
    a = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h,
                         cov_nev=C.copy())
    close(a.cov_nev, C, 1e-9, what="stated NEV covariance")
    close(a.cov_hla, T @ C @ T.swapaxes(-1, -2), 1e-8,
          what="survey covariance in HLA")
    b = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h,
                         cov_hla=C.copy())
    close(b.cov_nev, T.swapaxes(-1, -2) @ C @ T, 1e-8,
          what="survey covariance in NEV")
    close(b.cov_hla, C, 1e-8, what="stated HLA covariance")
    check(len(a.cov_nev) == n, "one covariance per station")
    return Info(np.abs(C).max() > 0 and any(i % 90 for i in c["inc"]))


R = "random directions including the axes, random vectors / PSD matrices; "
PROP = Prop("P03", [
    Facet("hla", rows([("p", vec3)]), run_hla, 1500,
          rule=R + "non-trivial: an inclination off the axes"),
    Facet("cov", case_cov(), run_cov, 1500,
          rule=R + "non-trivial: non-zero matrix, inclination off the axes"),
    Facet("dir", rows([("k", gens.q(0.01, 1000))]), run_dir, 1500,
          rule=R + "vectors scaled by a positive factor; non-trivial: not all vertical"),
    Facet("pos", case_pos(), run_pos, 1000,
          rule=R + "non-trivial: non-zero datum"),
    Facet("survey", case_survey(), run_survey, 500,
          rule="random well with stated covariance; non-trivial: inclined, non-zero"),
])
