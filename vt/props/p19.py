"""P19 closest approach, P20 separation factor: scenarios and geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import grid_azi, make_header, nev


@st.composite
def psd(draw, scale=5.0):
    a = [draw(gens.q(-scale, scale, 0.1)) for _ in range(6)]
    return a


def psd_of(a):
    L = np.array([[a[0], 0, 0], [a[1], a[2], 0], [a[3], a[4], a[5]]])
    return L @ L.T


@st.composite
def well(draw, n=(2, 6), start=None, like=None):
    if like is None:
        c = draw(gens.stations(min_n=n[0], max_n=n[1], max_dinc=20, max_dazi=20,
                               min_step=15, max_step=250, max_inc=110))
    else:
        # much the same path on other stations
        p = geo.Path(like["md"], like["inc"], like["azi"])
        L = like["md"][-1] - like["md"][0]
        cuts = sorted(set(draw(st.lists(st.integers(1, 19), min_size=0, max_size=5))))
        if draw(st.booleans()):
            cuts = [0] + cuts
        cuts = [0] + [k for k in cuts if k] + [20]
        md0 = draw(gens.q(0, 500, 0.1))
        inc, azi = [], []
        for k in cuts:
            t = p.at(like["md"][0] + L * k / 20)[1]
            i = math.degrees(math.atan2(math.hypot(t[0], t[1]), t[2]))
            a = math.degrees(math.atan2(t[1], t[0]))
            inc.append(round(abs(i + draw(gens.q(-4, 4))), 2))
            azi.append(round((a + draw(gens.q(-6, 6))) % 360, 2) % 360)
        c = {"md": [round(md0 + L * k / 20, 1) for k in cuts], "inc": inc, "azi": azi}
    c["h"] = draw(gens.header(unit=("meters",), mag=False))
    c["start_nev"] = start
    c["cov"] = [draw(psd()) for _ in c["md"]]
    c["radius"] = [draw(gens.q(0.05, 0.6)) for _ in c["md"]]
    return c


small = gens.q(-60, 60, 0.1)


@st.composite
def scenario(draw):
    ref = draw(well(start=draw(gens.nev_offset)))
    kind = draw(st.sampled_from(["like", "random", "like", "slot"]))
    x = ref["start_nev"]
    if kind == "slot":      # the same slot
        start = list(x)
        off = draw(well(start=start))
    else:
        start = [round(x[0] + draw(small), 1), round(x[1] + draw(small), 1),
                 round(x[2] + draw(small), 1)]
        off = draw(well(start=start, like=ref if kind == "like" else None))
    unit = draw(st.sampled_from(["meters", "feet"]))
    ref["h"]["depth_unit"] = off["h"]["depth_unit"] = unit
    return {"ref": ref, "off": off, "kind": kind,
            "k": draw(st.one_of(st.just(3.5), gens.q(1, 5))),
            "sigma_pa": draw(st.one_of(st.just(0.5), gens.q(0.01, 3))),
            "Sm": draw(st.one_of(st.just(0.3), gens.q(0, 3))),
            "radii": draw(st.booleans()),
            "Rr": draw(gens.q(0.1, 1)), "Ro": draw(gens.q(0.1, 1))}


def survey(c, radii=True, shift=None, spin=0.0, cov=True, scale=1.0):
    start = np.array(c["start_nev"], float) * scale
    covs = np.array([psd_of(a) for a in c["cov"]]) * scale ** 2
    azi = np.array(c["azi"])
    if spin:
        m = geo.rot([0, 0, 1], math.radians(spin))
        start = m @ start
        covs = m @ covs @ m.T
        azi = azi + spin
    if shift is not None:
        start = start + shift
    kw = {"radius": (np.array(c["radius"]) * scale).tolist()} if radii else {}
    if cov:
        kw["cov_nev"] = covs
    return we.survey.Survey(md=np.array(c["md"]) * scale, inc=c["inc"], azi=azi,
                            header=make_header(c["h"]), unit=c["h"]["depth_unit"],
                            start_nev=start.tolist(), **kw)


def path(c):
    return geo.Path(c["md"], c["inc"], grid_azi(c["h"], c["azi"]), c["start_nev"])


def closest(p, x, m=60):
    """(distance, md) of the closest point of the path, and the smallest distance
    of any local minimum that is elsewhere."""
    best = []
    for j in range(len(p.md) - 1):
        L = p.md[j + 1] - p.md[j]
        f = [np.linalg.norm(p.pos[j] + geo.arc(p.t[j], p.t[j + 1], L, L * k / m)[0] - x)
             for k in range(m + 1)]
        k = int(np.argmin(f))
        lo, hi = L * max(k - 1, 0) / m, L * min(k + 1, m) / m
        g = lambda s: np.linalg.norm(
            p.pos[j] + geo.arc(p.t[j], p.t[j + 1], L, s)[0] - x)
        for _ in range(40):
            a, b = lo + 0.382 * (hi - lo), lo + 0.618 * (hi - lo)
            if g(a) < g(b):
                hi = b
            else:
                lo = a
        s = min((lo, hi, 0.0, L), key=g)
        best.append((g(s), p.md[j] + s, j))
    return best


def args(c):
    return dict(k=c["k"], sigma_pa=c["sigma_pa"], Sm=c["Sm"], Rr=c["Rr"], Ro=c["Ro"])


def make(c, **kw):
    return we.clearance.IscwsaClearance(
        survey(c["ref"], c["radii"]), survey(c["off"], c["radii"]), **args(c), **kw)


def geometry(c, cl, p, o, stations):
    """Judge the closest approach at the clearance's reference stations."""
    n = len(cl.ref.md)
    for nm in ("distance_cc", "hoz_bearing", "hoz_bearing_deg", "toolface_bearing",
               "trav_cyl_azi_deg", "sf", "idx"):
        check(np.shape(getattr(cl, nm)) == (n,), f"{nm} has shape "
              f"{np.shape(getattr(cl, nm))} for {n} stations")
    off = nev(cl.off)
    lines = cl.get_lines()
    hits = 0
    for i in range(n):
        x, t = p.at(float(cl.ref.md[i]))
        close([cl.ref.n[i], cl.ref.e[i], cl.ref.tvd[i]], x, 1e-5, 1e-8,
              what="reference position")
        close(cl.ref.vec_nev[i], t, 1e-6, what="reference direction")
        md = float(cl.off.md[i])
        check(o.md[0] - 1e-6 <= md <= o.md[-1] + 1e-6, f"offset md {md} off the well")
        y, ty = o.at(min(max(md, o.md[0]), o.md[-1]))
        close(off[i], y, 2e-5, 1e-8, what="closest point: position at its md")
        close(cl.off.vec_nev[i], ty, 1e-6, what="closest point: direction at its md")
        d = np.linalg.norm(off[i] - x)
        close(cl.distance_cc[i], d, 1e-6, 1e-8, what="centre to centre distance")
        close(lines[0][i], x, 1e-5, 1e-8, what="get_lines start")
        close(lines[1][i], off[i], 1e-6, what="get_lines end")
        cand = closest(o, x)
        want = min(cand)[0]
        hits += 1
        check(d <= want + 0.02 + 1e-3 * want,
              lambda: f"closest point {d} away at station {i}, {want} is possible")
        check(d >= want - 1e-4, "closer than the well is")
        if d < 0.05:
            continue
        u = (off[i] - x) / d
        if math.hypot(u[0], u[1]) > 1e-3:
            b = math.atan2(u[1], u[0])
            close(angdiff(cl.hoz_bearing[i], b), 0.0, 2e-5, what="horizontal bearing")
            close(angdiff(math.radians(cl.hoz_bearing_deg[i]), b), 0.0, 2e-5,
                  what="horizontal bearing (deg)")
        inc = math.atan2(math.hypot(t[0], t[1]), t[2])
        if 0.01 < inc < math.pi - 0.01 or inc == 0:
            azi = math.atan2(t[1], t[0]) if inc else float(cl.ref.azi_grid_rad[i])
            h, l, a = geo.hla_axes(inc, azi)
            if math.hypot(u @ h, u @ l) > 1e-2:
                tf = math.atan2(u @ l, u @ h)
                close(angdiff(cl.toolface_bearing[i], tf), 0.0, 1e-4,
                      what="toolface bearing")
                close(angdiff(math.radians(cl.toolface_bearing_deg[i]), tf), 0.0, 1e-4,
                      what="toolface bearing (deg)")
                close(angdiff(math.radians(cl.trav_cyl_azi_deg[i]), tf + azi), 0.0,
                      2e-4, what="travelling cylinder azimuth")
    return hits


def run(c):
    r, f = survey(c["ref"], c["radii"]), survey(c["off"], c["radii"])
    before = [nev(r), nev(f), r.md.copy(), f.md.copy(), r.cov_nev.copy(), f.cov_nev.copy()]
    p, o = path(c["ref"]), path(c["off"])
    cl = we.clearance.IscwsaClearance(r, f, **args(c), minimize_sf=False)
    close(cl.ref.md, c["ref"]["md"], 1e-9, what="reference stations")
    hits = geometry(c, cl, p, o, None)
    cl2 = we.clearance.IscwsaClearance(r, f, **args(c))
    geometry(c, cl2, p, o, None)
    # every original station is still there
    for m, d in zip(cl.ref.md, cl.distance_cc):
        j = int(np.abs(cl2.ref.md - m).argmin())
        close(cl2.ref.md[j], m, 1e-9, what="an original station after minimising")
        close(cl2.distance_cc[j], d, 0.02 + 1e-3 * d, what="distance after minimising")
    added = len(cl2.ref.md) - len(cl.ref.md)
    check((np.diff(cl2.ref.md) > 0).all(), "stations not in order")
    after = [nev(r), nev(f), r.md, f.md, r.cov_nev, f.cov_nev]
    for a, b in zip(before, after):
        check(np.array_equal(a, b), "the surveys were changed")
    return Info(hits > 1, [c["kind"], "added" if added else "none added",
                           c["ref"]["h"]["azi_reference"]])


@st.composite
def case_bend(draw):
    """Stations inside the bends of a well with few stations."""
    if draw(st.integers(0, 3)):     # round and round
        n = draw(st.integers(3, 7))
        sign = draw(st.sampled_from([1, -1]))
        turn = [0] + [draw(st.integers(40, 150)) for _ in range(n - 1)]
        off = {"md": np.cumsum([0] + [draw(st.integers(100, 400))
                                      for _ in range(n - 1)]).tolist(),
               "inc": [draw(st.integers(70, 110)) for _ in range(n)],
               "azi": [int(a) % 360 for a in sign * np.cumsum(turn)]}
    else:
        off = draw(gens.stations(min_n=2, max_n=6, max_dinc=80, max_dazi=160,
                                 min_step=50, max_step=600, max_inc=150))
    off["h"] = draw(gens.header(unit=("meters",), mag=False))
    off["start_nev"] = draw(gens.nev_offset)
    ref = draw(well(n=(2, 3), start=[0.0, 0.0, 0.0]))
    for c in (ref, off):
        c["cov"] = [draw(psd())] * len(c["md"])
        c["radius"] = [0.2] * len(c["md"])
    return {"ref": ref, "off": off, "at": draw(gens.q(0, 1, 0.01)),
            "in": draw(gens.q(0, 1.2, 0.01)), "side": [draw(small) for _ in range(3)],
            "k": 3.5, "sigma_pa": 0.5, "Sm": 0.3, "radii": True, "Rr": 0.2, "Ro": 0.2}


def run_bend(c):
    o = path(c["off"])
    md = o.md[0] + c["at"] * (o.md[-1] - o.md[0])
    # somewhere between a point of the well and the middle of its stations
    x = o.at(md)[0] * (1 - c["in"]) + o.pos.mean(axis=0) * c["in"] + np.array(c["side"])
    c = dict(c, ref=dict(c["ref"], start_nev=[round(float(v), 2) for v in x]))
    cl = make(c, minimize_sf=False)
    p = path(c["ref"])
    geometry(c, cl, p, o, None)
    far = 0
    for m in c["ref"]["md"]:
        x = p.at(m)[0]
        k = int(np.argmin(np.linalg.norm(o.pos - x, axis=1)))
        far += min(closest(o, x, 24))[2] not in (k - 1, k)
    return Info(far > 0 or c["in"] > 0.2, ["not at the nearest station"] if far else [])


@st.composite
def case_kop(draw):
    c = draw(scenario())
    c["at"] = draw(st.integers(0, len(c["ref"]["md"]) - 2))
    c["between"] = draw(st.booleans())
    return c


def run_kop(c):
    """From a kick-off depth, only the stations below are judged."""
    j, md = c["at"], c["ref"]["md"]
    kop = md[j] - (0.4 * (md[j] - md[j - 1]) if c["between"] and j else 0.0)
    p, o = path(c["ref"]), path(c["off"])
    cl = make(c, kop_depth=kop, minimize_sf=False)
    close(cl.ref.md, md[j:], 1e-9, what="stations from the kick-off")
    geometry(c, cl, p, o, None)
    geometry(c, make(c, kop_depth=kop), p, o, None)
    return Info(j > 0, [c["kind"], "between" if c["between"] else "at a station"])


PROP = Prop("P19", [
    Facet("closest", scenario(), run, 250,
          rule="random pairs of wells (alike, unrelated, same slot), headers; "
               "non-trivial: two or more stations whose closest point is judged"),
    Facet("bends", case_bend(), run_bend, 250,
          rule="stations inside the bends of wells of long curved intervals; "
               "non-trivial: away from the well or closest to an interval that "
               "isn't at the nearest station"),
    Facet("kop", case_kop(), run_kop, 120,
          rule="the same pairs from a kick-off depth; non-trivial: below the first "
               "station"),
])
