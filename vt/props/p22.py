"""P22 mesh clearance finds overlapping and separate well bores."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, check, close
from ..mk import make_header, nev


@st.composite
def case(draw):
    unit = draw(st.sampled_from(["meters", "meters", "feet"]))
    c = {"unit": unit, "n": draw(st.sampled_from([12, 16, 24])),
         "sigma": draw(st.one_of(st.just(2.445), gens.q(1, 4))),
         "Sm": draw(st.one_of(st.just(None), gens.q(0, 2))),
         "pa": draw(st.one_of(st.just(None), gens.q(0, 3))),
         "dir": draw(gens.angle_deg), "at": [draw(gens.q(0.1, 0.9)),
                                             draw(gens.q(0.1, 0.9))],
         "apart": draw(st.one_of(gens.q(0, 1), gens.q(0, 2.5), gens.q(0.9, 1.1),
                                 gens.q(1.5, 8)))}
    for w in ("ref", "off"):
        n = draw(st.integers(3, 5))
        k = draw(gens.stations(min_n=n, max_n=n, min_step=60, max_step=200,
                               max_dinc=7, max_dazi=7, max_inc=80))
        k["sd"] = [draw(gens.q(0.3, 3))]
        for _ in range(n - 1):
            k["sd"].append(round(k["sd"][-1] + draw(gens.q(0, 1.5)), 2))
        k["radius"] = draw(gens.q(0.05, 0.8))
        k["big"] = draw(st.sampled_from([1, 1, 4]))
        k["sd"] = [x * k["big"] for x in k["sd"]]
        c[w] = k
    return c


class Tube:
    """The tube between the rings: chords with linear radii."""

    def __init__(self, k, r, start):
        self.path = geo.Path(k["md"], k["inc"], k["azi"], start)
        self.r = np.asarray(r, float)
        self.md = np.asarray(k["md"], float)

    def axis(self, i=None, m=160):
        """Samples (point, radius) of all the chords or of one."""
        P, out, rad = self.path.pos, [], []
        js = range(len(self.md) - 1) if i is None else [i]
        f = np.linspace(0, 1, m)[:, None]
        for j in js:
            out.append(P[j] + f * (P[j + 1] - P[j]))
            rad.append(self.r[j] + f[:, 0] * (self.r[j + 1] - self.r[j]))
        return np.vstack(out), np.concatenate(rad)

    def skin(self, i=None, m=40, k=24, scale=1.0):
        """Points on the side of the tube (rings move linearly)."""
        js = range(len(self.md) - 1) if i is None else [i]
        th = np.linspace(0, 2 * math.pi, k, endpoint=False)
        out = []
        for j in js:
            ends = []
            for q in (j, j + 1):
                t = self.path.t[q]
                if q == j:
                    e = np.eye(3)[int(np.argmin(np.abs(t)))]
                    x = e - (e @ t) * t
                else:
                    x = x - (x @ t) * t
                x = x / np.linalg.norm(x)
                y = np.cross(t, x)
                ends.append(self.path.pos[q] + scale * self.r[q] * (
                    np.cos(th)[:, None] * x + np.sin(th)[:, None] * y))
            f = np.linspace(0, 1, m)[:, None, None]
            out.append((ends[0] + f * (ends[1] - ends[0])).reshape(-1, 3))
        return np.vstack(out)

    def inside(self, X, shrink, i=None):
        """Certainly inside (between two rings and within the shrunk radius)."""
        hit = np.zeros(len(X), bool)
        js = range(len(self.md) - 1) if i is None else [i]
        for j in js:
            a, b = self.path.pos[j], self.path.pos[j + 1]
            ta, tb = self.path.t[j], self.path.t[j + 1]
            L = np.linalg.norm(b - a)
            u = (b - a) / L
            s = (X - a) @ u
            d = np.linalg.norm(X - a - s[:, None] * u, axis=1)
            r = self.r[j] + (self.r[j + 1] - self.r[j]) * np.clip(s / L, 0, 1)
            ok = ((X - a) @ ta > 0) & ((X - b) @ tb < 0)
            hit |= ok & (d < shrink * r)
        return hit


def run_mesh(c):
    hd = make_header({"depth_unit": c["unit"], "azi_reference": "grid"})
    sm = 0.3 if c["Sm"] is None else c["Sm"]    # the default of the rule
    pa = 0.5 if c["pa"] is None else c["pa"]
    kw = {}
    if c["Sm"] is not None:
        kw["Sm"] = sm
    if c["pa"] is not None:
        kw["sigma_pa"] = pa
    rad = {w: np.array(c[w]["sd"]) * c["sigma"] + c[w]["radius"] + pa / 2
           + (sm if w == "off" else 0) for w in ("ref", "off")}
    # place the offset so that its point passes the reference's point
    tr = Tube(c["ref"], rad["ref"], [0, 0, 0])
    t0 = Tube(c["off"], rad["off"], [0, 0, 0])
    mid = []
    for t, f in zip((tr, t0), c["at"]):
        m = t.md[0] + f * (t.md[-1] - t.md[0])
        p, v = t.path.at(m)
        mid.append((p, v, float(np.interp(m, t.md, t.r))))
    (p1, v1, r1), (p2, v2, r2) = mid
    w = np.cross(v1, v2)
    if np.linalg.norm(w) < 0.05:
        e = np.eye(3)[int(np.argmin(np.abs(v1)))]
        w = math.cos(math.radians(c["dir"])) * np.cross(v1, e) + math.sin(
            math.radians(c["dir"])) * np.cross(v1, np.cross(v1, e))
    w = w / np.linalg.norm(w)
    start = p1 + c["apart"] * (r1 + r2) * w - p2
    to = Tube(c["off"], rad["off"], start)

    def surv(k, s0):
        n = len(k["md"])
        cov = np.array([np.eye(3) * x * x for x in k["sd"]])
        return we.survey.Survey(md=k["md"], inc=k["inc"], azi=k["azi"], header=hd,
                                unit=c["unit"], start_nev=list(s0), cov_nev=cov,
                                radius=k["radius"])
    ref, off = surv(c["ref"], [0, 0, 0]), surv(c["off"], start)
    mc = we.clearance.MeshClearance(ref, off, n_verts=c["n"], sigma=c["sigma"],
                                    return_meshes=True, **kw)
    n = len(c["ref"]["md"]) - 1
    for a in ("collision", "distance", "distance_cc", "sf", "nev", "off_index",
              "hoz_bearing_deg", "ref_pcr", "off_pcr", "calc_hole", "ref_md",
              "off_md", "meshes"):
        check(len(getattr(mc, a)) == n, lambda: f"{len(getattr(mc, a))} {a} for "
              f"{n} sections")
    fast = we.clearance.MeshClearance(ref, off, n_verts=c["n"], sigma=c["sigma"],
                                      return_data=False, **kw)
    flags = [bool(x[0] if isinstance(x, tuple) else x) for x in fast.collision]
    hits = [bool(x[0]) for x in mc.collision]
    check(flags == hits, "collisions depend on return_data")
    # the bent chords of either mesh
    Xo, Ro = to.axis()
    So = to.skin(m=60)
    tree = cKDTree(So)
    size = max(tr.r.max(), to.r.max())
    # how far the arcs are from their chords
    sag = {t: float((np.diff(t.md) * t.path.dl[1:]).max()) / 8 for t in (tr, to)}
    tol = 0.03 * size + 0.3
    far = 0
    lab = set()
    for i in range(n):
        X, R = tr.axis(i)
        D = np.linalg.norm(X[:, None] - Xo[None], axis=2)
        lo = float((D - R[:, None] - Ro[None]).min())
        S = tr.skin(i, m=60)
        hi = float(tree.query(S)[0].min())
        # an axis, or a point well inside one tube, well inside the other
        over = (to.inside(X, 0.9).any() or tr.inside(Xo, 0.9, i).any()
                or to.inside(tr.skin(i, scale=0.88), 0.88).any()
                or tr.inside(to.skin(scale=0.88), 0.88, i).any())
        hit, sf, d = hits[i], float(mc.sf[i]), float(mc.distance[i][0])
        a, b = mc.nev[i][0][0], mc.nev[i][1][0]
        if over:
            lab.add("contains" if hi > tol and lo < -tol else "overlap")
            check(hit, lambda: f"section {i}: the well bores overlap, no collision "
                  f"(sf {sf})")
        if lo > tol:
            far += 1
            check(not hit, lambda: f"section {i}: collision {lo} apart")
            check(lo - tol <= d <= hi + tol,
                  lambda: f"section {i}: distance {d}, not {lo} to {hi}")
        # the centre points are points of the wells at the depths reported
        m1, m2 = float(mc.ref_md[i]), float(mc.off_md[i])
        check(tr.md[i] - 1e-6 <= m1 <= tr.md[i + 1] + 1e-6,
              lambda: f"section {i}: reference md {m1}")
        check(to.md[0] - 1e-6 <= m2 <= to.md[-1] + 1e-6,
              lambda: f"section {i}: offset md {m2}")
        close(a, tr.path.at(m1)[0], 1e-3, what=f"section {i}: reference point")
        close(b, to.path.at(m2)[0], 1e-3, what=f"section {i}: offset point")
        cc = float(np.linalg.norm(b - a))
        close(mc.distance_cc[i], cc, 1e-6, what=f"section {i}: centre distance")
        if math.hypot(b[0] - a[0], b[1] - a[1]) > 1e-3:
            br = math.degrees(math.atan2(b[1] - a[1], b[0] - a[0])) % 360
            x = abs(float(mc.hoz_bearing_deg[i]) - br)
            check(min(x, 360 - x) < 1e-3, f"section {i}: bearing")
        close(mc.calc_hole[i], c["ref"]["radius"] + c["off"]["radius"], 1e-9,
              what=f"section {i}: hole size")
        if hit:
            check(0 <= sf <= 1, lambda: f"section {i}: sf {sf} of a collision")
        else:
            check(sf >= 1, lambda: f"section {i}: sf {sf} without a collision")
            if cc - d > 1e-3:
                close(sf, cc / (cc - d), 0.0051, 1e-6, what=f"section {i}: sf")
            # the points behind the distance, and how far out they are
            g = np.array([mc.distance[i][2].point(k) for k in ("__external", "offset")])
            close(np.linalg.norm(g[0] - g[1]), d, 1e-3, what="closest points")
            for p, q, pcr, rr, top in (
                    (g[0], a, mc.ref_pcr[i], c["ref"]["radius"],
                     max(c["ref"]["sd"][i:i + 2]) + sag[tr] / c["sigma"]),
                    (g[1], b, mc.off_pcr[i], c["off"]["radius"] + sm,
                     max(c["off"]["sd"]) + sag[to] / c["sigma"])):
                close(pcr * c["sigma"] + pa / 2 + rr, np.linalg.norm(p - q), 1e-3,
                      what=f"section {i}: uncertainty towards the other well")
                check(pcr <= top * 1.05 + 0.5,
                      lambda: f"section {i}: uncertainty {pcr}, at most {top}")
    P = mc.get_lines()
    check(P.shape == (2, n, 3), lambda: f"lines have shape {P.shape}")
    lines = np.linalg.norm(P[0] - P[1], axis=1)
    for i in range(n):
        if not hits[i]:
            close(lines[i], mc.distance[i][0], 1e-3, what="length of a line")
    lab |= {"hit" if any(hits) else "clear", c["unit"]}
    return Info(any(hits) or far > 0, sorted(lab))


PROP = Prop(
    "P22",
    [Facet("mesh", case(), run_mesh, 120,
           "sections overlap, or are apart by more than the tolerance")],
    ["isotropic uncertainty, so that the envelopes are tubes",
     "overlaps and distances within the facets' size of the tube aren't judged"])
