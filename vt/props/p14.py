"""P14 building or dropping to an inclination and extending to a TVD."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens, geo
from ..boot import we
from ..core import Facet, Info, Prop, Skip, angdiff, check, close
from ..mk import make_header, nev
from .p11 import Ref

pos3 = st.tuples(*[gens.q(-2000, 2000, 0.1)] * 3).map(list)


@st.composite
def case_drop(draw):
    return {"inc": draw(st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 120))),
            "azi": draw(gens.angle_deg), "pos": draw(pos3),
            "md": draw(st.one_of(st.none(), gens.q(0, 5000, 0.1))),
            "to": draw(st.one_of(st.sampled_from([0.0, 90.0]), gens.q(0, 120))),
            "dls": draw(gens.q(0.5, 12)),
            "dmd": draw(st.one_of(st.none(), gens.q(1, 2000, 0.1))),
            "default": draw(st.sampled_from([False] * 7 + [True]))}


def the_node(c):
    return we.node.Node(pos=list(c["pos"]), inc=c["inc"], azi=c["azi"], md=c["md"])


def ref_turn(c, limit=None):
    """(reference after the turn, inclination reached in degrees)"""
    pos, inc, azi, md = c["pos"], c["inc"], c["azi"], c["md"] or 0.0
    if c["default"]:
        pos, inc, azi, md = [0.0] * 3, 0.0, 0.0, 0.0
    if inc == 0:
        azi = 0.0 if c["default"] else azi
    R = 30.0 / math.radians(c["dls"])
    ref = Ref(pos, geo.tangent(inc, azi), md)
    hs = geo.hla_axes(math.radians(inc), math.radians(azi))[0]
    th = abs(math.radians(c["to"] - inc))
    cut = limit is not None and R * th > limit
    if cut:
        th = limit / R
    if th > 0:
        ref.arc(th, R, hs if c["to"] > inc else -hs)
    return ref, (inc + math.copysign(math.degrees(th), c["to"] - inc)) if th else inc


def run_drop(c):
    # a vertical direction vector carries no azimuth: it then builds north
    if c["inc"] == 0:
        c = dict(c, azi=0.0)
    n = None if c["default"] else the_node(c)
    ref, inc = ref_turn(c, c["dmd"])
    turn_md = ref.md
    out = we.connector.drop_off(c["to"], c["dls"], c["dmd"], n)
    close(out[0].pos_nev, ref.p, 1e-4, what="end of the turn")
    close(out[0].vec_nev, ref.v, 1e-6, what="direction after the turn")
    close(out[0].inc_deg, inc, 1e-4, what="inclination after the turn")
    close(out[0].md, turn_md, 1e-4, what="md after the turn")
    md0 = 0.0 if c["default"] else (c["md"] or 0.0)
    left = 0.0 if c["dmd"] is None else md0 + c["dmd"] - turn_md
    if left > 1e-3:
        check(len(out) == 2, "no hold for the rest of the section")
        ref.hold(left)
        close(out[1].pos_nev, ref.p, 1e-4, what="end of the hold")
        close(out[1].vec_nev, ref.v, 1e-6, what="direction of the hold")
        close(out[1].md, ref.md, 1e-4, what="md at the end of the section")
    elif left < 1e-7:
        check(len(out) == 1, "a hold after a turn that takes the whole section")
    if n is not None:
        close(n.pos_nev, c["pos"], 0, what="caller's node")
    return Info(abs(c["to"] - c["inc"]) > 0.01,
                ["default" if c["default"] else
                 "build" if c["to"] > c["inc"] else "drop",
                 "limited" if c["dmd"] is not None else "unlimited"])


@st.composite
def case_tvd(draw):
    c = draw(case_drop())
    c["inc"] = draw(st.one_of(st.just(0.0), gens.q(0, 75)))
    c["to"] = draw(st.one_of(st.none(), st.just(0.0), gens.q(0, 75)))
    c["depth"] = draw(gens.q(1, 3000, 0.1))
    c["nodls"] = draw(st.booleans())
    c["dmd"] = None
    return c


def run_tvd(c):
    if c["inc"] == 0:
        c = dict(c, azi=0.0)
    n = None if c["default"] else the_node(c)
    z0 = 0.0 if c["default"] else c["pos"][2]
    inc0 = 0.0 if c["default"] else c["inc"]
    md0 = 0.0 if c["default"] else (c["md"] or 0.0)
    tvd = z0 + c["depth"]
    kw = {}
    if c["to"] is not None:
        kw["target_inc"] = c["to"]
        if c["nodls"]:
            c = dict(c, dls=2.5)
        else:
            kw["dls"] = c["dls"]
    if c["to"] is None:
        ref = Ref([0.0] * 3 if c["default"] else c["pos"],
                  geo.tangent(inc0, 0.0 if c["default"] else c["azi"]), md0)
        ref.hold(c["depth"] / math.cos(math.radians(inc0)))
        room, holds = True, 1
    else:
        ref, inc = ref_turn(c)
        room = ref.p[2] <= tvd - 0.01
        if abs(ref.p[2] - tvd) < 0.02:
            raise Skip
        if room:
            ref.hold((tvd - ref.p[2]) / math.cos(math.radians(c["to"])))
        else:
            # it's there before the turn is complete
            R = 30.0 / math.radians(c["dls"])
            i = math.radians(inc0)
            sgn = 1 if c["to"] > inc0 else -1
            x = math.sin(i) + sgn * c["depth"] / R      # sin of inc at the tvd
            th = abs(math.asin(x) - i)
            ref, _ = ref_turn(c, R * th)
    con = we.connector.extend_to_tvd(tvd, n, **kw)
    end = con[-1].node_end
    tol = 0.02
    close(end.pos_nev[2], tvd, tol, what="tvd at the end")
    amp = 1 / math.cos(math.atan2(math.hypot(*ref.v[:2]), ref.v[2]))
    close(end.pos_nev, ref.p, tol * amp, what="position at the end")
    close(end.vec_nev, ref.v, 1e-4, what="direction at the end")
    close(end.md, ref.md, tol * amp, what="md at the end")
    close(con[0].node_start.md, md0, 1e-6, what="md at the start")
    s = we.survey.from_connections(con, step=30)
    close(nev(s)[-1], ref.p, tol * amp, what="end of the survey of it")
    for a, b in zip(con[:-1], con[1:]):
        close(a.node_end.pos_nev, b.node_start.pos_nev, 1e-6, what="joint")
        close(a.node_end.vec_nev, b.node_start.vec_nev, 1e-6, what="joint direction")
    if c["to"] is not None:
        check(s.dls.max() <= c["dls"] * 1.001 + 0.01,
              lambda: f"dls {s.dls.max()} over {c['dls']}")
    return Info(c["to"] is not None and abs(c["to"] - inc0) > 0.01,
                ["straight" if c["to"] is None else "room" if room else "short"])


PROP = Prop("P14", [
    Facet("drop", case_drop(), run_drop, 1500,
          rule="random pose, target inclination, severity, section length; "
               "non-trivial: the inclination changes"),
    Facet("tvd", case_tvd(), run_tvd, 500,
          rule="random pose, tvd below it, optional inclination; non-trivial: the "
               "inclination changes"),
], assumptions=["inclinations up to 120 degrees for turns, 75 degrees on the way to "
                "a TVD that's below"])
