"""Structured generators.  Every generated case is plain JSON."""
import random

from hypothesis import strategies as st


def q(lo, hi, step=0.01):
    """Floats on a decimal grid (readable, shrinks towards lo/0)."""
    k = round(1 / step)
    a, b = round(lo * k), round(hi * k)
    return st.integers(a, b).map(lambda i: i / k)


# signed values shrink towards 0
angle_deg = q(0, 359.99)
offset = st.one_of(st.just(0.0), q(-2000, 2000, 0.1))
nev_offset = st.tuples(offset, offset, q(-500, 500, 0.1)).map(list)


@st.composite
def stations(draw, min_n=3, max_n=9, start_md=None, max_dinc=40.0,
             max_dazi=70.0, max_inc=170.0, max_step=400.0, min_step=1.0,
             vertical_start=None, allow_up=True, hold_start=False, long=False):
    """A survey listing: md strictly increasing, inc in [0, max_inc], azi in
    [0, 360), successive directions at most ~110 degrees apart.  A few of the
    long ones have dozens of stations more (from a seed, to keep them cheap)."""
    n = draw(st.integers(min_n, max_n))
    more = 0
    if long and n > 2:
        more = draw(st.sampled_from([0] * 24 + [25, 70]))
    md0 = draw(st.one_of(st.just(0.0), q(0, 3000, 0.1))) if start_md is None else start_md
    vert = draw(st.booleans()) if vertical_start is None else vertical_start
    inc = 0.0 if vert else draw(q(0, min(100.0, max_inc)))
    azi = draw(st.one_of(st.just(0.0), angle_deg))
    md, incs, azis = [md0], [inc], [azi]
    for i in range(n - 1):
        d = draw(st.one_of(q(min_step, max_step, 0.1),
                           st.sampled_from([10.0, 30.0, 100.0])))
        kind = draw(st.sampled_from(
            ["mixed", "hold", "build", "turn", "mixed", "vertical", "cardinal"]))
        if hold_start and i == 0:
            kind = "hold"
        if kind in ("mixed", "build"):
            inc = inc + draw(q(-max_dinc, max_dinc))
        if kind in ("mixed", "turn"):
            azi = azi + draw(q(-max_dazi, max_dazi))
        if kind == "vertical" and inc <= max_dinc:
            inc = 0.0
        if kind == "cardinal":
            near = 90.0 * round(azi / 90)
            if abs(near - azi) <= max_dazi:
                azi = near
            if abs(inc - 90) <= max_dinc and max_inc >= 90:
                inc = 90.0
        if inc < 0:
            inc = -inc
        if inc > max_inc:
            inc = 2 * max_inc - inc
        azi = azi % 360.0
        inc = round(inc, 2)
        azi = round(azi, 2) % 360.0
        md.append(round(md[-1] + d, 1))
        incs.append(inc)
        azis.append(azi)
    if more:
        r = random.Random(draw(st.integers(0, 999)))
        for _ in range(more):
            if r.random() < 0.6:
                inc = inc + r.uniform(-max_dinc, max_dinc) / 4
                azi = azi + r.uniform(-max_dazi, max_dazi) / 4
            inc = round(min(abs(inc), max_inc), 2)
            azi = round(azi % 360.0, 2) % 360.0
            md.append(round(md[-1] + max(min_step, r.choice([10, 28.6, r.uniform(5, 60)])), 1))
            incs.append(inc)
            azis.append(azi)
    return {"md": md, "inc": incs, "azi": azis}


@st.composite
def header(draw, refs=("grid", "true", "magnetic"), unit=("meters", "feet"),
           scale=False, mag=True):
    h = {
        "azi_reference": draw(st.sampled_from(list(refs))),
        "convergence": draw(st.one_of(st.just(0.0), q(-5, 5))),
        "declination": draw(st.one_of(st.just(0.0), q(-25, 25))),
        "depth_unit": draw(st.sampled_from(list(unit))),
    }
    if mag:
        h["b_total"] = draw(q(22000, 66000, 1))
        h["dip"] = draw(q(-80, 80))
    if scale:
        h["grid_scale_factor"] = draw(
            st.one_of(st.just(1.0), q(0.999, 1.001, 0.0001)))
    return h


unit_vec_angles = st.tuples(q(0, 180), angle_deg)
