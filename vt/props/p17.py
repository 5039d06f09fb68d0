"""P17 formula interpreter: right values, and nothing but arithmetic."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gens
from ..boot import we
from ..core import Facet, Info, Prop, Skip, Violation, check, close
from welleng.errors.interpreter import evaluate_formula

VARS = ["MD", "Inc", "AzT", "AzM", "Dip", "Gfield", "MaxInc", "Sinus", "B_2",
        "Inf", "NaN"]
FUNCS = {"Sin": np.sin, "Cos": np.cos, "Tan": np.tan, "Asin": np.arcsin,
         "Acos": np.arccos, "Atan": np.arctan, "Abs": np.abs, "Sqr": np.sqrt,
         "Sqrt": np.sqrt, "Exp": np.exp, "Log": np.log}
FUNCS2 = {"Max": np.maximum, "Min": np.minimum}

leaf = st.one_of(
    st.tuples(st.just("v"), st.sampled_from(VARS)),
    st.tuples(st.just("n"), st.sampled_from(
        ["0", "1", "2", "0.25", "10", "1.3", "3.0", "1e-3", "0.5", "90", "7"])),
    st.tuples(st.just("p"), st.just("pi")))


def grow(x):
    return st.one_of(
        st.tuples(st.just("b"), st.sampled_from("+-*/^"), x, x),
        st.tuples(st.just("b"), st.sampled_from("+-*/"), x, x),
        st.tuples(st.just("u"), st.sampled_from("-+"), x),
        st.tuples(st.just("f"), st.sampled_from(sorted(FUNCS)), x),
        st.tuples(st.just("g"), st.sampled_from(sorted(FUNCS2)), x, x))


tree = st.recursive(leaf, grow, max_leaves=10)
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 4}


def text(t, sp, outer=0, right=False):
    """The usual notation; ambiguous cases (signs and powers of powers) in
    parentheses."""
    k = t[0]
    if k in "vnp":
        return t[1]
    if k == "f":
        return f"{t[1]}{sp}({text(t[2], sp)})"
    if k == "g":
        return f"{t[1]}({text(t[2], sp)},{sp}{text(t[3], sp)})"
    if k == "u":
        s = t[1] + text(t[2], sp, 3)
        return f"({s})" if outer or right else s
    p = PREC[t[1]]
    left = text(t[2], sp, p + (t[1] == "^"))
    rt = text(t[3], sp, p + 1, True)
    s = f"{left}{sp}{t[1]}{sp}{rt}"
    return f"({s})" if p < outer else s


def value(t, b):
    v = _value(t, b)
    if not np.isfinite(v).all():
        raise Skip("an intermediate value isn't finite")
    return v


def _value(t, b):
    k = t[0]
    if k == "v":
        return b[t[1]]
    if k == "n":
        return float(t[1])
    if k == "p":
        return math.pi
    if k == "f":
        return FUNCS[t[1]](value(t[2], b))
    if k == "g":
        return FUNCS2[t[1]](value(t[2], b), value(t[3], b))
    if k == "u":
        x = value(t[2], b)
        return -x if t[1] == "-" else x
    x, y = np.asarray(value(t[2], b), float), np.asarray(value(t[3], b), float)
    return {"+": np.add, "-": np.subtract, "*": np.multiply,
            "/": np.divide, "^": np.power}[t[1]](x, y)


@st.composite
def case_value(draw):
    n = draw(st.integers(1, 4))
    b = {}
    for v in VARS:
        if draw(st.booleans()):
            b[v] = draw(gens.q(0.01, 3))
        else:
            b[v] = [draw(gens.q(0.01, 3)) for _ in range(n)]
    return {"tree": draw(tree), "bind": b, "sp": draw(st.sampled_from(["", " "]))}


def run_value(c):
    b = {k: np.array(v, float) if isinstance(v, list) else v
         for k, v in c["bind"].items()}
    keep = {k: np.copy(v) for k, v in b.items()}
    f = text(c["tree"], c["sp"])
    with np.errstate(all="ignore"):
        want = value(c["tree"], {k: np.asarray(v, float) for k, v in b.items()})
        try:
            got = evaluate_formula(f, b)
        except Exception as e:
            raise Violation(f"{f}: {type(e).__name__} {e}")
    got, want = np.broadcast_arrays(np.asarray(got, float), want)
    close(got, want, 1e-12, 1e-9, what=f)
    for k, v in b.items():
        close(v, keep[k], 0, what=f"binding {k}")
    if len(c["tree"]) > 2:
        for num in (3, 0.25, -1.5):
            close(evaluate_formula(num, b), num, 0, what="a plain number")
    return Info(c["tree"][0] in "bfg", [c["tree"][0]])


class Spy:
    """Records any use made of it."""

    def __init__(self):
        object.__setattr__(self, "used", [])

    def __getattribute__(self, n):
        u = object.__getattribute__(self, "used")
        if n == "used":
            return u
        u.append(n)
        return lambda *a, **k: 0.0

    def __call__(self, *a, **k):
        self.used.append("call")
        return 0.0

    def __getitem__(self, k):
        self.used.append("item")
        return 0.0


BAD = ["Spy(@)", "Spy.x", "Spy.run(@)", "Spy[0]", "(Spy)(@)", "[Spy(@)]",
       "[x for x in Spy]", "(lambda: @)()", "lambda: @", "Sin(Inc).real",
       "Inc.__class__", "__import__('os')", "eval('1')", "open('f')",
       "exec('1')", "getattr(Inc, 'real')", "@ if Inc else 0", "@ and 1",
       "Inc > 1", "Inc == @", "not Inc", "~Inc", "@ // 2", "@ % 2", "Inc @ Inc",
       "@ << 1", "@ | 1", "@ & 1", "{@: 1}", "{@}", "(@, 1)", "[@]", "Inc[0]",
       "f'{Inc}'", "(y := @)", "sin(*Inc)", "sin(x=@)", "print(@)", "sum(Inc)",
       "Sin(@).x", "Foo(@)", "sinh(@)", "Sin(Spy(@))", "Max(Spy.x, @)",
       "@ + Spy(1)", "-Spy.x", "Spy(@)^2", "'abc'", "'a' * 3", "True", "None + 1", "2j * @", "b'x'", "...", "globals()", "__builtins__"]
MALFORMED = ["", "Sin(", "@ +", "* @", "(@", "@)", "1 2", "Sin()Cos()",
             "import os", "x = @", "@; @"]


@st.composite
def case_reject(draw):
    t = draw(st.recursive(leaf, grow, max_leaves=4))
    kind = draw(st.sampled_from(["bad", "bad", "malformed", "unbound"]))
    f = text(t, " ")
    if kind == "unbound":
        s = draw(st.sampled_from(["", f"({f}) * "])) + draw(st.sampled_from(
            ["MDPrev", "NoiseReductionFactor", "inc", "PI", "None_", "np", "math",
             "inf", "nan", "Infinity", "e", "j", "dip"]))
    else:
        s = draw(st.sampled_from(BAD if kind == "bad" else MALFORMED))
        s = s.replace("Inc @ Inc", "Inc\0Inc").replace("@", f"({f})").replace("\0", " @ ")
        if kind == "bad" and draw(st.booleans()) and not any(
                x in s for x in ("lambda", ":=", " if ", " and ", "not ")):
            s = f"Cos(Inc) * ({s})"
    return {"kind": kind, "f": s}


def run_reject(c):
    spy = Spy()
    b = {v: np.array([0.5, 1.0]) for v in VARS}
    b["Spy"] = spy
    f = c["f"]
    try:
        got = evaluate_formula(f, b)
    except Exception as e:
        err = e
    else:
        raise Violation(f"{f!r} was evaluated to {got!r}")
    check(not spy.used, lambda: f"{f!r} used a bound object: {spy.used}")
    if c["kind"] == "bad":
        check(isinstance(err, (ValueError, SyntaxError)),
              f"{f!r} raised {type(err).__name__}: {err}")
    return Info(True, [c["kind"]])


@st.composite
def case_tower(draw):
    # not taller, as an exact result would take forever
    return {"base": draw(st.integers(2, 7)), "up": draw(st.lists(
        st.integers(2, 7), min_size=1, max_size=2))}


def run_tower(c):
    """A tower of powers gets a value or an error, not an endless computation."""
    f = str(c["base"])
    for k in c["up"]:
        f = f"({k})^({f})"
    with np.errstate(all="ignore"):
        try:
            want = float(c["base"])
            for k in c["up"]:
                want = float(k) ** want
        except OverflowError:
            want = np.inf
        try:
            got = evaluate_formula(f, {})
        except (OverflowError, ValueError):
            got = np.inf
    if math.isinf(want):
        check(not isinstance(got, int) and np.isinf(got), f"{f} isn't a number")
    else:
        check(abs(float(got) / want - 1) < 1e-9, lambda: f"{f} is {got}, not {want}")
    return Info(len(c["up"]) > 1)


PROP = Prop("P17", [
    Facet("tower", case_tower(), run_tower, 100,
          rule="towers of powers of whole numbers; non-trivial: three"),
    Facet("value", case_value(), run_value, 2500,
          rule="random expressions over bound arrays and numbers against direct "
               "evaluation of the tree; non-trivial: an operation with finite value"),
    Facet("reject", case_reject(), run_reject, 1200,
          rule="expressions with anything but arithmetic, malformed or unbound"),
])
