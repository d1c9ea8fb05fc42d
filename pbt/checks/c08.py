"""Texts outside of the language are rejected, texts of the language accepted."""
from hypothesis import strategies as st

from .. import asts, exprgen, exprref
from ..runner import Test, Violation

PROPERTY = "C08"
RULE = (
    "random token sequences, random mutations (characters or tokens inserted, "
    "deleted, replaced, exchanged, truncations) of valid expressions, and arbitrary "
    "character strings; the code must accept exactly the texts accepted by an "
    "independent recogniser of the documented grammar with known names, and answer "
    "the others with its parse error. Non-trivial: the text is not a valid expression"
)
NAMES = {"x", "y", "p", "n"}
TOKENS = ["x", "y", "p", "n", "q", "q.f", "t", "sum", "sum_connections", "expec", "foo", "1", "2.5", "0", "+", "-", "*", "/", "(", ")", "[", "]", ".", "..", ",", "=", "<=", ">=", "<", ">", "==", "!", "^", "**", "é", "$", "x.", "1.", ".5", "1e3", "//", "%", "'", '"', "{", "}", ";", ":", "&", "|", "~", "@", "#", "\\", "²", "\u00a0", "\x00", "\x0b", "\ufeff", "x y", "T", "EXPEC", "Expec", "SUM", "Sum", "Sum_Connections", "SUM_CONNECTIONS", "X", "P", "max", "min", "abs", "sum_connection", "expect", "t1", "_t"]


def check(text, note):
    from andromede.expression.parsing.parse_expression import (
        AntaresParseException,
        ModelIdentifiers,
        parse_expression,
    )

    expected = exprref.accepts(text, NAMES)
    try:
        tree = parse_expression(text, ModelIdentifiers({"x", "y"}, {"p", "n"}))
    except AntaresParseException:
        if expected:
            raise Violation(f"{text!r} is rejected")
        note("+rejected")
        return
    if not expected:
        raise Violation(f"{text!r} is accepted, as {asts.from_expr(tree)}")
    note("accepted")


@st.composite
def valid(draw, depth=3):
    x = exprgen.X(draw, names=False)
    x.vars, x.params = ["x", "y"], ["p", "n"]
    x.ints = {"n": 1}
    e = x.expr(depth)
    if x.pick([False, True]):
        e = ["cmp", x.pick(["<=", ">=", "="]), e, x.expr(1)]
    return asts.to_text(e, False, x.pick([" ", ""]))


def words(text):
    out, cur = [], ""
    for ch in text:
        if ch.isalnum() or ch in "_.":
            cur += ch
        else:
            if cur:
                out.append(cur)
                cur = ""
            out.append(ch)
    return out + ([cur] if cur else [])


@st.composite
def mutated(draw):
    text = draw(valid())
    for _ in range(draw(st.integers(1, 2))):
        parts = words(text) if draw(st.booleans()) else list(text)
        if not parts:
            break
        i = draw(st.integers(0, len(parts) - 1))
        how = draw(st.sampled_from(["delete", "insert", "replace", "swap", "cut", "double", "case", "name"]))
        if how == "delete":
            del parts[i]
        elif how == "insert":
            parts.insert(i, draw(st.sampled_from(TOKENS)))
        elif how == "replace":
            parts[i] = draw(st.sampled_from(TOKENS))
        elif how == "swap" and i + 1 < len(parts):
            parts[i], parts[i + 1] = parts[i + 1], parts[i]
        elif how == "cut":
            parts = parts[:i] if draw(st.booleans()) else parts[i:]
        elif how in ("case", "name"):
            # another name, close to one of the text
            at = [k for k, w in enumerate(parts) if w[0].isalpha()]
            if at:
                k = at[i % len(at)]
                w = parts[k]
                parts[k] = draw(
                    st.sampled_from(
                        [w.upper(), w.capitalize(), w.swapcase(), w.title()]
                        if how == "case"
                        else [w + "s", w[:-1] + "_", "_" + w, w + w, w[1:] or "z", w[::-1], w + "1"]
                    )
                )
        elif how == "double":
            parts.insert(i, parts[i])
        text = "".join(parts)
    return text


def sequences():
    return st.lists(st.sampled_from(TOKENS), max_size=9).flatmap(
        lambda ts: st.sampled_from([" ".join(ts), "".join(ts)])
    )


TESTS = [
    Test("mutated", mutated, check, 3200, 80000),
    Test("tokens", sequences, check, 2000, 50000),
    Test("characters", lambda: st.text(max_size=12), check, 400, 10000),
    Test("ascii", lambda: st.text("xyptn. ()[]+-*/,=<>0123sum_\t\n", max_size=14), check, 1200, 40000),
    Test("valid", lambda: valid(4), check, 800, 20000),
]
