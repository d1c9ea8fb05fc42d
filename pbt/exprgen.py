"""Generators of free-form expressions (any degree), and environments."""
from typing import Any, Dict, List

from hypothesis import strategies as st

from . import asts

IDENT_HEADS = ["x", "y", "p", "flow", "T", "t1", "sum1", "sums", "time", "_z", "expec", "e", "E1", "a_b", "tt", "sum_connection", "Sum", "x9_", "n0"]
LITS = [0, 1, 2, 3, 0.5, 2.25, 10, 7.125, 100, 0.001]


class Env:
    """Deterministic values for names; every name differs at every (t, s)."""

    def __init__(self, T: int = 4, S: int = 3, ints: Dict[str, int] = {}) -> None:
        self.T, self.S, self.ints = T, S, ints

    def _v(self, name: str, t: int, s: int) -> float:
        h = 0
        for ch in name:
            h = (h * 31 + ord(ch)) % 1009
        # never zero, so that divisions are defined nearly everywhere
        return 1.0 + h / 100.0 + t * 0.37 + s * 1.61 + (h % 7) * t * s * 0.11

    def var(self, name: str, t: int, s: int) -> float:
        return self._v("v" + name, t, s)

    def par(self, name: str, t: int, s: int) -> float:
        if name in self.ints:
            return self.ints[name]
        return self._v("p" + name, t, s)

    def field(self, op: str, port: str, field: str, t: int, s: int) -> float:
        return self._v(op + port + "." + field, t, s)


class X:
    def __init__(self, draw: Any, names: bool = True) -> None:
        self.draw = draw
        n = draw(st.integers(2, 5))
        idents = draw(st.lists(st.sampled_from(IDENT_HEADS), min_size=n, max_size=n, unique=True)) if names else ["x", "y", "p", "q", "n"][:n]
        cut = draw(st.integers(1, n - 1))
        self.vars = idents[:cut]
        self.params = idents[cut:]
        self.ints = {self.params[-1]: draw(st.sampled_from([1, 2, 0, -1, 3, -2]))}
        self.time = True
        self.scen = True
        self.ports = True

    def pick(self, xs: List[Any]) -> Any:
        return self.draw(st.sampled_from(xs))

    def bound(self, d: int = 1) -> asts.Ast:
        p = ["par", list(self.ints)[0]]
        return self.pick(
            [
                ["lit", 0],
                ["lit", 1],
                ["lit", -1],
                ["lit", 3],
                ["lit", -2],
                p,
                ["neg", p],
                ["add", p, ["lit", 1]],
                ["sub", ["lit", 2], p],
                ["add", ["lit", 1], p],
                ["sub", ["neg", p], ["lit", 2]],
                ["mul", ["lit", 2], p],
                ["sub", ["add", p, ["lit", 1]], p],
                ["sub", p, ["sub", ["lit", 1], p]],
            ]
        )

    def expr(self, d: int) -> asts.Ast:
        kinds = ["var", "par", "lit"]
        if self.ports:
            kinds += ["field", "sumc"]
        if d > 0:
            kinds += ["neg", "add", "sub", "sub", "mul", "div", "div"] * 2
            if self.time:
                kinds += ["shift", "eval", "tsum", "allsum"]
            if self.scen:
                kinds += ["expec"]
        k = self.pick(kinds)
        if k == "var":
            return ["var", self.pick(self.vars)]
        if k == "par":
            return ["par", self.pick(self.params)]
        if k == "lit":
            return ["lit", self.pick(LITS)]
        if k in ("field", "sumc"):
            return [k, self.pick(["q", "port_1", "Q"]), self.pick(["f", "flow", "g2"])]
        if k in ("neg", "allsum", "expec"):
            return [k, self.expr(d - 1)]
        if k in asts.BINARY:
            return [k, self.expr(d - 1), self.expr(d - 1)]
        if k in ("shift", "eval"):
            return [k, self.expr(d - 1), self.bound()]
        return ["tsum", self.expr(d - 1), self.bound(), self.bound()]


def same_value(a: asts.Ast, b: asts.Ast, env: Env) -> Any:
    """None when a and b have the same value at all indices, else a message"""
    for t in range(env.T):
        for s in range(env.S):
            va, vb = safe(a, env, t, s), safe(b, env, t, s)
            if va is None and vb is None:
                continue
            if va is None or vb is None:
                return f"value {va} instead of {vb} at t={t} s={s}"
            if abs(va - vb) > 1e-6 * (1 + abs(va) + abs(vb)):
                return f"value {va} instead of {vb} at t={t} s={s}"
    return None


def safe(e: asts.Ast, env: Env, t: int, s: int) -> Any:
    try:
        v = asts.value(e, env, t, s)
    except (ZeroDivisionError, OverflowError):
        return None
    # results close to a cancellation are not comparable
    return v if abs(v) < 1e12 else None
