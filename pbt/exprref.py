"""Independent recogniser of the expression language (documented grammar)."""
import re
from typing import List, Optional, Set, Tuple

TOKEN = re.compile(
    r"\s*(?:(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)"
    r"|(?P<cmp>>=|<=|=)|(?P<op>\.\.|[-+*/().,\[\]]))"
)


class Reject(Exception):
    pass


def tokens(text: str) -> List[Tuple[str, str]]:
    out = []
    pos = 0
    stripped = text.rstrip(" \t\r\n")
    while pos < len(stripped):
        # only these four characters are blanks
        while pos < len(stripped) and stripped[pos] in " \t\r\n":
            pos += 1
        m = TOKEN.match(stripped, pos)
        if not m or stripped[pos] not in m.group(0).lstrip()[:1]:
            raise Reject(f"character {stripped[pos]!r}")
        kind = m.lastgroup
        value = m.group(kind)
        if kind == "id" and value in ("t", "sum", "sum_connections"):
            kind = value
        if kind == "op":
            kind = value
        out.append((kind, value))
        pos = m.end()
    return out


class Recogniser:
    def __init__(self, text: str, names: Set[str]) -> None:
        self.toks = tokens(text)
        self.i = 0
        self.names = names

    def peek(self, k: int = 0) -> Optional[str]:
        return self.toks[self.i + k][0] if self.i + k < len(self.toks) else None

    def take(self, kind: str) -> str:
        if self.peek() != kind:
            raise Reject(f"{kind} expected, got {self.peek()}")
        self.i += 1
        return self.toks[self.i - 1][1]

    def name(self) -> None:
        n = self.take("id")
        if n not in self.names:
            raise Reject(f"unknown {n}")

    def full(self) -> None:
        self.expr()
        if self.peek() is not None:
            raise Reject("trailing text")

    def expr(self) -> None:
        self.unary()
        while self.peek() in ("+", "-", "*", "/", "cmp"):
            self.i += 1
            self.unary()

    def unary(self) -> None:
        while self.peek() == "-":
            self.i += 1
        self.primary()

    def index(self) -> None:
        self.take("[")
        if self.peek() == "t":
            self.shift()
        else:
            self.expr()
        self.take("]")

    def primary(self) -> None:
        k = self.peek()
        if k == "num":
            self.i += 1
        elif k == "id":
            if self.peek(1) == ".":
                self.port_field()
            elif self.peek(1) == "(":
                if self.take("id") != "expec":
                    raise Reject("unknown function")
                self.paren()
            else:
                self.name()
                if self.peek() == "[":
                    self.index()
        elif k == "(":
            self.paren()
            if self.peek() == "[":
                self.index()
        elif k == "sum":
            self.i += 1
            self.take("(")
            if self.peek() == "t":
                self.shift()
                self.take("..")
                self.shift()
                self.take(",")
            self.expr()
            self.take(")")
        elif k == "sum_connections":
            self.i += 1
            self.take("(")
            self.port_field()
            self.take(")")
        else:
            raise Reject(f"unexpected {k}")

    def port_field(self) -> None:
        self.take("id")
        self.take(".")
        self.take("id")

    def paren(self) -> None:
        self.take("(")
        self.expr()
        self.take(")")

    def shift(self) -> None:
        self.take("t")
        if self.peek() not in ("+", "-"):
            return
        self.i += 1
        self.shift_atom()
        while self.peek() in ("+", "-", "*", "/"):
            self.i += 1
            self.shift_atom()

    def shift_atom(self) -> None:
        if self.peek() == "num":
            self.i += 1
        elif self.peek() == "(":
            self.paren()
        else:
            self.name()


def accepts(text: str, names: Set[str]) -> bool:
    try:
        Recogniser(text, names).full()
        return True
    except Reject:
        return False
