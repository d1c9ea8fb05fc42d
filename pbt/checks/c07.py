"""The text of an expression means what usual notation says."""
from hypothesis import strategies as st

from .. import asts, exprgen
from ..runner import Discard, Test, Violation

PROPERTY = "C07"
RULE = (
    "random expression trees written as text with minimal or full parentheses, "
    "random blanks and redundant parentheses, parsed by the code; the parsed tree "
    "and the original must have the same value at every time and scenario of random "
    "environments; random flat operator chains are compared with Python's own "
    "arithmetic; random numbers, of any number of digits, are read to the last digit in "
    "every place. Non-trivial: at least two operators"
)


def identifiers(case):
    from andromede.expression.parsing.parse_expression import ModelIdentifiers

    return ModelIdentifiers(set(case["vars"]), set(case["params"]))


def parse(text, case):
    from andromede.expression.parsing.parse_expression import parse_expression

    return asts.from_expr(parse_expression(text, identifiers(case)))


@st.composite
def trees(draw, depth=4):
    x = exprgen.X(draw)
    e = x.expr(depth)
    if x.pick([False, False, True]):
        e = ["cmp", x.pick(["<=", ">=", "="]), e, x.expr(2)]
    return {
        "expr": e,
        "vars": x.vars,
        "params": x.params,
        "ints": x.ints,
        "full": x.pick([False, False, True]),
        "sp": x.pick([" ", "", "  ", "\n", "\t"]),
        "outer": draw(st.integers(0, 2)),
    }


def run(case, note):
    e = case["expr"]
    text = asts.to_text(e, case["full"], case["sp"])
    if case["outer"] and e[0] != "cmp":
        text = "(" * case["outer"] + text + ")" * case["outer"]
    env = exprgen.Env(ints=case["ints"])
    got = parse(text, case)
    pairs = [(got, e)]
    if e[0] == "cmp":
        if got[0] != "cmp" or got[1] != e[1]:
            raise Violation(f"{text!r} parsed as {got}")
        pairs = [(got[2], e[2]), (got[3], e[3])]
    for a, b in pairs:
        try:
            diff = exprgen.same_value(a, b, env)
        except ValueError as err:
            raise Violation(f"{text!r} parsed as {a}: {err}")
        except KeyError as err:
            raise Violation(f"{text!r} parsed as {a}: unexpected {err}")
        if diff:
            raise Violation(f"{text!r} parsed as {a}: {diff}")
    names = {tuple(n[:2]) for n in asts.walk(got) if n[0] in ("var", "par")}
    expected = {tuple(n[:2]) for n in asts.walk(e) if n[0] in ("var", "par")}
    if names - expected:
        raise Violation(f"{text!r}: {names - expected} appeared")
    ops = [n[0] for n in asts.walk(e) if n[0] not in asts.LEAVES]
    for op in set(ops):
        note(f"operator {op}")
    if len(ops) >= 2:
        note("+two operators or more")


# ------------------------------------------------------------------ chains


@st.composite
def chains(draw):
    n = draw(st.integers(2, 7))
    toks = []
    level = 0
    for i in range(n):
        while draw(st.integers(0, 5)) == 5:
            toks.append("-")
        while draw(st.integers(0, 4)) == 4 and level < 4:
            toks.append("(")
            level += 1
        toks.append(draw(st.sampled_from(["a", "b", "c", "2", "0.5", "3.0", "10"])))
        while level and draw(st.booleans()):
            toks.append(")")
            level -= 1
        toks.append(draw(st.sampled_from("+-*/")) if i < n - 1 else "")
    toks += [")"] * level
    return {
        "tokens": [t for t in toks if t],
        "in": draw(st.sampled_from(["plain", "shift", "shift", "index", "from", "to"])),
        "first": draw(st.sampled_from("+-")),
        "sp": draw(st.sampled_from([" ", "", "\t "])),
    }


VALUES = {"a": 1.7, "b": -2.3, "c": 0.41}


def run_chain(case, note):
    toks = list(case["tokens"])
    where = case["in"]
    if where != "plain" and where != "index":
        # a shift starts with a sign followed by an operand
        while toks and toks[0] == "-":
            toks = toks[1:]
        for a, b in zip(toks, toks[1:]):
            if a in "+-*/" and b == "-" and depth_at(toks, a, b) == 0:
                raise Discard()
    body = case["sp"].join(toks)
    try:
        python = " ".join(toks)
        if where in ("shift", "from", "to"):
            python = f"0 {case['first']} {python}"
        expected = eval(python, {}, dict(VALUES))
    except ZeroDivisionError:
        raise Discard()
    names = {"vars": ["x"], "params": ["a", "b", "c"]}
    signed = f"t{case['sp']}{case['first']}{case['sp']}{body}"
    if where == "plain":
        got = parse(body, names)
    elif where == "index":
        got = parse(f"x[{body}]", names)
        if got[0] != "eval" or got[1] != ["var", "x"]:
            raise Violation(f"x[{body}] parsed as {got}")
        got = got[2]
    elif where == "shift":
        got = parse(f"x[{signed}]", names)
        if got == ["var", "x"] and expected == 0:
            got = ["lit", 0]
        elif got[0] != "shift" or got[1] != ["var", "x"]:
            raise Violation(f"x[{signed}] parsed as {got}")
        else:
            got = got[2]
    else:
        text = f"sum(t .. {signed}, x)" if where == "to" else f"sum({signed} .. t+9, x)"
        got = parse(text, names)
        if got[0] != "tsum" or got[1] != ["var", "x"]:
            raise Violation(f"{text} parsed as {got}")
        got = got[3] if where == "to" else got[2]

    class E:
        T = S = 1

        def par(self, n, t, s):
            return VALUES[n]

    try:
        value = asts.value(got, E())
    except (KeyError, AttributeError):
        raise Violation(f"{body!r} in {where} parsed as {got}")
    if abs(value - expected) > 1e-9 * (1 + abs(value) + abs(expected)):
        raise Violation(f"{body!r} in {where}: value {value}, expected {expected}")
    note(f"+chain in {where}")


def depth_at(toks, a, b):
    """Depth of the first place where b follows a"""
    level = 0
    for u, v in zip(toks, toks[1:]):
        level += (u == "(") - (u == ")")
        if (u, v) == (a, b) and level == 0:
            return 0
    return 1


# ----------------------------------------------------------------- numbers

PLACES = [
    "{}", "-{}", "({})", "x * {}", "{} * x + 1", "x / {}", "1 - {}", "x <= {}", "{} >= x",
    "expec({} * x)", "sum({} * x)", "sum(t-1 .. t+1, {} * x)", "sum_connections(q.f) + {}",
    "x[{}]", "x[t+{}]", "x[t-{}]", "(x + {})[t-1]",
]


@st.composite
def numbers(draw):
    digits = st.text("0123456789", min_size=1, max_size=draw(st.sampled_from([1, 3, 9, 18])))
    text = draw(digits)
    if draw(st.booleans()):
        decimals = draw(digits)
        if draw(st.booleans()):
            decimals = "0" * draw(st.integers(1, 14)) + decimals
        text += "." + decimals
    return {"number": text, "place": draw(st.sampled_from(PLACES))}


def run_number(case, note):
    """Numbers are those that are written, to the last digit"""
    text = case["place"].format(case["number"])
    wanted = float(case["number"])
    got = parse(text, {"vars": ["x"], "params": []})
    found = sorted(abs(n[1]) for n in asts.walk(got) if n[0] == "lit")
    plain = parse(case["place"].format("7"), {"vars": ["x"], "params": []})
    expected = [abs(n[1]) for n in asts.walk(plain) if n[0] == "lit"]
    if expected.count(7) == 0:
        raise Violation(f"{case['place'].format('7')!r} parsed as {plain}")
    expected = sorted([x for x in expected if x != 7] + [wanted] * expected.count(7))
    if "[t" in case["place"] and wanted == 0 and "(x" not in case["place"]:
        note("no shift")
        return
    if found != expected:
        raise Violation(f"{text!r} has numbers {found}, expected {expected}")
    note("+number with decimals" if "." in case["number"] else "+integer")


TESTS = [
    Test("trees", trees, run, 3200, 80000),
    Test("small-trees", lambda: trees(depth=2), run, 1600, 40000),
    Test("chains", chains, run_chain, 2400, 60000),
    Test("numbers", numbers, run_number, 1600, 30000),
]
