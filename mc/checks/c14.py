"""C14: expressions: value, refusal of malformed text, resolution of signals in
expression tasks, against an independent evaluator."""

import itertools
import os
import re
import warnings

import h5py
import numpy as np

from mc.checks import tasklib

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all texts of up to 5 of 11 tokens; all expressions of 4 operands over 5 operators with every placement of one pair of parentheses and of signs; all nestings of 2 of 14 functions in 8 contexts on 5 arrays; all one-character deletions and insertions in 14 expressions; tasks with 27 expressions on 3 layouts of up to 9 signals with 4 ways of slicing and 8 combinations of copy and skip patterns (their full product for 3 expressions)",
    "thorough": "texts of up to 6 tokens, expressions of 4 operands with two pairs of parentheses and of 5 operands, two-character mutations",
}
ASSUMPTIONS = [
    "constants have single precision",
    "expression tasks do not use functions that reduce the signal or work along an axis",
    "a signed number with two or more successive signs may be refused",
]


def worker_init():
    tasklib.quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


# ---------------------------------------------------------------- oracle
class Bad(Exception):
    pass


FUNCS = {
    "sin": np.sin,
    "cos": np.cos,
    "tan": np.tan,
    "abs": np.abs,
    "trunc": np.trunc,
    "round": np.round,
    "sgn": lambda a: (a > 1e-12) * 1.0 - (a < -1e-12) * 1.0,
    "max": np.nanmax,
    "min": np.nanmin,
    "nanone": lambda a: np.where(np.isnan(a), 1.0, a),
    "nanzero": lambda a: np.where(np.isnan(a), 0.0, a),
    "mean": np.nanmean,
    "median": np.nanmedian,
    "ln": np.log,
}
REDUCE = {"max", "min", "mean", "median"}

LEX = re.compile(
    r"\s*(?:(?P<num>(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?)|(?P<var>var_[a-zA-Z]+)|(?P<id>[a-zA-Z][a-zA-Z0-9_$]*)|(?P<op>[-+*/^()]))"
)


def lex(text):
    pos = 0
    out = []
    text = text.rstrip()
    while pos < len(text):
        m = LEX.match(text, pos)
        if not m:
            raise Bad("lex")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    # names that run into numbers or other names: "2var_a", "2sin(1)" have two
    # operands next to each other, the parser refuses them
    return out


class Parser:
    """expression := term {+- term}; term := unary {*/ unary};
    unary := [+-] unary | power; power := atom [^ unary]"""

    def __init__(self, text):
        self.toks = lex(text)
        self.i = 0
        self.signs = 0
        self.maxsigns = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def parse(self):
        e = self.expr()
        if self.i != len(self.toks):
            raise Bad("rest")
        return e

    def expr(self):
        e = self.term()
        while self.peek() in (("op", "+"), ("op", "-")):
            e = (self.take()[1], e, self.term())
        return e

    def term(self):
        e = self.unary()
        while self.peek() in (("op", "*"), ("op", "/")):
            e = (self.take()[1], e, self.unary())
        return e

    def unary(self):
        if self.peek() in (("op", "+"), ("op", "-")):
            s = self.take()[1]
            self.signs += 1
            self.maxsigns = max(self.maxsigns, self.signs)
            e = self.unary()
            return ("neg", e) if s == "-" else e
        self.signs = 0
        return self.power()

    def power(self):
        e = self.atom()
        if self.peek() == ("op", "^"):
            self.take()
            return ("^", e, self.unary())
        return e

    def atom(self):
        kind, text = self.take()
        if kind == "num":
            return ("num", float(text))
        if kind == "var":
            return ("var", text[4:])
        if kind == "id":
            if text.lower() == "e":
                return ("num", np.e)
            if text.lower() == "pi":
                return ("num", np.pi)
            if text not in FUNCS:
                raise Bad("function")
            if self.take() != ("op", "("):
                raise Bad("call")
            e = self.expr()
            if self.take() != ("op", ")"):
                raise Bad("close")
            return ("fn", text, e)
        if (kind, text) == ("op", "("):
            e = self.expr()
            if self.take() != ("op", ")"):
                raise Bad("close")
            return e
        raise Bad("operand")


def value(e, variables):
    k = e[0]
    if k == "num":
        return np.float64(e[1])
    if k == "var":
        if e[1] not in variables:
            raise Bad("unknown variable")
        return np.asarray(variables[e[1]], dtype=np.float64)
    if k == "neg":
        return -value(e[1], variables)
    if k == "fn":
        return FUNCS[e[1]](value(e[2], variables))
    a, b = value(e[1], variables), value(e[2], variables)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return np.true_divide(a, b)
    return np.power(a, b)


def expected(text, variables):
    """(value, number of successive signs) or None when malformed"""
    try:
        p = Parser(text)
        return value(p.parse(), variables), p.maxsigns
    except Bad:
        return None


def close(a, b, tol=2e-5):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    big = (np.abs(b) > 3e38) | ~np.isfinite(b)
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= tol * (1 + np.abs(b))
        # overflow in single precision
        ok |= big & ((a == b) | np.isnan(b) & np.isnan(a) | (np.abs(b) > 3e38) & (np.sign(a) == np.sign(b)) & (np.abs(a) > 1e38))
    return bool(ok.all())


_parser = []


def parser():
    from spectrocrunch.process.nxexpression import MathParser

    if not _parser:
        _parser.append(MathParser())
    return _parser[0]


def skeleton(text):
    s = re.sub(r"var_[a-zA-Z]+", "v", text)
    s = re.sub(r"[0-9.]+(e[+-]?\d+)?", "1", s)
    s = re.sub(r"[a-z]{2,}", "f", s)
    return s


def compare(ctx, text, variables, what, tol=2e-5):
    ctx.tick()
    ctx.state((text, what))
    ctx.trans(1)
    ctx.trace(1)
    ctx.current = {"text": text, "variables": what}
    exp = expected(text, variables)
    before = {k: np.array(v, copy=True) for k, v in variables.items()}
    try:
        got = parser().eval(text, variables=variables)
    except Exception as e:
        got = e
    ctx.outcome("refused" if exp is None else "value")
    for k, v in before.items():
        if not np.array_equal(v, np.asarray(variables[k]), equal_nan=True):
            ctx.fail("variable-modified " + skeleton(text), {"kind": "text", "text": text, "variables": what}, "evaluating %r changes the variable %s: %r -> %r" % (text, k, v, variables[k]))
            variables[k] = v
    if exp is None:
        if not isinstance(got, Exception):
            ctx.fail("accepted " + skeleton(text), {"kind": "text", "text": text, "variables": what}, "malformed %r evaluates to %r" % (text, got))
        return
    if isinstance(got, Exception):
        if exp[1] < 2:
            ctx.fail("refused " + skeleton(text), {"kind": "text", "text": text, "variables": what}, "%r is refused: %s %s" % (text, type(got).__name__, got))
        return
    if not close(got, exp[0], tol):
        ctx.fail("value " + skeleton(text), {"kind": "text", "text": text, "variables": what}, "%r = %r instead of %r" % (text, got, exp[0]))


def variables_of(what):
    if what == "scalar":
        return {"a": np.float64(1.5), "b": np.float64(-0.75), "c": np.float64(3.0)}
    sets = {
        "arr": {"a": np.array([1.0, 2.0, 0.5]), "b": np.array([-1.0, 3.0, 2.5]), "c": np.array([2.0, 0.5, 4.0])},
        "nan": {"a": np.array([np.nan, 2.0, -0.5]), "b": np.array([-1.0, np.nan, 2.5]), "c": np.array([2.0, 0.5, np.nan])},
        "inf": {"a": np.array([np.inf, 0.0, -0.5, 1e-13]), "b": np.array([-1.0, -np.inf, 0.0, 2.0]), "c": np.array([2.0, 0.5, 0.0, 1.0])},
        "im": {"a": np.arange(6.0).reshape(2, 3) - 2.5, "b": np.ones((2, 3)) * 2, "c": np.arange(6.0).reshape(2, 3)[::-1] + 1},
        "f4": {"a": np.arange(6, dtype=np.float32).reshape(2, 3) - 2.5, "b": np.full((2, 3), 2, dtype=np.float32), "c": np.arange(6, dtype=np.float32).reshape(2, 3) + 1},
    }
    return sets[what]


# ---------------------------------------------------------------- token texts
TOKENS = ["2", "var_a", "var_b", "+", "-", "*", "/", "^", "(", ")", "abs("]


def run_tokens(shard, ctx):
    variables = variables_of("scalar")
    n, first = shard["n"], shard["first"]
    for rest in itertools.product(TOKENS, repeat=n - len(first)):
        toks = list(first) + list(rest)
        text = "".join(toks)
        compare(ctx, text, variables, "scalar")
        if n <= 4 and n > 1:
            compare(ctx, " ".join(toks), variables, "scalar")


# ---------------------------------------------------------------- structures
def paren_sets(n, pairs):
    """All ways to put up to `pairs` pairs of parentheses around operands i..j"""
    spans = [(i, j) for i in range(n) for j in range(i, n)]
    yield ()
    for p in range(1, pairs + 1):
        for c in itertools.combinations(spans, p):
            ok = True
            for (a, b), (x, y) in itertools.combinations(c, 2):
                if a < x <= b < y or x < a <= y < b:
                    ok = False
            if ok:
                yield c


def write(operands, ops, parens, signs):
    """signs: before each operand, outside of the parentheses opening there"""
    out = []
    for i, o in enumerate(operands):
        if i:
            out.append(ops[i - 1])
        opening = sum(1 for a, b in parens if a == i)
        if signs[i] == "-out":
            out.append("-")
        out.append("(" * opening)
        if signs[i] == "-in":
            out.append("-")
        out.append(o)
        out.append(")" * sum(1 for a, b in parens if b == i))
    return "".join(out)


OPERANDS = ["var_a", "2", "var_b", "3", "var_c"]


def run_struct(shard, ctx):
    n, pairs = shard["n"], shard["pairs"]
    variables = variables_of("arr")
    ops0 = shard["ops"]
    for rest in itertools.product("+-*/^", repeat=n - 1 - len(ops0)):
        ops = list(ops0) + list(rest)
        for parens in paren_sets(n, pairs):
            for signs in itertools.product(["", "-out"], repeat=n):
                if sum(1 for s in signs if s) > shard["signs"]:
                    continue
                compare(ctx, write(OPERANDS[:n], ops, parens, signs), variables, "arr", tol=1e-3)
            starts = {a for a, b in parens}
            for i in starts:
                signs = ["-in" if j == i else "" for j in range(n)]
                compare(ctx, write(OPERANDS[:n], ops, parens, signs), variables, "arr", tol=1e-3)


# ---------------------------------------------------------------- functions
CONTEXTS = ["%s", "-%s", "%s^2", "-%s^2", "2^%s", "1-%s*2", "(%s)/var_b", "%s+%s"]


def run_functions(shard, ctx):
    f = shard["f"]
    for what in ("scalar", "arr", "nan", "inf", "im", "f4"):
        variables = variables_of(what)
        inner = ["var_a", "-var_a", "(var_a)", "var_a*var_c", "var_a^2", "2"] + ["%s(var_a)" % g for g in FUNCS] + ["-%s(-var_c)" % g for g in FUNCS]
        for x in inner:
            for c in CONTEXTS:
                call = "%s(%s)" % (f, x)
                text = c.replace("%s", call)
                # sign functions near jumps: single precision constants do not matter here
                compare(ctx, text, variables, what, tol=1e-3)
        for g in FUNCS:
            compare(ctx, "%s( %s ( var_a + 1 ) )" % (f, g), variables, what, tol=1e-3)


# ---------------------------------------------------------------- constants, malformed texts
NUMBERS = ["0", "1", "10", "1.", "1.5", ".5", "0.25", "1e2", "1E2", "1e+2", "1e-2", "1.5e1", ".5e-1", "007", "123456", "pi", "PI", "Pi", "e", "E", "1e10"]


def run_numbers(shard, ctx):
    variables = variables_of("scalar")
    for x, y in itertools.product(NUMBERS, repeat=2):
        for op in "+-*/":
            compare(ctx, x + op + y, variables, "scalar", tol=1e-5)
            compare(ctx, "%s %s %s" % (x, op, y), variables, "scalar", tol=1e-5)
    for x in NUMBERS:
        for c in CONTEXTS:
            if "^%s" in c and float({"pi": 3, "e": 3}.get(x.lower(), x if x.lower() not in ("pi", "e") else 0)) > 100:
                continue
            compare(ctx, c.replace("%s", x), variables, "scalar", tol=1e-5)


BASES = [
    "var_a",
    "2",
    "1.5e-2",
    "var_a+var_b",
    "2*var_a",
    "-var_a^2",
    "(var_a)",
    "sin(var_a)",
    "var_a*nanone(var_b/(var_c*2))",
    "-ln(2*var_c/(var_c+3))",
    "pi*e",
    "2^-3",
    "abs(-var_a) - 1",
    "max(var_a)/mean(var_b)",
]
CHARS = "1.e+-*/^()x_$ ,[]{}%!=<>;:'\"\\#&|~?@"


def mutations(text):
    for i in range(len(text)):
        yield text[:i] + text[i + 1 :]
    for i in range(len(text) + 1):
        for c in CHARS:
            yield text[:i] + c + text[i:]
    for i in range(len(text)):
        for c in CHARS:
            yield text[:i] + c + text[i + 1 :]


def undecided(text):
    # a name torn apart by a space
    return "var_ " in text or re.search(r"var_\s", text) is not None


def run_mutations(shard, ctx):
    base = shard["base"]
    variables = variables_of("scalar")
    seen = set()
    for t in mutations(base):
        if t in seen or undecided(t):
            continue
        seen.add(t)
        compare(ctx, t, variables, "scalar", tol=1e-4)
        if ctx.thorough and len(base) < 10:
            for t2 in mutations(t):
                if t2 not in seen and not undecided(t2) and len(re.findall(r"\d", t2)) < 5:
                    seen.add(t2)
                    compare(ctx, t2, variables, "scalar", tol=1e-4)


# ---------------------------------------------------------------- tasks
LAYOUTS = {
    "plain": (("detector00", ("A", "B")), ("counters", ("C", "I0"))),
    "two": (("detector00", ("A", "AA", "icr")), ("detector01", ("A", "AA", "icr")), ("counters", ("Fe-K", "var_b"))),
    "many": (("counters", ("A", "B", "C", "D", "E", "F", "pi", "e", "sin")),),
}
EXPRESSIONS = {
    "plain": [
        "{}",
        "2*{}",
        "-{}",
        "{}-{}",
        "{}-nanzero({})",
        "nanone({})*{}",
        "3",
        "{C}",
        "{}+",
        "{}/{C}",
        "{C}-{}",
        "{C}^2/{I0}-{}",
        "-ln(2*{}/({C}+{I0}))",
        "{}*1e3/{I0}",
        "{A}*{}",
        "{missing}*{}",
        "{} {C}",
        "{C}*0+{}",
        "{}+nanzero({C})-nanzero({C})",
    ],
    "two": [
        "{}/{icr}",
        "{}-{A}+{AA}",
        "{}*nanone({icr}/({Fe-K}*{AA}))",
        "{}-{Fe-K}*{var_b}",
        "({}-{A})*({AA}-{icr})",
    ],
    "many": [
        "{}+2*{A}+3*{B}+5*{C}+7*{D}+11*{E}+13*{F}",
        "{}+2*{pi}+3*{e}-5*{sin}",
        "{}*{A}-{B}*{C}-{D}/{E}",
    ],
}
FILTERS = [
    ([], []),
    ([{"method": "regex", "pattern": "C"}], []),
    ([], [{"method": "regex", "pattern": "A"}]),
    ([{"method": "regex", "pattern": "A$"}], [{"method": "regex", "pattern": "B"}]),
    ([{"method": "regexparent", "pattern": "counters"}], []),
    ([{"method": "regexparent", "pattern": "detector"}], [{"method": "regexparent", "pattern": "counters"}]),
    ([{"method": "regex", "pattern": "."}], [{"method": "regex", "pattern": "C|Fe"}]),
    ([{"pattern": ".*[AB]"}, {"method": "regex", "pattern": "Fe-K"}], [{"pattern": "e"}]),
]


def fill(g, s, shape):
    n = int(np.prod(shape))
    h = sum(ord(c) for c in g + s)
    data = ((np.arange(n) * 7 + h * 5) % 13 + 1.0).reshape(shape)
    if s in ("A", "icr"):
        data[0, ..., 1] = np.nan
    return data


def matches(rules, group, name):
    for r in rules:
        text = group if r.get("method", "regex") == "regexparent" else name
        if re.match(r["pattern"], text):
            return True
    return False


def prediction(layout, expression, copy, skip, sliced, stackdim, shape):
    """group/name -> values, or None when the task must fail"""
    data = {(g, s): fill(g, s, shape).astype(np.float32).astype(np.float64) for g, names in layout for s in names}
    refs = re.findall(r"\{(.*?)\}", expression)
    if "" not in refs:
        return None
    byname = {}
    for (g, s) in data:
        byname.setdefault(s, []).append(g)
    out = {}
    for (g, s), v in data.items():
        if matches(skip, g, s):
            continue
        if matches(copy, g, s):
            out[(g, s)] = v
            continue
        variables = {"a": v}
        text = expression.replace("{}", " var_a ")
        for i, name in enumerate(sorted(set(refs) - {""})):
            groups = byname.get(name, [])
            if len(groups) == 1:
                src = (groups[0], name)
            elif g in groups:
                src = (g, name)
            else:
                return None
            new = "q" * (i + 1)
            variables[new] = data[src]
            text = text.replace("{%s}" % name, " var_%s " % new)
        r = expected(text, variables)
        if r is None:
            return None
        r = np.asarray(r[0])
        out[(g, s)] = r
    return out


def run_tasks(shard, ctx):
    layout = LAYOUTS[shard["layout"]]
    expression = shard["expression"]
    shape = (2, 3, 4)
    d = ctx.scratch
    fn = os.path.join(d, "in.h5")
    if os.path.exists(fn):
        os.remove(fn)
    proc = tasklib.small_input(fn, entry="entry", groups=layout, shape=shape, fill=fill)
    before = tasklib.under(tasklib.dumpfile(fn), "entry/fromraw.1")
    modes = [(False, 0), (True, 0), (True, 1), (True, 2)]
    if shard.get("full") or ctx.thorough:
        plan = list(itertools.product(FILTERS, modes))
    else:
        plan = [(FILTERS[0], m) for m in modes] + [(f, modes[i % 4]) for i, f in enumerate(FILTERS[1:])]
    if "copy" in shard:
        plan = [((shard["copy"], shard["skip"]), (shard["sliced"], shard["stackdim"]))]
    for (copy, skip), (sliced, stackdim) in plan:
        case = {"kind": "task", "layout": shard["layout"], "expression": expression, "copy": copy, "skip": skip, "sliced": sliced, "stackdim": stackdim}
        ctx.tick()
        ctx.state(("task", repr(sorted(case.items(), key=str))))
        ctx.trans(1)
        ctx.trace(1)
        ctx.current = case
        exp = prediction(layout, expression, copy, skip, sliced, stackdim, shape)
        what = "expression %r copy=%s skip=%s sliced=%s stackdim=%d" % (expression, copy, skip, sliced, stackdim)
        outfn = os.path.join(d, "out.h5")
        if os.path.exists(outfn):
            os.remove(outfn)
        got = run_one(proc, outfn, expression, copy, skip, sliced, stackdim)
        after = tasklib.under(tasklib.dumpfile(fn), "entry/fromraw.1")
        if after != before:
            ctx.fail("input-modified", case, "%s: input changed: %s" % (what, tasklib.diff(before, after)))
            return
        ctx.outcome("task refused" if exp is None else "task")
        if exp is None:
            if not isinstance(got, Exception):
                ctx.fail("task-accepted " + expression, case, "%s: not refused, result %s" % (what, {k: v.tolist() for k, v in got.items()}))
            continue
        if isinstance(got, Exception):
            ctx.fail("task-refused " + expression, case, "%s: %s %s" % (what, type(got).__name__, got))
            continue
        if set(got) != set(exp):
            ctx.fail("task-signals " + expression, case, "%s: signals %s instead of %s" % (what, sorted(got), sorted(exp)))
            continue
        for s in exp:
            e = exp[s]
            copied = matches(copy, *s)
            ok = np.array_equal(got[s], e, equal_nan=True) if copied else got[s].shape == np.shape(e) and close(got[s], e)
            if not ok:
                ctx.fail("task-value %s copied=%s sliced=%s" % (expression, copied, sliced), case, "%s: signal %s is %s instead of %s" % (what, s, np.asarray(got[s]).tolist(), np.asarray(e).tolist()))
                break


def run_one(proc, outfn, expression, copy, skip, sliced, stackdim):
    """Run the task and return the values of the signals (or the exception)"""
    from spectrocrunch.process.utils import create_task
    from spectrocrunch.io import nxfs

    root = nxfs.Path("/", h5file=outfn).nxroot()
    entry = root.nxentry(name="entry")
    try:
        task = create_task(
            dependencies=proc,
            method="expression",
            outputparent=entry,
            expression=expression,
            copy=copy,
            skip=skip,
            sliced=sliced,
            stackdim=stackdim,
        )
        task.run()
        out = task.output
        if not task.done:
            return RuntimeError("not done")
        path = out.path
    except Exception as e:
        return e
    res = {}
    with h5py.File(outfn, "r") as f:
        results = f[path]["results"]
        for g in results:
            node = results[g]
            if not isinstance(node, h5py.Group) or node.attrs.get("NX_class") != "NXdata":
                continue
            names = []
            if "signal" in node.attrs:
                names.append(node.attrs["signal"])
            names += list(np.atleast_1d(node.attrs.get("auxiliary_signals", [])))
            for s in names:
                s = s.decode() if isinstance(s, bytes) else str(s)
                res[(g, s)] = np.asarray(node[s][()])
    return res


# ---------------------------------------------------------------- shards
def shards(tier):
    out = []
    for n in range(1, 5):
        out.append({"kind": "tokens", "n": n, "first": []} if n < 4 else None)
    out = [s for s in out if s]
    for t in TOKENS:
        out.append({"kind": "tokens", "n": 4, "first": [t]})
    top = 5 if tier == "quick" else 6
    for n in range(5, top + 1):
        for t in itertools.product(TOKENS, repeat=n - 4 if n > 5 else 1):
            out.append({"kind": "tokens", "n": n, "first": list(t)})
    pairs = 1 if tier == "quick" else 2
    for ops in itertools.product("+-*/^", repeat=2):
        out.append({"kind": "struct", "n": 3, "pairs": 2, "ops": list(ops), "signs": 3})
        out.append({"kind": "struct", "n": 4, "pairs": pairs, "ops": list(ops), "signs": 1 if tier == "quick" else 4})
        if tier != "quick":
            for o3 in "+-*/^":
                out.append({"kind": "struct", "n": 5, "pairs": 1, "ops": list(ops) + [o3], "signs": 2})
    for f in FUNCS:
        out.append({"kind": "functions", "f": f})
    out.append({"kind": "numbers"})
    for b in BASES:
        out.append({"kind": "mutations", "base": b})
    for name, exprs in EXPRESSIONS.items():
        for i, e in enumerate(exprs):
            out.append({"kind": "tasks", "layout": name, "expression": e, "full": e in ("2*{}", "{}/{icr}", "{}*{A}-{B}*{C}-{D}/{E}")})
    return out


RUN = {
    "tokens": run_tokens,
    "struct": run_struct,
    "functions": run_functions,
    "numbers": run_numbers,
    "mutations": run_mutations,
    "tasks": run_tasks,
}


def run_shard(shard, ctx):
    RUN[shard["kind"]](shard, ctx)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if case["kind"] == "text":
        return compare(ctx, case["text"], variables_of(case["variables"]), case["variables"], tol=1e-3)
    run_tasks(case, ctx)
