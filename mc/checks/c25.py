"""C25: all small lazily composed functions, against direct evaluation and against their text."""

import itertools
import math
import operator

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all expressions of up to 2 operators (17 binary ones in both operand orders, divmod, 4 unary ones) over 2 functions and 5 constants, and all of 3 operators over 2 functions and one constant with 8 operators; 5 argument values, positional and by keyword",
    "thorough": "all of 3 operators with all operators, 4 operators with 5 operators",
}
ASSUMPTIONS = ["in the text of a function ^ is a power, 'and' and 'or' are the operators & and |", "constants which are arrays do not occur", "at most 2 powers per expression (the numbers get too large)"]
TECHNIQUE = "bounded-exhaustive enumeration of expressions; each composed with the real class, evaluated and compared with eager evaluation of the same operators"

BINARY = [
    operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, operator.pow,
    operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne, operator.and_, operator.or_, divmod,
]
UNARY = [operator.neg, operator.pos, abs, "not"]
FEW = [operator.sub, operator.truediv, operator.pow, operator.lt, operator.and_, operator.neg, abs, operator.mod]
CONSTS = [2, -1.5, True, 0, -3]
ARGS = [(0, 1), (3, 2), (-2, 0.5), (True, False), (1.5, -1)]


def f(x, y):
    return x


def g(x, y):
    return y - x


def leaves(n):
    return [("leaf", "f"), ("leaf", "g")] + [("const", c) for c in CONSTS[:n]]


def is_lazy(e):
    return e[0] == "leaf" or (e[0] == "op" and any(is_lazy(a) for a in e[2:]))


def expressions(n, ops, base):
    """All expressions with n operators that contain a function"""
    if n == 0:
        yield from base
        return
    un = [o for o in ops if o in UNARY]
    bi = [o for o in ops if o not in UNARY]
    for e in expressions(n - 1, ops, base):
        if is_lazy(e):
            for o in un:
                yield ("op", o, e)
    for k in range(n):
        for a in expressions(k, ops, base):
            for b in expressions(n - 1 - k, ops, base):
                if is_lazy(a) or is_lazy(b):
                    for o in bi:
                        yield ("op", o, a, b)


def compose(e, F, made):
    if e[0] == "leaf":
        return F[e[1]]
    if e[0] == "const":
        return e[1]
    args = [compose(a, F, made) for a in e[2:]]
    if e[1] == "not":
        r = args[0].__not__()
    else:
        r = e[1](*args)
    made.append(r)
    return r


def value(e, args):
    if e[0] == "leaf":
        return {"f": f, "g": g}[e[1]](*args)
    if e[0] == "const":
        return e[1]
    vals = [value(a, args) for a in e[2:]]
    if e[1] == "not":
        return not vals[0]
    return e[1](*vals)


def result(func):
    try:
        return "value", func()
    except Exception as err:  # noqa
        return "raises", type(err)


def equal(a, b):
    if a[0] != b[0]:
        return False
    return eq(a[1], b[1]) if a[0] == "value" else a[1] is b[1]


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


def name(e):
    if e[0] != "op":
        return str(e[1])
    return "%s(%s)" % (getattr(e[1], "__name__", e[1]), ", ".join(map(name, e[2:])))


def check(e, ctx):
    from spectrocrunch.math.lazy import Function

    F = {"f": Function(f), "g": Function(g, name="g")}
    case = {"expression": name(e)}
    ctx.current = case
    made = []
    try:
        r = compose(e, F, made)
    except Exception as err:  # noqa
        ctx.fail("compose:%s" % op_name(e), case, "%s can not be composed: %r" % (name(e), err))
        return
    if not isinstance(r, Function):
        ctx.fail("compose:%s" % op_name(e), case, "%s is not lazy but %r" % (name(e), r))
        return
    text = str(r)
    expr = text.replace("^", "**").replace(" and ", "&").replace(" or ", "|")
    try:
        code = compile(expr, "text", "eval")
    except SyntaxError:
        ctx.fail("text:%s" % op_name(e), case, "%s has the text %s" % (name(e), text))
        return
    for args in ARGS:
        ctx.tick(1, "evaluations")
        want = result(lambda: value(e, args))
        got = result(lambda: r(*args))
        if not equal(got, want):
            ctx.fail("value:%s" % op_name(e), case, "%s at %s %s %r instead of %s %r" % (name(e), args, got[0], got[1], want[0], want[1]))
            return
        kw = result(lambda: r(args[0], y=args[1]))
        if not equal(kw, want):
            ctx.fail("keyword:%s" % op_name(e), case, "%s at %s by keyword gives %r instead of %r" % (name(e), args, kw, want))
            return
        t = result(lambda: eval(code, {"f": f(*args), "g": g(*args)}))
        if not equal(t, want) and not (want[0] == t[0] == "raises"):
            ctx.fail("text:%s" % op_name(e), case, "%s has the text %s, which at %s gives %r instead of %r" % (name(e), text, args, t[1], want[1]))
            return
        ctx.outcome(want[0] if want[0] == "value" else want[1].__name__)
    # the operands are what they were
    if str(F["f"]) != "f" or str(F["g"]) != "g" or F["f"](5, 7) != 5 or F["g"](5, 7) != 2 or str(r) != text:
        ctx.fail("operands:%s" % op_name(e), case, "%s changes its operands" % name(e))
    ctx.state(text)
    ctx.trans(1)
    ctx.trace(1)


def op_name(e):
    return getattr(e[1], "__name__", str(e[1])) if e[0] == "op" else "leaf"


def plan(tier):
    full = BINARY + UNARY
    out = [(1, full, 5), (2, full, 5), (3, FEW, 1)]
    if tier == "thorough":
        out += [(3, full, 1), (4, FEW[:5], 1)]
    return out


NP = 16


def worker_init():
    import warnings

    warnings.simplefilter("ignore")


def shards(tier):
    out = []
    for i, (n, ops, c) in enumerate(plan(tier)):
        for p in range(NP if n > 1 else 1):
            out.append({"plan": i, "tier": tier, "part": p, "parts": NP if n > 1 else 1})
    return out


def run_shard(shard, ctx):
    n, ops, c = plan(shard["tier"])[shard["plan"]]
    k = -1
    for e in expressions(n, ops, leaves(c)):
        if not is_lazy(e) or name(e).count("pow(") > 2:  # numbers get too large
            continue
        k += 1
        if k % shard["parts"] == shard["part"]:
            check(e, ctx)
    ctx.sample({"operators": n, "expressions": k + 1})


def parse(text):
    """Expression from its name"""
    names = {o.__name__: o for o in BINARY + UNARY[:3]}
    import ast

    def walk(node):
        if isinstance(node, ast.Call):
            fn = node.func.id
            return ("op", "not" if fn == "not_" else names[fn]) + tuple(walk(a) for a in node.args)
        if isinstance(node, ast.Name):
            return ("leaf", node.id)
        return ("const", ast.literal_eval(node))

    return walk(ast.parse(text.replace("not(", "not_(").replace("and_", "and_").strip(), mode="eval").body)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    check(parse(case["expression"]), ctx)
