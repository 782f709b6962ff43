"""C07: a signal before every statement of the termination handling, of the
setup, the body and the teardown, in every scenario; and every pair of signals."""

import ast
import itertools
import logging
import signal
import threading
import types

LEVEL = "model_checking"
BOUNDS = {
    "quick": "1152 scenarios (setup absent/ok/raises x body returns/raises/exits x teardown absent/falsy/truthy/raises x previous handlers default/returning/raising/mixed x resend x 1-2 nested contexts x re-used context); no signal, one signal at every statement (3 signals); every ordered pair of signals at every pair of statements for 24 scenarios",
    "thorough": "every ordered pair of signals at every pair of statements for all scenarios of one context and for 216 nested ones; triples of signals for 4 scenarios",
}
ASSUMPTIONS = [
    "a signal is delivered at statement boundaries (CPython delivers between bytecodes); delivery is raise_signal() in the main thread",
]
TECHNIQUE = "explicit-state model checking: stateless exploration of the real code with exhaustive fault (signal) injection at every statement"

SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP]


class _Probe(ast.NodeTransformer):
    """Insert a call before every statement of every function"""

    def _call(self):
        return ast.Expr(
            ast.Call(func=ast.Name("__probe__", ast.Load()), args=[], keywords=[])
        )

    def _body(self, stmts):
        out = []
        for s in stmts:
            out.append(self._call())
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                if isinstance(node, (ast.Module, ast.ClassDef)):
                    setattr(node, f, [self.visit(s) for s in v])
                else:
                    setattr(node, f, self._body(v))
        for h in getattr(node, "handlers", []):
            self.visit(h)
        return node


HUB = {"probe": lambda: None}


def load():
    import spectrocrunch.utils.signalhandling as orig

    with open(orig.__file__) as f:
        tree = ast.parse(f.read())
    tree = ast.fix_missing_locations(_Probe().visit(tree))
    mod = types.ModuleType(orig.__name__)
    mod.__file__ = orig.__file__
    mod.__package__ = orig.__package__
    mod.__probe__ = lambda: HUB["probe"]()
    exec(compile(tree, orig.__file__, "exec"), mod.__dict__)
    return mod


class BodyError(Exception):
    pass


class SetupError(Exception):
    pass


class TeardownError(Exception):
    pass


class OldHandler(Exception):
    pass


SETUPS = ["none", "ok", "raise"]
BODIES = ["return", "raise", "exit"]
TEARDOWNS = ["none", "falsy", "truthy", "raise"]
OLDS = ["default", "returning", "raising", "mixed"]


def scenarios():
    for n in (1, 2):
        for reuse in (False, True):
            for s, b, t, o, r in itertools.product(
                SETUPS, BODIES, TEARDOWNS, OLDS, (True, False)
            ):
                yield {
                    "nested": n, "reuse": reuse, "setup": s, "body": b,
                    "teardown": t, "old": o, "resend": r,
                }  # fmt: skip


def deep(sc, thorough):
    if thorough:
        if sc["reuse"]:
            return False
        return sc["nested"] == 1 or (sc["resend"] and sc["body"] != "exit" and sc["setup"] != "none")
    return (
        not sc["reuse"]
        and sc["nested"] == 1
        and sc["setup"] == "ok"
        and sc["body"] != "exit"
        and sc["teardown"] != "none"
        and sc["old"] in ("returning", "raising")
        and sc["resend"]
    )


class Run:
    def __init__(self, mod, sc, inject):
        self.mod, self.sc, self.inject = mod, sc, inject
        self.n = 0
        self.log = []
        self.delivered = []
        self.injected = []
        self.exc = None
        self.phase = "out"
        self.inphase = []

    # ---- the environment
    def old(self, kind, signum):
        if kind == "default":
            return signal.default_int_handler if signum == signal.SIGINT else signal.SIG_DFL
        if kind == "returning":
            def h(s, f):
                self.delivered.append(s)
        else:
            def h(s, f):
                self.delivered.append(s)
                raise OldHandler(s)
        return h

    def probe(self):
        i = self.n
        self.n += 1
        for pos, sig in self.inject:
            if pos == i:
                h = signal.getsignal(sig)
                if h == signal.SIG_DFL or (
                    self.before[sig] == signal.SIG_DFL
                    and sig in signal.pthread_sigmask(signal.SIG_BLOCK, [])
                ):
                    continue  # would end this process, rightly
                self.injected.append(sig)
                self.inphase.append(self.phase)
                self.log.append(("signal", int(sig)))
                signal.raise_signal(sig)

    # ---- the user's code
    def context(self, level):
        sc = self.sc

        def setup():
            self.log.append(("setup", level))
            self.probe()
            if sc["setup"] == "raise":
                raise SetupError
            self.probe()
            self.log.append(("setup done", level))

        def teardown(et, ev, tb):
            self.log.append(("teardown", level, et is not None))
            phase, self.phase = self.phase, "teardown"
            self.probe()
            if sc["teardown"] == "raise":
                self.phase = phase
                raise TeardownError
            self.probe()
            self.log.append(("teardown done", level))
            self.phase = phase
            return 1 if sc["teardown"] == "truthy" else None

        return self.mod.HandleTermination(
            setup=None if sc["setup"] == "none" else setup,
            teardown=None if sc["teardown"] == "none" else teardown,
            resend=sc["resend"],
        )

    def body(self, level):
        for k in range(3):
            self.log.append(("body", level))
            self.probe()
        if level == self.sc["nested"]:
            self.log.append(("body end", level))
        if level < self.sc["nested"]:
            with self.context(level + 1):
                self.body(level + 1)
            self.log.append(("body", level))
            self.probe()
            self.log.append(("body end", level))
        elif self.sc["body"] == "raise":
            raise BodyError
        elif self.sc["body"] == "exit":
            raise SystemExit(3)

    def go(self):
        kinds = {
            s: (["default", "returning", "raising"][i] if self.sc["old"] == "mixed" else self.sc["old"])
            for i, s in enumerate(SIGNALS)
        }
        self.kinds = kinds
        before = {s: self.old(k, s) for s, k in kinds.items()}
        self.before = before
        for s, h in before.items():
            signal.signal(s, h)
        mask = signal.pthread_sigmask(signal.SIG_BLOCK, [])
        HUB["probe"] = self.probe
        try:
            c = self.context(1)
            self.phase = "in"
            try:
                if self.sc["reuse"]:
                    with c:
                        pass
                    self.log = []
                    self.injected, self.delivered, self.inphase = [], [], []
                with c:
                    self.body(1)
            finally:
                self.phase = "out"
        except BaseException as e:  # noqa
            self.exc = e
        finally:
            HUB["probe"] = lambda: None
            self.after = {s: signal.getsignal(s) for s in SIGNALS}
            for _ in range(4):  # signals not handled yet
                try:
                    for s in SIGNALS:
                        signal.signal(s, signal.SIG_IGN)
                    break
                except OldHandler:
                    pass
            self.maskafter = signal.pthread_sigmask(signal.SIG_SETMASK, mask)
            for s in SIGNALS:
                signal.signal(s, signal.SIG_DFL)
        self.mask = mask
        return self


def check(r):
    """Problems of one finished run"""
    sc, log = r.sc, r.log
    bad = []
    for s in SIGNALS:
        if r.after[s] != r.before[s]:
            bad.append("handler of %s not restored: %r" % (s.name, r.after[s]))
    if r.maskafter != r.mask:
        bad.append("signal mask changed to %r" % (r.maskafter,))
    for level in range(1, sc["nested"] + 1):
        ev = [e for e in log if e[0] == "signal" or e[1] == level]
        names = [e[0] for e in ev]
        nset, ntear = names.count("setup"), names.count("teardown")
        nbody = names.count("body")
        if nset > 1:
            bad.append("setup of context %d ran %d times" % (level, nset))
        if ntear > 1:
            bad.append("teardown of context %d ran %d times" % (level, ntear))
        if sc["teardown"] != "none" and (nset or nbody) and ntear == 0:
            bad.append("teardown of context %d did not run" % level)
        if nbody and sc["setup"] != "none":
            if "setup done" not in names or names.index("setup done") > names.index("body"):
                bad.append("body of context %d without setup" % level)
        if ntear and "body" in names[names.index("teardown"):]:
            bad.append("body of context %d runs after its teardown" % level)
        if ntear and "setup" in names[names.index("teardown"):]:
            bad.append("setup of context %d runs after its teardown" % level)
        if nset and nset == names.count("setup done") and ntear and not r.injected:
            failed = sc["body"] != "return"
            if sc["nested"] == 2 and level == 1:
                failed = r.exc is not None or (failed and sc["teardown"] not in ("truthy",))
            if sc["setup"] != "raise" and sc["teardown"] != "raise":
                seen = [e[2] for e in ev if e[0] == "teardown"][0]
                if seen != failed:
                    bad.append("teardown of context %d is told %r" % (level, seen))
    # what the body did is reported, or handled by the teardown
    if not r.injected:
        if sc["setup"] == "raise":
            exp = TeardownError if sc["teardown"] == "raise" else SetupError
            if sc["nested"] == 2 or True:
                if not isinstance(r.exc, (exp, SetupError)):
                    bad.append("setup error gives %r" % (r.exc,))
        elif sc["teardown"] == "raise":
            if not isinstance(r.exc, TeardownError):
                bad.append("teardown error gives %r" % (r.exc,))
        else:
            exp = {"return": None, "raise": BodyError, "exit": SystemExit}[sc["body"]]
            if sc["teardown"] == "truthy":
                exp = None
            if type(r.exc) is not (type(None) if exp is None else exp):
                bad.append("body %s gives %r" % (sc["body"], r.exc))
    # delivery to the previous handlers
    for s in SIGNALS:
        n, d = r.injected.count(s), r.delivered.count(s)
        if r.kinds[s] == "default":
            if s == signal.SIGINT and n and len(r.injected) == 1 and sc["resend"]:
                if sc["teardown"] != "raise" and not isinstance(r.exc, KeyboardInterrupt):
                    # a context around it may have handled it
                    if not (sc["teardown"] == "truthy"):
                        bad.append("interrupt is lost: %r" % (r.exc,))
            continue
        if d > n:
            bad.append("%s delivered %d times for %d" % (s.name, d, n))
        if sc["resend"] and sc["teardown"] != "raise":
            if len(r.injected) == 1 and n and d != 1:
                bad.append("%s is not delivered to the previous handler" % s.name)
            elif n and not d and r.inphase[-1] == "teardown" and all(k == "returning" for k in r.kinds.values()):
                bad.append("%s is not delivered to the previous handler" % s.name)
    if sc["resend"] and r.injected and sc["old"] in ("returning", "raising") and not r.delivered:
        # (a signal before the first statement of the handler of another one
        # may be handled alone)
        if sc["teardown"] != "raise":
            bad.append("no signal is delivered to the previous handlers")
    if len(r.injected) == 1 and r.inphase == ["in"] and sc["teardown"] != "none":
        # a signal in the body interrupts it
        i = next(k for k, e in enumerate(log) if e[0] == "signal")
        open_ = [e for e in log[:i] if e[0] == "body"]
        level = open_[-1][1] if open_ else None
        if level and not any(e[0] == "teardown" and e[1] == level for e in log[:i]):
            later = log[i + 1 :]
            if any(e[0] == "body" and e[1] == level for e in later):
                bad.append("the body of context %d goes on after the signal" % level)
            t = [e for e in later if e[0] == "teardown" and e[1] == level]
            if t and not t[0][2] and not r_exit(log, i):
                bad.append("the teardown of context %d is not told of the signal" % level)
    return bad


def r_exit(log, i):
    """the signal came after the last statement of the body"""
    return not (log[i - 1][0] == "body")


MOD = None


def worker_init():
    global MOD
    logging.disable(logging.CRITICAL)
    MOD = load()


def shards(tier):
    allsc = list(scenarios())
    n = 96
    return [{"i": i, "n": n, "kind": "main"} for i in range(n)] + [{"kind": "thread"}]


def one(ctx, sc, inject):
    ctx.current = (sc, inject)
    r = Run(MOD, sc, inject).go()
    ctx.tick(1, "schedules")
    ctx.trans(len(r.log))
    ctx.state((sorted(sc.items()), tuple(map(str, r.log)), type(r.exc).__name__))
    ctx.outcome(type(r.exc).__name__)
    for msg in check(r):
        where = r.inphase[0] if r.inphase else "none"
        key = "%s:%s:%s:%s" % (msg.split(":")[0], sc["setup"], sc["teardown"], where)
        ctx.fail(
            key,
            {"scenario": sc, "inject": [(p, int(s)) for p, s in inject]},
            "%s\nscenario %r, signals %r (before probe, signal)\nlog %r\nexception %r"
            % (msg, sc, inject, r.log, r.exc),
        )
    return r


def run_shard(shard, ctx):
    if shard["kind"] == "thread":
        return thread(ctx)
    allsc = list(scenarios())
    for sc in allsc[shard["i"] :: shard["n"]]:
        base = one(ctx, sc, [])
        ctx.trace(1)
        N = base.n + 14  # the handling of a signal adds statements
        for i in range(base.n):
            for s in SIGNALS:
                r = one(ctx, sc, [(i, s)])
        if deep(sc, ctx.thorough):
            for i in range(base.n):
                for s in SIGNALS:
                    r1 = one(ctx, sc, [(i, s)])
                    for j in range(i, r1.n):
                        for s2 in SIGNALS:
                            if j == i and s2 == s:
                                continue
                            one(ctx, sc, [(i, s), (j, s2)])
                            if ctx.thorough and triple(sc) and s == SIGNALS[0]:
                                for k in range(j + 1, r1.n):
                                    one(ctx, sc, [(i, s), (j, s2), (k, SIGNALS[2])])
        if ctx.nfails > 5000:
            break
    ctx.sample({"scenario": sc, "statements": base.n})


def triple(sc):
    return (
        sc["nested"] == 1 and sc["setup"] == "ok" and sc["body"] == "return"
        and sc["teardown"] in ("falsy", "truthy") and sc["old"] in ("returning", "raising") and sc["resend"]
    )  # fmt: skip


def thread(ctx):
    """In a thread no handlers can be installed: setup and teardown still run"""
    for body in BODIES[:2]:
        for ret in (None, 1):
            log = []
            exc = []

            def go():
                try:
                    with MOD.HandleTermination(
                        setup=lambda: log.append("setup"),
                        teardown=lambda *a: log.append("teardown") or ret,
                    ):
                        log.append("body")
                        if body == "raise":
                            raise BodyError
                except BaseException as e:  # noqa
                    exc.append(type(e).__name__)

            before = [signal.getsignal(s) for s in SIGNALS]
            t = threading.Thread(target=go)
            t.start()
            t.join()
            ctx.tick(1, "schedules")
            exp = ["BodyError"] if body == "raise" and not ret else []
            if log != ["setup", "body", "teardown"] or exc != exp:
                ctx.fail("thread:%s" % body, {"thread": True}, "in a thread: %r %r" % (log, exc))
            if before != [signal.getsignal(s) for s in SIGNALS]:
                ctx.fail("thread:handlers", {"thread": True}, "handlers changed by a thread")


def replay(case, ctx):
    if case.get("thread"):
        return thread(ctx)
    one(ctx, case["scenario"], [(p, signal.Signals(s)) for p, s in case["inject"]])
