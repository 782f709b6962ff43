"""Shared machinery: contexts that count what was explored, the process pool
that runs shards of an exhaustive enumeration under an unprivileged user with a
watchdog, evidence and replay files."""

import collections
import hashlib
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
SHARD_LIMIT = 300  # s without an answer from one shard: the code under test hangs
MAX_FAILS_PER_SHARD = 60


class StopShard(Exception):
    pass


class SkipCase(Exception):
    pass


def h64(key):
    if not isinstance(key, bytes):
        key = repr(key).encode("utf-8", "backslashreplace")
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


class Ctx:
    """What a shard reports."""

    def __init__(self, tier="quick", scratch=None, replaying=False):
        self.tier = tier
        self.scratch = scratch
        self.replaying = replaying
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.outcomes = collections.Counter()
        self.fails = {}
        self.nfails = 0
        self.current = None
        self.heartbeat = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tick(self, n=1, name="evaluations"):
        self.counts[name] += n
        if self.heartbeat is not None:
            self.heartbeat.value = time.time()

    def state(self, key):
        """Register a distinct state/case; True when it is new in this shard"""
        k = h64(key)
        if k in self.keys:
            return False
        self.keys.add(k)
        return True

    def trans(self, n=1):
        self.tick(n, "transitions")

    def trace(self, n=1):
        self.tick(n, "traces")

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def outcome(self, key):
        self.outcomes[str(key)[:120]] += 1

    def fail(self, sig, case, msg):
        """Record a violation. sig identifies the failing input/call site."""
        self.nfails += 1
        if sig not in self.fails:
            self.fails[sig] = {"sig": sig, "case": case, "msg": str(msg)[:4000]}
        if len(self.fails) >= MAX_FAILS_PER_SHARD:
            raise StopShard

    def result(self):
        if not self.samples and self.current is not None:
            self.samples.append(self.current)
        return {
            "counts": dict(self.counts),
            "keys": self.keys,
            "samples": self.samples,
            "outcomes": dict(self.outcomes),
            "fails": list(self.fails.values()),
        }


def short_tb(e, n=6):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(tb)[-1800:]


def from_repo(e):
    """Did the exception arise inside the code under test?"""
    tb = e.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        hit = hit or fn.startswith(REPO_SRC)
        tb = tb.tb_next
    return hit


def repo_site(e):
    """'file:function' of the innermost frame in the code under test"""
    tb = e.__traceback__
    site = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO_SRC):
            site = os.path.relpath(fn, REPO_SRC) + ":" + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return site


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def worker_main(conn, module, tier, scratch, heartbeat):
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
        if getattr(module, "MEM_LIMIT", 6 << 30):
            lim = getattr(module, "MEM_LIMIT", 6 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        drop_privileges()
        try:
            import ctypes

            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # not left behind
        except Exception:
            pass
        log = os.path.join(scratch, "log")
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.chdir(scratch)
        for k in ("TMPDIR", "HOME"):
            os.environ[k] = scratch
        tempfile.tempdir = scratch
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        if hasattr(module, "worker_init"):
            module.worker_init()
        while True:
            shard = conn.recv()
            if shard is None:
                break
            heartbeat.value = time.time()
            ctx = Ctx(tier, scratch)
            ctx.heartbeat = heartbeat
            err = None
            try:
                module.run_shard(shard, ctx)
            except StopShard:
                pass
            except BaseException as e:  # noqa
                if from_repo(e) and not isinstance(e, (KeyboardInterrupt,)):
                    try:
                        ctx.fail(
                            "exception:%s:%s" % (type(e).__name__, repo_site(e)),
                            {"shard": shard, "current": repr(ctx.current)[:500]},
                            "unexpected exception in the code under test (%r)\n%s"
                            % (ctx.current, short_tb(e)),
                        )
                    except StopShard:
                        pass
                else:
                    err = "%r\n%s" % (ctx.current, short_tb(e))
            conn.send((ctx.result(), err))
        conn.close()
    finally:
        os._exit(0)


class Pool:
    def __init__(self, module, tier, scratch, nproc):
        self.module, self.tier, self.scratch = module, tier, scratch
        self.nproc = nproc
        self.ctxmp = multiprocessing.get_context("fork")
        self.n = 0

    def spawn(self):
        self.n += 1
        d = os.path.join(self.scratch, "w%d" % self.n)
        os.mkdir(d)
        os.chmod(d, 0o777)
        if os.getuid() == 0:
            os.chown(d, 65534, 65534)
        a, b = self.ctxmp.Pipe()
        hb = self.ctxmp.Value("d", time.time(), lock=False)
        p = self.ctxmp.Process(
            target=worker_main, args=(b, self.module, self.tier, d, hb), daemon=True
        )
        p.start()
        b.close()
        return {"p": p, "c": a, "hb": hb, "shard": None, "dir": d, "tries": 0}

    def run(self, shards, on_result, deadline=None, stop=lambda: False):
        from multiprocessing.connection import wait

        todo = collections.deque((s, 0) for s in shards)
        workers = [self.spawn() for _ in range(min(self.nproc, len(todo)))]
        left = 0
        limit = getattr(self.module, "SHARD_LIMIT", SHARD_LIMIT)
        try:
            busy = set()
            while True:
                for i, w in enumerate(workers):
                    if w["shard"] is None and todo and not stop():
                        if deadline and time.time() > deadline:
                            left = len(todo)
                            todo.clear()
                            break
                        s, tries = todo.popleft()
                        w["shard"], w["tries"] = s, tries
                        w["hb"].value = w["t0"] = time.time()
                        try:
                            w["c"].send(s)
                        except (BrokenPipeError, OSError):
                            pass
                        busy.add(i)
                if not busy:
                    break
                ready = wait([workers[i]["c"] for i in busy], timeout=2)
                for i in list(busy):
                    w = workers[i]
                    if w["c"] in ready:
                        try:
                            res, err = w["c"].recv()
                        except (EOFError, ConnectionResetError, pickle.UnpicklingError):
                            w["p"].join(5)
                            code = w["p"].exitcode
                            s, tries = w["shard"], w["tries"]
                            tail = self.tail(w)
                            workers[i] = self.spawn()
                            busy.discard(i)
                            if tries == 0:
                                todo.append((s, 1))
                            else:
                                on_result(
                                    s,
                                    crash_result(s, "process died (exit %s): %s" % (code, tail), "died"),
                                    None,
                                )
                            continue
                        on_result(w["shard"], res, err)
                        if os.environ.get("MC_TIMES"):
                            with open(os.environ["MC_TIMES"], "a") as f:
                                f.write("%.2f %s\n" % (time.time() - w["t0"], json.dumps(w["shard"], default=str)))
                        w["shard"] = None
                        busy.discard(i)
                    elif time.time() - w["hb"].value > limit:
                        s = w["shard"]
                        w["p"].kill()
                        w["p"].join(5)
                        workers[i] = self.spawn()
                        busy.discard(i)
                        on_result(
                            s,
                            crash_result(s, "no answer for %d s: the code under test hangs" % limit, "hang"),
                            None,
                        )
        finally:
            for w in workers:
                try:
                    w["c"].send(None)
                except Exception:
                    pass
            for w in workers:
                w["p"].join(3)
                if w["p"].is_alive():
                    w["p"].kill()
        return left + len(todo)

    def tail(self, w):
        try:
            with open(os.path.join(w["dir"], "log"), errors="replace") as f:
                return f.read()[-800:]
        except OSError:
            return ""


def crash_result(shard, msg, kind):
    return {
        "counts": {},
        "keys": set(),
        "samples": [],
        "outcomes": {},
        "fails": [{"sig": "%s:%s" % (kind, json.dumps(shard, default=str)), "case": {"shard": shard}, "msg": msg}],
    }


def make_scratch():
    base = None
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (1 << 30):
                base = d
                break
        except OSError:
            pass
    d = tempfile.mkdtemp(prefix="verif-mc-", dir=base)
    os.chmod(d, 0o755)
    return d
