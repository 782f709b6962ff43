"""C06: every sequence of outcomes of the attempts to open a file, and every
kind of real lock released at every attempt."""

import errno
import itertools
import logging
import os
import shutil
import subprocess
import sys

import h5py

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all outcome sequences (6 transient, 9 terminal outcomes, where possible in that mode) up to 4 attempts x 5 modes x 3 ways to open; the default number of attempts with the first k failing, for all k and outcomes; interruption of each waiting time; real locks: 7 holders x 5 requests x 5 release times x 2 previous requests; 6 kinds of real permanent failures x 5 modes",
    "thorough": "sequences up to 6 attempts; real locks with up to 5 attempts",
}
ASSUMPTIONS = [
    "the errors of h5py used for the sequences are the ones of h5py 3.16/HDF5 2.0 (exercised for real in the second part)"
]
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of the answers of the HDF5 library and the waiting calls (fault injection into the real code)"

MODES = ["r", "r+", "w", "x", "a"]


def err(no, txt):
    return lambda: OSError(no, txt)


def plain(txt):
    return lambda: OSError(txt)


TRANSIENT = {
    "EAGAIN": (err(errno.EAGAIN, "[Errno 11] Unable to synchronously open file (unable to lock file, errno = 11, error message = 'Resource temporarily unavailable')"), MODES),
    "EAGAIN-text": (plain("Unable to open file (unable to lock file, errno = 11, error message = 'Resource temporarily unavailable')"), MODES),
    "OPENERR": (plain("Unable to synchronously open file (file is already open for read-only)"), ["r+", "a"]),
    "TRUNCERR": (plain("Unable to synchronously create file (unable to truncate a file which is already open)"), ["w"]),
    "EEXIST": (err(errno.EEXIST, "Unable to synchronously create file (unable to open file: errno = 17, error message = 'File exists')"), ["a"]),
    "EEXIST-text": (plain("Unable to create file (file exists)"), ["a"]),
}  # fmt: skip
TERMINAL = {
    "ok": (None, MODES),
    "ENOENT": (err(errno.ENOENT, "Unable to open file"), MODES),
    "ENOENT-text": (plain("Unable to open file (unable to open file: name = 'x', errno = 2, error message = 'No such file or directory', flags = 0, o_flags = 0)"), MODES),
    "EISDIR": (err(errno.EISDIR, "Unable to synchronously open file (file read failed: errno = 21, error message = 'Is a directory')"), MODES),
    "SIGERR": (plain("Unable to synchronously open file (file signature not found)"), ["r", "r+", "a"]),
    "EACCES": (err(errno.EACCES, "Unable to open file (unable to open file: errno = 13, error message = 'Permission denied')"), MODES),
    "ENOSPC": (err(errno.ENOSPC, "Unable to synchronously create file (unable to write, errno = 28, error message = 'No space left on device')"), ["w", "x", "a", "r+"]),
    "TRUNCATED": (plain("Unable to synchronously open file (truncated file: eof = 96, sblock->base_addr = 0, stored_eof = 2048)"), ["r", "r+", "a"]),
    "EXISTS": (err(errno.EEXIST, "Unable to synchronously create file (unable to open file: errno = 17, error message = 'File exists')"), ["x"]),
    "EXISTS-text": (plain("Unable to synchronously create file (file exists)"), ["x"]),
    "ValueError": (lambda: ValueError("Invalid mode"), MODES),
}  # fmt: skip


class Interrupt(BaseException):
    pass


class Limit(BaseException):
    pass


class FakeFile:
    def __init__(self, hub, name, mode):
        self.hub, self.filename, self.mode = hub, name, mode
        self.isopen = True
        hub.handles.append(self)

    def close(self):
        self.isopen = False

    def __bool__(self):
        return self.isopen

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def get(self, *a, **k):
        return None


class Hub:
    """Replaces h5py.File and sleep"""

    def __init__(self, seq, breaksleep=None, limit=200):
        self.seq, self.breaksleep, self.limit = seq, breaksleep, limit
        self.attempts, self.sleeps = [], 0
        self.handles = []

    def File(self, name, mode="r", **kw):
        i = len(self.attempts)
        self.attempts.append((str(name), mode))
        if i >= self.limit:
            raise Limit
        # beyond the sequence: would succeed
        o = self.seq[i] if i < len(self.seq) else "ok"
        make = (TRANSIENT.get(o) or TERMINAL[o])[0]
        if make is None:
            return FakeFile(self, name, mode)
        self.raised = make()
        raise self.raised

    def sleep(self, t=0):
        self.sleeps += 1
        if self.breaksleep == self.sleeps:
            raise Interrupt

    def __enter__(self):
        import time

        from spectrocrunch.io import h5fs

        self.saved = []
        for obj, name, new in (
            (h5py, "File", self.File), (h5fs, "File", self.File),
            (h5fs, "sleep", self.sleep), (time, "sleep", self.sleep),
        ):  # fmt: skip
            if hasattr(obj, name):
                self.saved.append((obj, name, getattr(obj, name)))
                setattr(obj, name, new)
        return self

    def __exit__(self, *a):
        for obj, name, old in self.saved:
            setattr(obj, name, old)


class BodyError(Exception):
    pass


def attempt_open(way, path, mode, retries, body):
    """Open, run the body, close. Returns None or raises"""
    from spectrocrunch.io import h5fs

    kw = {} if retries is None else {"retries": retries, "backoff_factor": 0}
    if way == "io":
        cm = h5fs.h5FileIO(path, mode=mode, **kw)
    elif way == "device":
        cm = h5fs.h5Device(path, mode=mode, **kw).open()
    else:
        cm = h5fs.Path("/x", h5file=h5fs.h5Device(path, mode=mode, **kw)).h5open()
    with cm as f:
        return body(f)


def run_seq(ctx, way, mode, seq, retries, breaksleep=None, bodyraises=False):
    from spectrocrunch.io import fs, h5fs

    ctx.current = (way, mode, seq, retries, breaksleep, bodyraises)
    case = {"kind": "seq", "way": way, "mode": mode, "seq": list(seq), "retries": retries, "breaksleep": breaksleep, "bodyraises": bodyraises}
    ctx.tick(1, "schedules")
    n = 25 if retries is None else retries
    got = []

    def body(f):
        got.append(f)
        if not f:
            raise AssertionError("handle is not open")
        if bodyraises:
            raise BodyError
        return f

    exc = None
    with Hub(seq, breaksleep) as hub:
        try:
            attempt_open(way, "/nowhere/file.h5", mode, retries, body)
        except (Limit, Interrupt, Exception) as e:  # noqa
            exc = e
    ctx.trans(len(hub.attempts) + hub.sleeps)
    ctx.state((way, mode, seq[: len(hub.attempts)], n, breaksleep, bodyraises))
    # oracle
    k = next((i for i, o in enumerate(seq) if o in TERMINAL), len(seq))
    bad = None
    last = seq[k] if k < len(seq) else None
    if last is None and k < n:
        last = "ok"
    if breaksleep is not None and isinstance(exc, Interrupt):
        ctx.outcome("interrupted")
        if got:
            bad = "opened although interrupted"
    elif k >= n:
        ctx.outcome("locked")
        if len(hub.attempts) != n:
            bad = "%d attempts instead of %d" % (len(hub.attempts), n)
        elif not isinstance(exc, h5fs.LockedError):
            bad = "%r instead of LockedError" % (exc,)
        elif got:
            bad = "body ran"
    else:
        ctx.outcome(last)
        if len(hub.attempts) != k + 1:
            bad = "%d attempts instead of %d" % (len(hub.attempts), k + 1)
        elif last == "ok":
            if len(got) != 1:
                bad = "not opened: %r" % (exc,)
            elif bodyraises != isinstance(exc, BodyError) or (exc and not bodyraises):
                bad = "body error %r" % (exc,)
        else:
            if got:
                bad = "body ran"
            elif last.startswith("ENOENT"):
                if not isinstance(exc, fs.Missing):
                    bad = "%r instead of Missing" % (exc,)
            elif last == "EISDIR":
                if not isinstance(exc, fs.NotAFile):
                    bad = "%r instead of NotAFile" % (exc,)
            elif last == "ValueError":
                if not isinstance(exc, ValueError):
                    bad = "%r instead of ValueError" % (exc,)
            elif isinstance(exc, h5fs.LockedError) or not isinstance(
                exc, (OSError, fs.FileSystemException)
            ):
                bad = "%r instead of the error" % (exc,)
            elif last.startswith("EXISTS"):
                if not isinstance(exc, (OSError, fs.AlreadyExists)) or isinstance(exc, fs.Missing):
                    bad = "%r instead of exists" % (exc,)
    if bad is None and any(h.isopen for h in hub.handles):
        bad = "file left open"
    if bad is None and any(a[1] != mode for a in hub.attempts):
        bad = "opened in another mode %r" % (hub.attempts,)
    if bad is None and len(hub.attempts) > n:
        bad = "more attempts than configured"
    if bad:
        ctx.fail(
            "seq:%s:%s:%s:%s" % (way, mode, last, bad[:40]),
            case,
            "open %r with mode %r, %r retries, outcomes of the attempts %r: %s"
            % (way, mode, retries, seq, bad),
        )


# ---------------------------------------------------------------- real locks

HOLDER = """
import sys, os, h5py
h = None
for line in sys.stdin:
    cmd = line.split()
    if cmd[0] == "open":
        os.environ["HDF5_USE_FILE_LOCKING"] = "TRUE"
        h = h5py.File(cmd[1], cmd[2], locking=True)
        h.flush()
    elif cmd[0] == "close":
        if h is not None:
            h.close()
        h = None
    print("ok", flush=True)
"""


class Holder:
    def __init__(self):
        self.p = subprocess.Popen(
            [sys.executable, "-c", HOLDER], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, text=True,
        )  # fmt: skip

    def cmd(self, *args):
        self.p.stdin.write(" ".join(args) + "\n")
        self.p.stdin.flush()
        return self.p.stdout.readline()

    def stop(self):
        self.p.stdin.close()
        self.p.wait(10)
        self.p.stdout.close()


def openfds(path):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + fd) == path:
                n += 1
        except OSError:
            pass
    return n


class RealHub(Hub):
    """Watches the real h5py.File; the lock is released at a waiting time"""

    def __init__(self, held, release, at):
        super().__init__([])
        self.held, self.release, self.at = held, release, at
        self.real = h5py.File
        if at == 0:
            self.dorelease()

    def dorelease(self):
        if self.held:
            self.held = False
            self.release()

    def File(self, name, mode="r", **kw):
        if len(self.attempts) > 20:
            raise Limit
        try:
            f = self.real(name, mode, **kw)
        except Exception as e:
            self.attempts.append((self.held, e))
            raise
        self.attempts.append((self.held, None))
        return f

    def sleep(self, t=0):
        self.sleeps += 1
        if self.sleeps == self.at:
            self.dorelease()


def real_lock(ctx, holder, d, where, hmode, way, mode, at, retries, prev):
    from spectrocrunch.io import h5fs

    case = {"kind": "lock", "where": where, "hmode": hmode, "way": way, "mode": mode, "at": at, "retries": retries, "prev": prev}
    ctx.current = case
    ctx.tick(1, "schedules")
    path = os.path.join(d, "f.h5")
    with h5py.File(path, "w") as f:
        f["a"] = 1
    if prev:  # the request before
        with h5fs.h5FileIO(path, mode=prev):
            pass
    if where == "other":
        holder.cmd("open", path, hmode)
        release = lambda: holder.cmd("close")  # noqa
    else:
        os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE" if hmode == "r" else "TRUE"
        h = h5py.File(path, hmode)
        release = h.close
    got, exc = [], None
    hub = RealHub(True, release, at)
    try:
        with hub:
            try:
                attempt_open(way, path, mode, retries, lambda f: got.append(bool(f)))
            except (Limit, Exception) as e:  # noqa
                exc = e
            stillheld = hub.held
    finally:
        hub.dorelease()
    ctx.trans(len(hub.attempts) + hub.sleeps)
    ctx.trace(1)
    bad = None
    if len(hub.attempts) > retries:
        bad = "%d attempts with %d retries" % (len(hub.attempts), retries)
    elif mode == "x":
        if len(hub.attempts) != 1:
            bad = "%d attempts for an existing file in exclusive mode" % len(hub.attempts)
        elif got or exc is None or isinstance(exc, h5fs.LockedError):
            bad = "exclusive mode on an existing file: %r" % (exc,)
    else:
        succeeded = [e is None for _, e in hub.attempts]
        if any(succeeded):
            if not got or exc is not None:
                bad = "attempt succeeded but the file was not opened: %r" % (exc,)
        else:
            if got:
                bad = "opened without a successful attempt"
            elif not stillheld and len(hub.attempts) < retries:
                bad = "gave up although the lock was released: %r" % (exc,)
            elif len(hub.attempts) != retries:
                bad = "gave up after %d of %d attempts: %r" % (len(hub.attempts), retries, exc)
            elif not isinstance(exc, h5fs.LockedError):
                bad = "%r instead of LockedError" % (exc,)
        for held, e in hub.attempts:
            if not held and e is not None:
                bad = bad or "not held but %r (a handle left open?)" % (e,)
    ctx.outcome("lock:%s:%s" % (bool(got), type(exc).__name__))
    ctx.state((where, hmode, mode, at, prev, len(hub.attempts), bool(got)))
    if bad is None:
        left = openfds(path)
        if left:
            bad = "%d handles left open" % left
    if bad:
        ctx.fail(
            "lock:%s:%s:%s:%s" % (where, hmode, mode, bad[:30]),
            case,
            "file held %s (%s), request %s, released at waiting time %r: %s; attempts %r"
            % (hmode, where, mode, at, bad, hub.attempts),
        )
    os.remove(path)


KINDS = ["missing", "noparent", "dir", "text", "noaccess", "short"]


def real_permanent(ctx, d, kind, way, mode):
    from spectrocrunch.io import fs, h5fs

    case = {"kind": "perm", "perm": kind, "way": way, "mode": mode}
    ctx.current = case
    ctx.tick(1, "schedules")
    base = os.path.join(d, "p")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    path = os.path.join(base, "f.h5")
    if kind == "noparent":
        path = os.path.join(base, "q", "f.h5")
    elif kind == "dir":
        os.mkdir(path)
    elif kind in ("text", "short"):
        with open(path, "w") as f:
            f.write("abc" if kind == "short" else "no hdf5 file" * 300)
    elif kind == "noaccess":
        with h5py.File(path, "w") as f:
            f["a"] = 1
        os.chmod(path, 0)
        if os.access(path, os.R_OK):
            return
    got, exc = [], None
    hub = RealHub(False, lambda: None, None)
    with hub:
        try:
            attempt_open(way, path, mode, 4, lambda f: got.append(bool(f)))
        except (Limit, Exception) as e:  # noqa
            exc = e
    ctx.trace(1)
    ctx.trans(len(hub.attempts))
    bad = None
    if hub.sleeps or len(hub.attempts) != 1:
        bad = "%d attempts" % len(hub.attempts)
    elif (hub.attempts[0][1] is None) != bool(got):
        bad = "opened: %r, exception %r" % (got, exc)
    elif not got:
        if kind in ("missing", "noparent"):
            if not isinstance(exc, fs.Missing):
                bad = "%r instead of Missing" % (exc,)
        elif kind == "dir" and mode != "x":
            if not isinstance(exc, fs.NotAFile):
                bad = "%r instead of NotAFile" % (exc,)
        elif isinstance(exc, h5fs.LockedError) or not isinstance(
            exc, (OSError, fs.FileSystemException)
        ):
            bad = "%r" % (exc,)
    should = kind == "missing" and mode in ("w", "x", "a") or kind in ("text", "short") and mode == "w"
    if should != bool(got):
        bad = bad or "opened: %r" % (got,)
    if not bad and openfds(path):
        bad = "left open"
    ctx.outcome("perm:%s:%s" % (kind, type(exc).__name__))
    ctx.state(("perm", kind, mode, way, type(exc).__name__))
    if bad:
        ctx.fail("perm:%s:%s:%s" % (kind, mode, bad[:30]), case, "%s file, request %s (%s): %s" % (kind, mode, way, bad))
    if kind == "noaccess":
        os.chmod(path, 0o600)
    shutil.rmtree(base)


HOLDERS = [("other", m) for m in ("r", "r+", "w", "a")] + [("same", m) for m in ("r", "r+", "a")]


def worker_init():
    logging.disable(logging.CRITICAL)


def shards(tier):
    out = []
    for way in ("io", "device", "path"):
        for mode in MODES:
            out.append({"kind": "seq", "way": way, "mode": mode})
            out.append({"kind": "default", "way": way, "mode": mode})
    for w, m in HOLDERS:
        for mode in MODES:
            out.append({"kind": "lock", "where": w, "hmode": m, "mode": mode})
    out.append({"kind": "perm"})
    return out


def run_shard(shard, ctx):
    kind = shard["kind"]
    d = ctx.scratch
    if kind == "perm":
        for k, way, mode in itertools.product(KINDS, ("io", "device", "path"), MODES):
            real_permanent(ctx, d, k, way, mode)
        return
    mode = shard["mode"]
    T = [k for k, v in TRANSIENT.items() if mode in v[1]]
    E = [k for k, v in TERMINAL.items() if mode in v[1]]
    if kind == "seq":
        way = shard["way"]
        L = 6 if ctx.thorough and len(T) < 4 else 5 if ctx.thorough else 4
        for n in range(0, L + 1):  # number of retries
            for k in range(0, n + 1):
                for pre in itertools.product(T, repeat=k):
                    if k == n:
                        run_seq(ctx, way, mode, pre, n)
                        continue
                    for e in E:
                        run_seq(ctx, way, mode, pre + (e,), n)
                        if e == "ok":
                            run_seq(ctx, way, mode, pre + (e,), n, bodyraises=True)
        for n in range(1, 4):
            for b in range(1, n + 1):
                for pre in itertools.product(T, repeat=n):
                    run_seq(ctx, way, mode, pre, n, breaksleep=b)
        ctx.sample({"mode": mode, "transient": T, "terminal": E, "length": L})
    elif kind == "default":
        for t in T:
            for k in range(0, 25):
                for e in E:
                    run_seq(ctx, shard["way"], mode, (t,) * k + (e,), None)
            for k in (25, 26, 30):
                run_seq(ctx, shard["way"], mode, (t,) * k, None)
    else:
        R = 5 if ctx.thorough else 3
        holder = Holder() if shard["where"] == "other" else None
        try:
            for at in list(range(0, R + 1)) + [None]:
                for prev in ("r", "a"):
                    for way in ("io", "path") if at else ("io", "device", "path"):
                        real_lock(ctx, holder, d, shard["where"], shard["hmode"], way, mode, at, R, prev)
        finally:
            if holder:
                holder.stop()
        ctx.sample(shard)


def replay(case, ctx):
    if case["kind"] == "seq":
        run_seq(ctx, case["way"], case["mode"], tuple(case["seq"]), case["retries"], case["breaksleep"], case["bodyraises"])
    elif case["kind"] == "lock":
        holder = Holder() if case["where"] == "other" else None
        try:
            real_lock(ctx, holder, ctx.scratch, case["where"], case["hmode"], case["way"], case["mode"], case["at"], case["retries"], case["prev"])
        finally:
            if holder:
                holder.stop()
    else:
        real_permanent(ctx, ctx.scratch, case["perm"], case["way"], case["mode"])
