"""C27: discrete Fourier transforms on every basis signal of every small size, against the definition."""

import itertools

import numpy as np

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all lengths 1-12 (shifts and frequencies 1-40), all images up to 5 x 5 and 1 x 8, every basis signal (real and imaginary) and one generic signal, both normalizations, both frequency orders, 3 spacings, every sub-region, every selection of frequencies (runs, single, reversed, shifted), centred or not",
    "thorough": "lengths 1-24 (shifts and frequencies 1-200), images up to 7 x 7",
}
ASSUMPTIONS = ["values compared to 1e-9; basis signals decide a linear map"]


def conv(name):
    from spectrocrunch.math import ft

    return getattr(ft.fftConvention, name)


def freqs(n, name):
    """Integer frequencies in increasing order"""
    if n % 2:
        return list(range(-(n // 2), n // 2 + 1))
    return list(range(-n // 2, n // 2)) if name == "numpy" else list(range(-n // 2 + 1, n // 2 + 1))


def signals(shape):
    """Basis and one generic signal"""
    n = int(np.prod(shape))
    for i in range(n):
        for a in (1.0, 1j):
            s = np.zeros(n, dtype=complex if a != 1.0 else float)
            s[i] = a
            yield s.reshape(shape)
    yield (np.sin(np.arange(n) * 1.7 + 0.3) + 1j * np.cos(np.arange(n) ** 2)).reshape(shape)
    yield np.arange(n).reshape(shape)  # integers


def kernel(us, xs, sign):
    return np.exp(sign * 2j * np.pi * np.outer(us, xs))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9 * max(1.0, np.abs(b).max(initial=0)))


class Bad(Exception):
    pass


def check_freq(n, ctx):
    from spectrocrunch.math import ft

    for name in ("numpy", "idl"):
        case = {"freq": n}
        ctx.current = case
        c = conv(name)
        want = freqs(n, name)
        for d in (1, 0.5, 3, np.pi):
            ctx.tick(1, "frequency axes")
            lo, hi = ft.fft_freqind(n, freqconvention=c)
            cen = ft.fftfreq(n, d, centered=True, freqconvention=c)
            std = ft.fftfreq(n, d, freqconvention=c)
            if (lo, hi) != (want[0], want[-1]):
                ctx.fail("range", case, "%s %d: %s instead of %s" % (name, n, (lo, hi), (want[0], want[-1])))
            if not same(cen, np.array(want) / (n * d)):
                ctx.fail("frequencies", case, "%s %d: centred %s" % (name, n, cen))
            k = want.index(0)
            if not same(std, np.array(want[k:] + want[:k]) / (n * d)):
                ctx.fail("frequencies", case, "%s %d: %s" % (name, n, std))
            if name == "numpy" and not same(std, np.fft.fftfreq(n, d)):
                ctx.fail("frequencies", case, "differ from numpy")
            if not np.array_equal(ft.fftshift(std, freqconvention=c), cen) or not np.array_equal(ft.ifftshift(cen, freqconvention=c), std):
                ctx.fail("shift", case, "%s %d: frequencies shifted: %s" % (name, n, ft.fftshift(std, freqconvention=c)))
        if name == "numpy":
            if not same(ft.fftfreq(n), np.fft.fftfreq(n)) or ft.fft_freqind(n) != ft.fft_freqind(n, freqconvention=c):
                ctx.fail("default", case, "the default is not the convention of numpy")
        # arrays of lengths
        arr = np.array([n, n + 1, 1, 2])
        lo, hi = ft.fft_freqind(arr, freqconvention=c)
        if [(int(a), int(b)) for a, b in zip(lo, hi)] != [(freqs(int(m), name)[0], freqs(int(m), name)[-1]) for m in arr]:
            ctx.fail("range", case, "of several lengths %s %s" % (lo, hi))
    ctx.state(("freq", n))
    ctx.trans(1)


def check_shift(shape, ctx):
    from spectrocrunch.math import ft

    a = np.arange(int(np.prod(shape))).reshape(shape)
    for name in ("numpy", "idl"):
        case = {"shift": list(shape)}
        ctx.current = case
        ctx.tick(1, "shifts")
        c = conv(name)
        keep = a.copy()
        s = ft.fftshift(a, freqconvention=c)
        i = ft.ifftshift(a, freqconvention=c)
        off = [freqs(n, name).index(0) for n in shape]
        if not np.array_equal(s, np.roll(a, off, axis=range(a.ndim))):
            ctx.fail("shift", case, "%s: %s" % (name, s.tolist()))
        if not np.array_equal(i, np.roll(a, [-o for o in off], axis=range(a.ndim))):
            ctx.fail("inverse shift", case, "%s: %s" % (name, i.tolist()))
        if not np.array_equal(ft.ifftshift(s, freqconvention=c), a) or not np.array_equal(ft.fftshift(i, freqconvention=c), a):
            ctx.fail("shifts cancel", case, name)
        if not np.array_equal(a, keep):
            ctx.fail("argument", case, "%s changed" % name)
    ctx.state(("shift", shape))
    ctx.trans(2)


def selections(n):
    """Index lists of frequencies"""
    out = [list(range(n)), list(range(n))[::-1]]
    out += [list(range(a, b)) for a in range(n) for b in range(a + 1, n + 1) if b - a < n]
    return out


def check_1d(n, ctx):
    from spectrocrunch.math import ft

    case = {"one": n}
    ctx.current = case

    def bad(sig, msg):
        ctx.fail(sig, case, "length %d: %s" % (n, msg))

    x = np.arange(n)
    for f in signals((n,)):
        keep = f.copy()
        for name, dx in itertools.product(("numpy", "idl"), (1, 0.5, 2)):
            kw = {"normconvention": conv(name), "dx": dx}
            nf, ni = (1.0, 1.0 / n) if name == "numpy" else (1.0 / n, 1.0)
            ctx.tick(1, "transforms")
            try:
                std = np.array(freqs(n, "numpy")) / (n * dx)
                k = freqs(n, "numpy").index(0)
                uf = np.concatenate([std[k:], std[:k]])
                F = kernel(uf, x * dx, -1).dot(f) * nf
                got = ft.fft(f, **kw)
                if not same(got, F):
                    bad("transform", "%s spacing %s: %s instead of %s" % (name, dx, got, F))
                if not same(ft.ifft(got, **kw), f):
                    bad("back", "%s spacing %s: %s instead of %s" % (name, dx, ft.ifft(got, **kw), f))
                if not same(ft.fft(ft.ifft(f, **kw), **kw), f):
                    bad("forth", "%s spacing %s" % (name, dx))
                if not same(ft.ifft(f, **kw), kernel(x * dx, uf, 1).dot(f) * ni):
                    bad("inverse", "%s spacing %s" % (name, dx))
                c = ft.fft(f, centered=True, **kw)
                if not same(c, ft.fftshift(F)) or not same(ft.ifft(c, centered=True, **kw), f):
                    bad("centred", "%s spacing %s: %s" % (name, dx, c))
                if not same(ft.fft(f, u=uf, **kw), F):
                    bad("frequencies given", "%s spacing %s" % (name, dx))
                # frequencies of the other order
                c2 = ft.fftfreq(n, dx, freqconvention=conv("idl"))
                g2 = ft.fft(f, u=c2, **kw)
                if not same(g2, kernel(c2, x * dx, -1).dot(f) * nf) or not same(ft.ifft(g2, u=c2, **kw), f):
                    bad("other order", "%s spacing %s" % (name, dx))
                # part of the frequencies
                for sel in selections(n):
                    ctx.tick(1, "sub-regions")
                    g = ft.fft(f, u=uf[sel], **kw)
                    if not same(g, F[sel]):
                        bad("some frequencies", "%s spacing %s frequencies %s: %s instead of %s" % (name, dx, sel, g, F[sel]))
                # part of real space
                for a in range(n):
                    for b in [None] + list(range(a, n + 2)):
                        ctx.tick(1, "sub-regions")
                        g = ft.ifft(F, x0=a, x1=b, **kw)
                        xs = np.arange(a, (n - 1 if b is None else b) + 1)
                        if not same(g, f[xs % n] if len(xs) else []):
                            bad("part of the signal", "%s spacing %s region %s-%s: %s" % (name, dx, a, b, g))
            except Exception as e:  # noqa
                bad("raises", "%s spacing %s raises %r" % (name, dx, e))
        # refused
        for kw in ({"x0": 1, "x1": 0}, {"x0": 0, "x1": n, "u": np.zeros(1)}, {"x0": n}):
            try:
                ft.fft(f, **kw)
                bad("accepted", "%s" % kw)
            except ValueError:
                pass
        try:
            ft.ifft(f, u=np.zeros(n + 1))
            bad("accepted", "too many frequencies")
        except ValueError:
            pass
        if not np.array_equal(f, keep):
            bad("argument", "changed")
        ctx.trans(1)
    ctx.state(("one", n))
    ctx.trace(1)


def check_2d(shape, ctx):
    from spectrocrunch.math import ft

    ny, nx = shape
    case = {"two": list(shape)}
    ctx.current = case

    def bad(sig, msg):
        ctx.fail(sig, case, "%s: %s" % (shape, msg))

    for f in signals(shape):
        keep = f.copy()
        for name, (dx, dy) in itertools.product(("numpy", "idl"), ((1, 1), (0.5, 1), (1, 2), (2, 0.5))):
            kw = {"normconvention": conv(name), "dx": dx, "dy": dy}
            nc = kw["normconvention"]
            ctx.tick(1, "transforms")
            try:
                # two times one dimension
                F = np.array([ft.fft(r, normconvention=nc) for r in f])
                F = np.array([ft.fft(r, normconvention=nc) for r in F.T]).T
                got = ft.fft2(f, **kw)
                if not same(got, F):
                    bad("2D transform", "%s spacing %s" % (name, (dx, dy)))
                if not same(ft.ifft2(got, **kw), f) or not same(ft.fft2(ft.ifft2(f, **kw), **kw), f):
                    bad("2D back", "%s spacing %s" % (name, (dx, dy)))
                c = ft.fft2(f, centered=True, **kw)
                if not same(c, ft.fftshift(F)) or not same(ft.ifft2(c, centered=True, **kw), f):
                    bad("2D centred", "%s spacing %s" % (name, (dx, dy)))
                u, v = ft.fftfreq(nx, dx), ft.fftfreq(ny, dy)
                if not same(ft.fft2(f, u=u, v=v, **kw), F) or not same(ft.fft2(f, u=u, **kw), F) or not same(ft.fft2(f, v=v, **kw), F):
                    bad("2D frequencies given", "%s spacing %s" % (name, (dx, dy)))
                for su in selections(nx)[::2]:
                    for sv in selections(ny)[::3]:
                        ctx.tick(1, "sub-regions")
                        g = ft.fft2(f, u=u[su], v=v[sv], **kw)
                        if not same(g, F[np.ix_(sv, su)]):
                            bad("2D some frequencies", "%s spacing %s frequencies %s %s" % (name, (dx, dy), su, sv))
                for xa, xb in [(0, None), (0, 0), (nx - 1, None), (nx // 2, nx - 1), (0, nx)]:
                    for ya, yb in [(0, None), (0, 0), (ny - 1, ny - 1), (ny // 2, ny), (0, ny - 1)]:
                        ctx.tick(1, "sub-regions")
                        g = ft.ifft2(F, x0=xa, x1=xb, y0=ya, y1=yb, **kw)
                        xs = np.arange(xa, (nx - 1 if xb is None else xb) + 1) % nx
                        ys = np.arange(ya, (ny - 1 if yb is None else yb) + 1) % ny
                        if not same(g, f[np.ix_(ys, xs)]):
                            bad("2D part", "%s spacing %s region x %s y %s" % (name, (dx, dy), (xa, xb), (ya, yb)))
            except Exception as e:  # noqa
                bad("2D raises", "%s spacing %s raises %r" % (name, (dx, dy), e))
        for kw in ({"x0": 1, "x1": 0}, {"y0": 1, "y1": 0}, {"y0": ny}, {"x0": nx}, {"x1": nx, "u": np.zeros(1)}, {"y1": ny}):
            try:
                ft.fft2(f, **kw)
                bad("2D accepted", "%s" % kw)
            except ValueError:
                pass
        for kw in ({"u": np.zeros(nx + 1)}, {"v": np.zeros(ny + 1)}):
            try:
                ft.ifft2(f, **kw)
                bad("2D accepted", "%s" % list(kw))
            except ValueError:
                pass
        if not np.array_equal(f, keep):
            bad("argument", "changed")
        ctx.trans(1)
    ctx.state(("two", shape))
    ctx.trace(1)


def worker_init():
    import warnings

    warnings.simplefilter("ignore")
    import spectrocrunch.math.ft  # noqa


def shards(tier):
    t = tier == "thorough"
    out = [{"what": "one", "n": n} for n in range(1, 25 if t else 13)]
    m = 8 if t else 6
    out += [{"what": "two", "shape": [a, b]} for a in range(1, m) for b in range(1, m)]
    out += [{"what": "two", "shape": [1, 8]}, {"what": "two", "shape": [8, 1]}]
    out += [{"what": "freq", "n": 201 if t else 41}, {"what": "shift", "n": 201 if t else 41}]
    return sorted(out, key=lambda s: -int(np.prod(s.get("shape", s.get("n")))))


def run_shard(shard, ctx):
    w = shard["what"]
    if w == "one":
        check_1d(shard["n"], ctx)
    elif w == "two":
        check_2d(tuple(shard["shape"]), ctx)
    elif w == "freq":
        for n in range(1, shard["n"]):
            check_freq(n, ctx)
    else:
        for n in range(1, shard["n"]):
            check_shift((n,), ctx)
        for shape in itertools.product(range(1, 8), repeat=2):
            check_shift(shape, ctx)
        for shape in itertools.product(range(1, 5), repeat=3):
            check_shift(shape, ctx)
    ctx.sample(shard)


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    if "one" in case:
        check_1d(case["one"], ctx)
    elif "two" in case:
        check_2d(tuple(case["two"]), ctx)
    elif "freq" in case:
        check_freq(case["freq"], ctx)
    else:
        check_shift(tuple(case["shift"]), ctx)
