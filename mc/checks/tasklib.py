"""Shared by the task checks: input data, canonical content of an HDF5 file."""

import hashlib
import logging
import os
import random

import h5py
import numpy as np

TIMES = {"end_time", "start_time", "date"}
TIMEATTRS = {"file_update_time", "file_time"}
# written by the environment, not by the task
IGNORED_ATTRS = {"file_name", "HDF5_Version", "h5py_version", "creator"}


def quiet():
    logging.disable(logging.CRITICAL)


def _val(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("obj", v.shape, tuple(_val(x) for x in v.ravel().tolist()))
        return (v.dtype.str, v.shape, hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, bytes):
        return v.decode("utf-8", "replace")
    if isinstance(v, (np.generic,)):
        return v.item()
    return v if isinstance(v, (str, int, float, bool)) else repr(v)


def _attrs(node):
    return {
        k: _val(v)
        for k, v in node.attrs.items()
        if k not in TIMEATTRS and k not in IGNORED_ATTRS
    }


def dump(group, prefix="", out=None):
    """Everything below a group except time stamps: path -> description"""
    if out is None:
        out = {}
        out["."] = ("group", _attrs(group))
    for name in sorted(group):
        path = prefix + name
        link = group.get(name, getlink=True)
        if isinstance(link, h5py.SoftLink):
            out[path] = ("soft", link.path)
            continue
        if isinstance(link, h5py.ExternalLink):
            out[path] = ("external", os.path.basename(link.filename), link.path)
            continue
        node = group[name]
        if isinstance(node, h5py.Group):
            out[path] = ("group", _attrs(node))
            dump(node, path + "/", out)
        elif name in TIMES:
            out[path] = ("time",)
        else:
            out[path] = ("data", _val(np.asarray(node[()])) if node.dtype != object else _val(node[()]), _attrs(node))
    return out


def dumpfile(fn, path="/"):
    if not os.path.exists(fn):
        return None
    with h5py.File(fn, "r") as f:
        if path not in f:
            return None
        return dump(f[path])


def diff(a, b, n=6):
    """Readable difference of two dumps"""
    if a is None or b is None:
        return [] if a is b else ["missing" if b is None else "extra"]
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k not in a:
                out.append("extra %s %r" % (k, b[k]))
            elif k not in b:
                out.append("lost %s %r" % (k, a[k]))
            else:
                out.append("changed %s %r -> %r" % (k, a[k], b[k]))
    return out[:n]


def under(d, path):
    """The part of a file dump below a path (relative)"""
    path = path.strip("/")
    out = {}
    for k, v in (d or {}).items():
        if k == path:
            out["."] = v
        elif k.startswith(path + "/"):
            out[k[len(path) + 1 :]] = v
    return out


def small_input(fn, entry=None, groups=(("detector00", ("A", "B")), ("counters", ("C",))), shape=(2, 3, 4), name="fromraw.1", params=None, fill=None):
    """An NXprocess with a few signals"""
    from spectrocrunch.io import nxfs

    root = nxfs.Path("/", h5file=fn).nxroot()
    if entry is None:
        entry = root.new_nxentry()
    else:
        entry = root.nxentry(name=entry)
    par = {"name": "fromraw", "a": 1}
    par.update(params or {})
    proc = entry.nxprocess(name, parameters=par, searchallentries=False)
    n = int(np.prod(shape))
    k = 0
    for g, signals in groups:
        nxdata = proc.results.nxdata(g)
        for s in signals:
            if fill is None:
                data = ((np.arange(n) * 7 + k * 3) % 11 + 1.0).reshape(shape)
            else:
                data = fill(g, s, shape)
            k += 1
            nxdata.add_signal(s, data=data.astype(np.float32))
        names = "xyz"[: len(shape)]
        nxdata.set_axes(
            *[
                (names[i], np.arange(shape[i]) * (i + 1.0), {"units": "um"} if i else None)
                for i in range(len(shape))
            ]
        )
    return proc


def seed():
    random.seed(12345)
    np.random.seed(12345)
