"""C12: histories of edits of parameter trees, against a forest with dictionaries."""

import itertools
from collections import deque

LEVEL = "model_checking"
BOUNDS = {
    "quick": "trees of up to 4 nodes (every labelled forest that can be reached), 2 keys, 2 values: every structural edit (parent assignment, branch, insert before/after with and without an existing node, removing one node or a subtree) in every reachable forest; every value edit (set, delete, delete locally, recursive delete, update, recursive update, setdefault, pop, clear, import of a dictionary with and without overriding) in every reachable assignment of local values to chains and forks of 3 nodes; mixtures of both up to 3 operations; nested parameter sets (one level) of 3 nodes, 3 operations",
    "thorough": "up to 5 nodes, mixtures up to 4 operations, nested sets up to 4 operations and two levels",
}
ASSUMPTIONS = [
    "setting a key to the value which the node already has (locally or inherited) changes nothing",
    "assigning a dictionary to a key updates the nested set of the node",
    "the order of the children of a node is not compared",
]
TECHNIQUE = "explicit-state model checking of the real tree: breadth-first enumeration of edit histories, every state compared with a forest of dictionaries"

KEYS = ("a", "b")
VALUES = (1, "x")


class Model:
    """Forest of dictionaries"""

    def __init__(self, parent=(), maps=()):
        self.parent = list(parent)
        self.maps = [dict(m) for m in maps]

    def copy(self):
        return Model(self.parent, self.maps)

    def key(self):
        return tuple(self.parent), tuple(tuple(sorted((k, repr(v)) for k, v in m.items())) for m in self.maps)

    def new(self, parent=None):
        self.parent.append(parent)
        self.maps.append({})
        return len(self.parent) - 1

    def up(self, n):
        while n is not None:
            yield n
            n = self.parent[n]

    def children(self, n):
        return [i for i, p in enumerate(self.parent) if p == n]

    def down(self, n):
        yield n
        for c in self.children(n):
            yield from self.down(c)

    # structure
    def set_parent(self, n, p):
        if p == n or p == self.parent[n]:
            return
        if p is not None and p in self.down(n):
            self.parent[p] = self.parent[n]
        self.parent[n] = p

    def remove(self, n, single):
        new = None
        if single:
            if self.parent[n] is None:
                new = self.new()
                self.parent[n] = new
            for c in self.children(n):
                self.parent[c] = self.parent[n]
        self.parent[n] = None
        return new

    def insert_before(self, n, m, single):
        new = None
        if m is not None and (m == self.parent[n] or m == n):
            return m, None
        if m is None:
            m = self.new()
            if single:
                new = self.remove(m, True)
        elif single:
            new = self.remove(m, True)
        keep = self.parent[n]
        self.set_parent(n, m)
        if self.parent[m] is None:
            self.set_parent(m, keep)
        return m, new

    def insert_after(self, n, m, single):
        new = None
        if m is not None and (self.parent[m] == n or m == n):
            return m, None
        if m is None:
            m = self.new()
            if single:
                new = self.remove(m, True)
        elif single:
            new = self.remove(m, True)
        for c in self.children(n):
            self.set_parent(c, m)
        self.set_parent(m, n)
        return m, new

    # values
    def full(self, n):
        out = {}
        for i in self.up(n):
            for k, v in self.maps[i].items():
                out.setdefault(k, v)
        return out

    def inherited(self, n):
        return self.full(self.parent[n]) if self.parent[n] is not None else {}

    def set(self, n, k, v):
        f = self.full(n)
        if k in f and f[k] == v:
            return
        self.maps[n][k] = v

    def delete(self, n, k, local=True):
        for i in self.down(n):
            if i != n or local:
                self.maps[i].pop(k, None)


DICTS = ({"a": 1}, {"a": "x", "b": 1}, {})


def structural(m, maxnodes):
    n = len(m.parent)
    for i in range(n):
        for j in list(range(n)) + [None]:
            yield ("parent", i, j)
        for single in (True, False):
            yield ("remove", i, single) if n < maxnodes or not single or m.parent[i] is not None else None
            for j in range(n):
                for f in ("before", "after"):
                    if n < maxnodes or not single or m.parent[j] is not None:
                        yield (f, i, j, single)
        if n < maxnodes:
            yield ("branch", i)
            yield ("before", i, None, False)
            yield ("after", i, None, False)


def valueops(m):
    for i in range(len(m.parent)):
        for k in KEYS:
            for v in VALUES:
                yield ("set", i, k, v)
            yield ("del", i, k)
            yield ("del_local", i, k)
            yield ("del_rec", i, k, False)
            yield ("setdefault", i, k, "x")
            yield ("pop", i, k)
        for d in range(len(DICTS)):
            yield ("update", i, d)
            yield ("update_rec", i, d)
            for override in (True, False):
                yield ("fromdict", i, d, override, False)
        yield ("fromdict", i, 0, False, True)
        yield ("clear", i)


def apply_model(m, op):
    """Result of the operation as (kind, value)"""
    o = op[0]
    if o == "parent":
        m.set_parent(op[1], op[2])
    elif o == "branch":
        return ("node", m.new(op[1]))
    elif o in ("before", "after"):
        return ("nodes", (m.insert_before if o == "before" else m.insert_after)(*op[1:]))
    elif o == "remove":
        return ("node", m.remove(op[1], op[2]))
    elif o == "set":
        m.set(*op[1:])
    elif o == "del":
        m.delete(op[1], op[2])
    elif o == "del_local":
        m.maps[op[1]].pop(op[2], None)
    elif o == "del_rec":
        m.delete(op[1], op[2], op[3])
    elif o == "setdefault":
        f = m.full(op[1])
        if op[2] not in f:
            m.set(*op[1:])
        return ("value", m.full(op[1])[op[2]])
    elif o == "pop":
        f = m.full(op[1])
        if op[2] not in f:
            return ("value", "default")
        m.delete(op[1], op[2])
        return ("value", f[op[2]])
    elif o == "clear":
        for k in m.full(op[1]):
            m.delete(op[1], k)
    elif o in ("update", "update_rec", "fromdict"):
        d = DICTS[op[2]]
        rec = o == "update_rec"
        if o == "fromdict":
            if not op[3]:
                d = {k: v for k, v in d.items() if k not in m.inherited(op[1])}
            rec = op[4]
        for k, v in d.items():
            m.set(op[1], k, v)
        if rec:
            for k in d:
                m.delete(op[1], k, False)
    return None


class Real:
    def __init__(self, model):
        """Build the tree of a model"""
        from spectrocrunch.pipelines.parameters import Node

        self.nodes = [Node(name="n%d" % i) for i in range(len(model.parent))]
        for i, p in enumerate(model.parent):
            if p is not None:
                self.nodes[i].parent = self.nodes[p]
        # local values from the leafs up, so that nothing is inherited yet
        order = sorted(range(len(self.nodes)), key=lambda i: -len(list(model.up(i))))
        for i in order:
            for k, v in model.maps[i].items():
                self.nodes[i][k] = v

    def index(self, node):
        if node is None:
            return None
        for i, n in enumerate(self.nodes):
            if n is node:
                return i
        self.nodes.append(node)
        return len(self.nodes) - 1

    def apply(self, op):
        o = op[0]
        n = self.nodes[op[1]]
        if o == "parent":
            n.parent = None if op[2] is None else self.nodes[op[2]]
        elif o == "branch":
            return ("node", self.index(n.branch()))
        elif o in ("before", "after"):
            node = None if op[2] is None else self.nodes[op[2]]
            f = n.insert_before if o == "before" else n.insert_after
            a, b = f(node=node, single=op[3])
            return ("nodes", (self.index(a), self.index(b)))
        elif o == "remove":
            return ("node", self.index(n.remove(single=op[2])))
        elif o == "set":
            n[op[2]] = op[3]
        elif o == "del":
            del n[op[2]]
        elif o == "del_local":
            n.delete_local(op[2])
        elif o == "del_rec":
            n.delete_recursive(op[2], local=op[3])
        elif o == "setdefault":
            return ("value", n.setdefault(op[2], op[3]))
        elif o == "pop":
            return ("value", n.pop(op[2], "default"))
        elif o == "clear":
            n.clear()
        elif o == "update":
            n.update(DICTS[op[2]])
        elif o == "update_rec":
            n.update_recursive(DICTS[op[2]])
        elif o == "fromdict":
            n.fromdict(dict(DICTS[op[2]]), override=op[3], recursive=op[4])
        return None


def bounded(func, n=20000):
    """Call with a bounded number of function calls (endless loops)"""
    import sys

    count = [0]

    def tracer(frame, event, arg):
        count[0] += 1
        if count[0] > n:
            raise RuntimeError("does not end")

    old = sys.getprofile()
    sys.setprofile(tracer)
    try:
        return func()
    finally:
        sys.setprofile(old)


def compare(real, model):
    """First difference between the tree and the model"""
    if len(real.nodes) != len(model.parent):
        return "%d nodes instead of %d" % (len(real.nodes), len(model.parent))
    ids = {id(n): i for i, n in enumerate(real.nodes)}
    for i, node in enumerate(real.nodes):
        p = node.parent
        if p is not None and id(p) not in ids:
            return "parent of node %d is unknown" % i
        p = None if p is None else ids[id(p)]
        if p != model.parent[i]:
            return "parent of node %d is %s instead of %s" % (i, p, model.parent[i])
        ch = [ids.get(id(c), "unknown") for c in node.children]
        if sorted(ch, key=str) != sorted(model.children(i), key=str):
            return "children of node %d are %s instead of %s" % (i, ch, model.children(i))
    for i, node in enumerate(real.nodes):
        root = list(model.up(i))[-1]
        if ids[id(node.root)] != root:
            return "root of node %d" % i
        if [ids[id(n)] for n in node.iter_up()] != list(model.up(i)) or [ids[id(n)] for n in node.iter_up(withself=False)] != list(model.up(i))[1:]:
            return "ancestors of node %d" % i
        if sorted(ids[id(n)] for n in node.iter_down()) != sorted(model.down(i)):
            return "descendants of node %d" % i
        full, local, inh = model.full(i), model.maps[i], model.inherited(i)
        got = {k: node.get(k, "default") for k in KEYS}
        if got != {k: full.get(k, "default") for k in KEYS}:
            return "node %d has values %s instead of %s" % (i, got, full)
        for k in KEYS:
            try:
                v = node[k]
                if k not in full or type(v) is not type(full[k]) or v != full[k]:
                    return "node %d[%s] is %r" % (i, k, v)
            except KeyError:
                if k in full:
                    return "node %d[%s] is missing" % (i, k)
            if (k in node) != (k in full) or node.islocalkey(k) != (k in local) or node.isinheritedkey(k) != (k in inh):
                return "membership of %s in node %d: %s, local %s, inherited %s" % (k, i, k in node, node.islocalkey(k), node.isinheritedkey(k))
        if len(node) != len(full):
            return "length of node %d is %d instead of %d" % (i, len(node), len(full))
        for it, want in (
            (list(node), list(full)),
            (list(node.keys()), list(full)),
            (list(node.keys(withself=False)), list(inh)),
        ):
            if len(it) != len(set(it)) or set(it) != set(want):
                return "keys of node %d: %s instead of %s" % (i, it, want)
        if dict(node.items()) != full or len(list(node.items())) != len(full) or dict(node.items(withself=False)) != inh:
            return "items of node %d" % i
        if sorted(map(str, node.values())) != sorted(map(str, full.values())):
            return "values of node %d" % i
        if node.todict() != full or type(node.todict()) is not dict or node.todict(full=False) != local:
            return "node %d as dictionary: %s, %s" % (i, node.todict(), node.todict(full=False))
        ann = [(k.original, k.localcontext, k.inherited, v) for k, v in node.items(annotated=True)]
        if sorted(map(str, ann)) != sorted(str((k, k in local, k not in local, v)) for k, v in full.items()):
            return "annotated items of node %d: %s" % (i, ann)
        if not (node == full):
            return "node %d is not equal to its dictionary" % i
    return None


def step(real, model, op, ctx, case, what):
    want = apply_model(model, op)
    try:
        got = bounded(lambda: real.apply(op)) if op[0] in ("clear", "pop", "parent", "before", "after") else real.apply(op)
        err = None
    except Exception as e:  # noqa
        err = "raises %r" % (e,)
    if err is None and got != want:
        err = "gives %r instead of %r" % (got, want)
    if err is None:
        try:
            err = compare(real, model)
        except Exception as e:  # noqa
            err = "the tree can not be read afterwards: %r" % (e,)
    if err:
        ctx.fail("%s:%s" % (what, op[0]), case, "%s: %s" % (case, err))
        return False
    return True


def start(kind):
    if kind == "forest":
        return Model([None, 0, 0], [{"a": 1}, {"a": "x"}, {"b": 1}])
    if kind == "chain":
        return Model([None, 0, 1], [{}, {}, {}])
    if kind == "fork":
        return Model([None, 0, 0], [{}, {}, {}])
    if kind == "loose":
        return Model([None, 0, 1, None], [{"a": 1, "b": 1}, {"a": "x"}, {}, {"b": "x"}])
    if kind == "chain4":
        return Model([None, 0, 1, 2], [{"a": 1}, {"b": 1}, {"a": "x"}, {"b": "x"}])
    if kind == "single":
        return Model([None], [{"a": 1}])
    raise ValueError(kind)


def explore(ctx, kind, ops, depth, what, part=0, nparts=1):
    """Every transition from every state within the depth (none: all reachable states)"""
    m0 = start(kind)
    seen = {m0.key()}
    todo = deque([(m0, 0)])
    while todo:
        m, d = todo.popleft()
        mine = hash_part(m.key(), nparts) == part
        if mine:
            ctx.state((kind, m.key()))
        for op in ops(m):
            if op is None:
                continue
            m2 = m.copy()
            if mine:
                real = Real(m)
                ctx.trans(1)
                ctx.trace(1)
                ctx.outcome(op[0])
                case = {"parent": m.parent, "maps": m.maps, "ops": [list(op)]}
                ctx.current = case
                err = compare(real, m)
                if err:
                    ctx.fail("build", case, "%s: %s" % (case, err))
                    break
                if not step(real, m2, op, ctx, case, what):
                    continue
            else:
                apply_model(m2, op)
            k = m2.key()
            if k not in seen and (depth is None or d + 1 < depth):
                seen.add(k)
                todo.append((m2, d + 1))
    ctx.sample({"start": kind, "states": len(seen)})


def hash_part(key, n):
    import zlib

    return zlib.crc32(repr(key).encode()) % n


def histories(ctx, kind, depth, part, nparts):
    """All mixed histories on one and the same tree, with the changed state"""
    m0 = start(kind)

    def allops(m):
        return [o for o in itertools.chain(structural(m, 4), reduced(m)) if o is not None]

    def reduced(m):
        for i in range(len(m.parent)):
            yield ("set", i, "a", "x")
            yield ("del", i, "a")
            yield ("del_local", i, "a")
            yield ("set", i, "b", 1)

    first = allops(m0)
    for k, op in enumerate(first):
        if k % nparts != part:
            continue
        stack = [[op]]
        while stack:
            hist = stack.pop()
            m = m0.copy()
            real = Real(m)
            for n in real.nodes:
                n.reset_state()
            before = [(m.full(i), [m.maps[j] for j in m.up(i)], list(m.up(i))) for i in range(len(m.parent))]
            before = [(dict(f), [dict(x) for x in c], u) for f, c, u in before]
            case = {"start": kind, "ops": [list(o) for o in hist]}
            ctx.current = case
            good = True
            for o in hist[:-1]:
                apply_model(m, o)
                real.apply(o)
            good = step(real, m, hist[-1], ctx, case, "history")
            ctx.trans(1)
            if not good:
                continue
            for i in range(len(before)):
                full, chain, up = before[i]
                same = chain == [m.maps[j] for j in m.up(i)] and up == list(m.up(i))
                changed = real.nodes[i].changed
                if full != m.full(i) and not changed:
                    ctx.fail("history:changed", case, "%s: values of node %d changed from %s to %s, not noticed" % (case, i, full, m.full(i)))
                if same and changed:
                    ctx.fail("history:changed", case, "%s: node %d is said to be changed" % (case, i))
            if len(hist) < depth:
                stack.extend(hist + [o] for o in allops(m))
            else:
                ctx.trace(1)


# ---------------------------------------------------------------- nested sets


class Nested:
    """Model with nested sets: local maps of dictionaries"""

    def __init__(self, parent):
        self.parent = list(parent)
        self.maps = [{} for _ in parent]

    def chain(self, n):
        while n is not None:
            yield n
            n = self.parent[n]

    def children(self, n):
        return [i for i, p in enumerate(self.parent) if p == n]

    def local(self, n, path):
        m = self.maps[n]
        for k in path:
            m = m.get(k) if isinstance(m, dict) else None
            if not isinstance(m, dict):
                return None
        return m

    def view(self, n, path):
        """Values seen in the nested set of a node"""
        out = {}
        for i in self.chain(n):
            m = self.local(i, path)
            for k, v in (m or {}).items():
                if k not in out:
                    out[k] = self.view(i, path + (k,)) if isinstance(v, dict) else v
        return out

    def has(self, n, path, key):
        return any(key in (self.local(i, path) or {}) for i in self.chain(n))

    def get(self, n, path, key):
        return self.view(n, path).get(key)

    def set(self, n, path, key, value):
        """path is a nested set defined by the node"""
        m = self.local(n, path)
        cur = self.view(n, path)
        if key in cur and cur[key] == value and value != {}:
            return
        if isinstance(value, dict):
            if not isinstance(m.get(key, {}), dict):
                raise RuntimeError("not a nested set")
            m.setdefault(key, {})
            for k, v in value.items():
                self.set(n, path + (key,), k, v)
        else:
            m[key] = value

    def delete(self, n, path, key):
        m = self.local(n, path)
        if m is not None:
            m.pop(key, None)
        for c in self.children(n):
            self.delete(c, path, key)


NVALUES = (1, 2, {"x": 1}, {"x": 2, "y": 1}, {})


def nested_ops(levels):
    out = []
    for i in range(3):
        for v in NVALUES + (({"s": {"x": 1}}, {"s": {"y": 2}, "x": 1}) if levels > 1 else ()):
            out.append(("set", i, (), "f", v))
        out.append(("del", i, (), "f"))
        for k in ("x", "y"):
            for v in (1, 2):
                out.append(("set", i, ("f",), k, v))
            out.append(("del", i, ("f",), k))
        if levels > 1:
            out.append(("set", i, ("f", "s"), "x", 2))
            out.append(("del", i, ("f", "s"), "x"))
    return out


def plain(v):
    from collections.abc import Mapping

    return {k: plain(x) for k, x in v.items()} if isinstance(v, Mapping) else v


def nested(ctx, parent, depth, part, nparts, levels=1, only=None):
    from spectrocrunch.pipelines.parameters import Node

    ops = only or nested_ops(levels)

    def run(hist):
        m = Nested(parent)
        nodes = [Node(name="n%d" % i) for i in range(3)]
        for i, p in enumerate(parent):
            if p is not None:
                nodes[i].parent = nodes[p]
        for j, (o, n, path, key, *value) in enumerate(hist):
            if path and m.local(n, path) is None:
                return None
            node = nodes[n]
            for k in path:
                node = node._getitem_local(k) if hasattr(node, "_getitem_local") else node[k]
            want = None
            try:
                if o == "set":
                    m.set(n, path, key, value[0])
                else:
                    m.delete(n, path, key)
            except RuntimeError:
                want = RuntimeError
            try:
                if o == "set":
                    node[key] = value[0]
                else:
                    del node[key]
                if want:
                    return False, "a value is replaced by a nested set"
            except RuntimeError as e:
                if not want:
                    return False, "raises %r" % (e,)
                return None
        for i in range(3):
            want = m.view(i, ())
            got = plain(nodes[i].todict())
            if got != want:
                return False, "node %d is %s instead of %s" % (i, got, want)
            for path in [("f",)] + ([("f", "s")] if levels > 1 else []):
                if m.local(i, path) is None:
                    continue
                sub = nodes[i]
                for k in path:
                    sub = sub[k]
                v = m.view(i, path)
                if plain(sub) != v or len(sub) != len(v) or set(sub) != set(v):
                    return False, "node %d%s is %s instead of %s" % (i, list(path), plain(sub), v)
                for k in ("x", "y"):
                    if sub.get(k, "default") != v.get(k, "default") or (k in sub) != (k in v):
                        return False, "node %d%s has %s=%r instead of %r" % (i, list(path), k, sub.get(k, "default"), v.get(k, "default"))
        for i in range(3):
            got = plain(nodes[i].todict(full=False))
            want = {k: (m.view(i, (k,)) if isinstance(v, dict) else v) for k, v in m.maps[i].items()}
            if got != want:
                return False, "node %d defines %s instead of %s" % (i, got, want)
        return True, None

    stack = [[op] for k, op in enumerate(ops if only is None else ops[:1]) if k % nparts == part]
    while stack:
        hist = stack.pop()
        case = {"nested": list(parent), "levels": levels, "ops": [list(o) for o in hist]}
        ctx.current = case
        try:
            res = run(hist)
        except Exception as e:  # noqa
            res = False, "raises %r" % (e,)
        if res is None:
            continue
        ctx.trans(1)
        if not res[0]:
            ctx.fail("nested:%s" % hist[-1][0], case, "%s: %s" % (case, res[1]))
            continue
        if len(hist) < depth:
            stack.extend(hist + [o] for o in (ops if only is None else ops[len(hist) : len(hist) + 1]))
        else:
            ctx.trace(1)


# ----------------------------------------------------------------

NP = 8


def shards(tier):
    t = tier == "thorough"
    out = []
    for kind in ("forest", "loose", "chain4", "single"):
        for p in range(NP):
            out.append({"explore": kind, "ops": "structure", "maxnodes": 5 if t else 4, "depth": None, "part": p})
    for kind in ("chain", "fork"):
        for p in range(NP):
            out.append({"explore": kind, "ops": "values", "depth": None, "part": p})
    for kind in ("chain", "loose", "forest"):
        for p in range(2 * NP):
            out.append({"histories": kind, "depth": 4 if t else 3 if kind == "chain" else 2, "part": p})
    for parent in ((None, 0, 1), (None, 0, 0)):
        for p in range(NP):
            out.append({"nested": list(parent), "depth": 4 if t else 3, "levels": 1, "part": p})
            out.append({"nested": list(parent), "depth": 3 if t else 2, "levels": 2, "part": p})
    return out


def run_shard(shard, ctx):
    ctx.current = {"shard": shard}
    if "explore" in shard:
        ops = valueops if shard["ops"] == "values" else lambda m: structural(m, shard["maxnodes"])
        explore(ctx, shard["explore"], ops, shard["depth"], shard["ops"], shard["part"], NP)
    elif "histories" in shard:
        histories(ctx, shard["histories"], shard["depth"], shard["part"], 2 * NP)
    else:
        nested(ctx, tuple(shard["nested"]), shard["depth"], shard["part"], NP, shard["levels"])


def tuples(x):
    return tuple(tuples(i) for i in x) if isinstance(x, list) else x


def replay(case, ctx):
    if "shard" in case:
        return run_shard(case["shard"], ctx)
    ops = [tuples(o) for o in case["ops"]]
    if "nested" in case:
        return nested(ctx, tuple(case["nested"]), len(ops), 0, 1, case["levels"], only=ops)
    if "start" in case:
        m = start(case["start"])
    else:
        m = Model(case["parent"], case["maps"])
    real = Real(m)
    for n in real.nodes:
        n.reset_state()
    for i, op in enumerate(ops):
        if not step(real, m, op, ctx, case, "replay"):
            return
