"""A03: walks through the static B+tree.  The step each walk takes at a node is extracted as a decision diagram and
evaluated for every position the key can have among the entries of a node; the answer is compared with the tree's shape."""
from ev import ev, Unknown
from rules import rule, params
from term import *
from util import *
from .codec import okpart, uncast
from .layout import calm, last

FINDS = ("Stree::find_exact", "Stree::stream_find_exact", "Stree::http_stream_find_exact")
RANGES = ("Stree::find_range", "Stree::stream_find_range", "Stree::http_stream_find_range")
PARTS = ("Stree::find_partition", "Stree::stream_find_partition", "Stree::http_stream_find_partition")
OPAQUE = ("generate_level_bounds", "read_node_items", "read_http_node_items", "PayloadEntry::deserialize", "batch_resolve_payloads",
          "prefetch_payload", "compute_payload_prefetch_size") + tuple(x.split("::")[1] for x in FINDS + PARTS)
SIZE, BASE, TAG = 20, 1 << 40, 1 << 63


def flow_of(cx, name):
    fn = cx.one(name)
    own = name.split("::")[1]
    fl, ret = cx.flow(fn, opaque=tuple(o for o in OPAQUE if o != own))
    return fn, fl, ret


class Shape:
    """a tree of a branching factor and a number of entries: levels from the leaves up, each (start, end)"""

    def __init__(self, bf, n):
        self.bf, self.ns, self.n = bf, bf - 1, n
        sizes = [n]
        while True:
            n = -(-n // bf)
            sizes.append(n)
            if n < bf:
                break
        end = sum(sizes)
        self.levels = []
        for s in sizes:
            self.levels.append((end - s, end))
            end -= s
        self.total = sum(sizes)

    def child(self, level, g):
        """first entry of the child left of entry g"""
        k = g - self.levels[level][0]
        return self.levels[level - 1][0] + (k // self.ns * self.bf + k % self.ns) * self.ns

    def nodes(self, level):
        s, e = self.levels[level]
        return list(range(s, e, self.ns))


SHAPES = [Shape(2, 7), Shape(3, 17), Shape(4, 30), Shape(5, 61), Shape(16, 700)]


def picks(sh, level):
    """some nodes of a level: first, second, last but one, last"""
    ns = sh.nodes(level)
    return sorted(set(ns[:2] + ns[-2:]))


class Place:
    """where a walk stands: level, first entry of the node, and how the key compares to the entries: ('=', j) or ('<', i) for i entries below it"""

    def __init__(self, sh, level, node, rel, end=None):
        self.sh, self.level, self.node, self.rel = sh, level, node, rel
        self.end = min(node + sh.ns, sh.levels[level][1]) if end is None else end
        self.bind = {}
        self.tag = False
        self.keys = {}
        self.n_items = None

    def order(self, k):
        """-1 if entry k of the node is below the key"""
        how, j = self.rel
        return (-1 if k < j else 0 if k == j else 1) if how == "=" else (-1 if k < j else 1)

    def offset(self, g):
        if self.level:
            return self.sh.child(self.level, g)
        return TAG | (16 * (g - self.sh.levels[0][0])) if self.tag else 5000 + g

    def env(self, x):
        v = self.bind.get(x)
        if v is not None:
            return v
        o = x.op
        if o == "param":
            return {"branching_factor": self.sh.bf, "node_size": self.sh.bf, "num_items": self.sh.n, "index_begin": BASE, "feature_begin": BASE << 1}.get(x.a[0])
        if o == "field":
            b, f = x.a[0], x.a[1]
            if f == "branching_factor":
                return self.sh.bf
            if f == "payload_initialized":
                return True
            if f == "num_leaf_nodes":
                return self.sh.n
            if f in ("start", "end"):
                r = self.bound(b)
                if r is not None:
                    return r[0 if f == "start" else 1]
            if f == "offset":
                g = self.entry(b)
                if g is not None:
                    return self.offset(g)
            return None
        if o == "len":
            if isbounds(x.a[0]):
                return len(self.sh.levels)
            if self.items(x.a[0]) is not None:
                a, b = self.items(x.a[0])
                return b - a
            if nodefield(x.a[0]):
                return self.sh.total
        if o == "discr":
            y = x.a[0]
            if y.op == "bsearch":
                self.check(y)
                return 0 if self.rel[0] == "=" else 1
            if y.op == "call":
                n = last(y.a[0])
                if n in ("pop_front", "pop", "pop_back"):
                    return 1
                if n in ("back_mut", "back", "last_mut", "last"):
                    return 0 if not isbounds(y.a[1][0]) else 1
                if n in ("get", "first"):
                    return 1
                if y.a[0].endswith(("read_node_items", "read_http_node_items", "deserialize", "prefetch_payload", "partition", "batch_resolve_payloads", "find_exact")):
                    return 0
        if o == "payload" and x.a[0].op == "bsearch":
            self.check(x.a[0])
            want = {"=": "Ok", "<": "Err"}[self.rel[0]]
            return self.rel[1] if x.a[1] == want else None
        if o == "ppoint":
            return self.count(x)
        if o == "more":
            return True
        if o in ("fails",):
            return False
        if o == "iook":
            return True
        if o == "pos0":
            return BASE
        if o == "posafter" and isinstance(x.a[0], str) and x.a[0].endswith("find_partition"):
            return BASE
        if o == "kconst" or o == "tconst":
            s = str(x.a[0])
            if s.endswith("SERIALIZED_SIZE"):
                return SIZE if "Entry" in s or "NodeItem" in s else SIZE - 8
            if s.endswith("OFFSET_SIZE"):
                return 8
        if o == "cmp":
            return self.compare(x)
        if o == "call" and last(x.a[0]) == "saturating_sub":
            return max(0, ev(x.a[1][0], self.env) - ev(x.a[1][1], self.env))
        if o == "call" and last(x.a[0]) == "is_empty" and self.items(x.a[1][0]):
            return False
        return None

    def compare(self, x):
        l, r = x.a
        if any(y.op == "call" and "log" in str(y.a[0]) or y.op == "agg" and "Level" in str(y.a[0]) for t in (l, r) for y in walk(t)):
            return 1
        for a, b, s in ((l, r, -1), (r, l, 1)):
            # the key on the left, an entry's key on the right
            if a in self.keys and b.op == "field" and b.a[1] == "key":
                g = self.entry(b.a[0])
                if g is not None:
                    return s * self.order(g - self.node)
                if b.a[0].op == "elem" and "probe" in self.bind:
                    return s * self.bind["probe"]
        return None

    def count(self, x):
        """how many entries of the node lie before the partition point"""
        n = self.end - self.node
        c = 0
        for k in range(n):
            self.bind["probe"] = self.order(k)
            try:
                if not ev(x.a[1], self.env):
                    break
            finally:
                del self.bind["probe"]
            c += 1
        return c

    def check(self, b):
        """the comparator of a binary search answers how the entry stands to the key"""
        if self.items(b.a[0]) is None:
            raise Unknown(b)
        if (b, self.level) in Place.good:
            return
        for o in (-1, 0, 1):
            self.bind["probe"] = o
            try:
                v = ev(b.a[1], self.env)
            finally:
                del self.bind["probe"]
            if v != ("agg", {-1: "Less", 0: "Equal", 1: "Greater"}[o]):
                raise Wrong("the search takes an entry %s the key for one that is %s" % ({-1: "below", 0: "equal to", 1: "above"}[o], v[1] if isinstance(v, tuple) else v))
        Place.good.add((b, self.level))

    good = set()

    def bound(self, t):
        """(start, end) of a level's range term"""
        if t.op == "index" and isbounds(t.a[0]):
            i = ev(t.a[1], self.env)
            if not 0 <= i < len(self.sh.levels):
                raise Wrong("level %d of %d is looked at" % (i, len(self.sh.levels)))
            return self.sh.levels[i]
        if t.op == "payload" and t.a[0].op == "call" and t.a[0].a[1] and isbounds(t.a[0].a[1][0]):
            n = last(t.a[0].a[0])
            if n == "last":
                return self.sh.levels[-1]
            if n == "first":
                return self.sh.levels[0]
            if n == "get":
                return self.sh.levels[ev(t.a[0].a[1][1], self.env)]
        return None

    def items(self, t):
        """range of entries a term stands for"""
        if t.op == "slice" and nodefield(t.a[0]):
            return ev(t.a[1], self.env), ev(t.a[2], self.env)
        r = reading(t)
        if r is not None:
            return self.read(r)
        return None

    def read(self, c):
        n, a = last(c.a[0]), c.a[1]
        if n == "read_node_items":
            b, i, l = (ev(y, self.env) for y in a[1:4])
        else:
            r = a[2]
            b = ev(a[1], self.env)
            i, e = self.rng(r)
            l = e - i
        if b != BASE:
            raise Wrong("entries are read %+d bytes from where the index begins" % (b - BASE))
        return i, i + l

    def rng(self, r):
        v = self.bind.get(r)
        if v is not None:
            return v
        if isrange(r):
            return ev(r.a[4], self.env), ev(r.a[5], self.env)
        raise Unknown(r)

    def entry(self, t):
        """number of the entry a term stands for"""
        if t.op == "index":
            if nodefield(t.a[0]):
                g = ev(t.a[1], self.env)
            else:
                r = self.items(t.a[0])
                if r is None:
                    return None
                k = ev(t.a[1], self.env)
                if not 0 <= k < r[1] - r[0]:
                    raise Wrong("entry %d of a node of %d is looked at" % (k, r[1] - r[0]))
                return r[0] + k
            return g
        if t.op == "payload" and t.a[0].op == "call" and t.a[0].a[1]:
            r = self.items(t.a[0].a[1][0])
            if r is not None:
                n = last(t.a[0].a[0])
                if n == "last":
                    return r[1] - 1
                if n == "first":
                    return r[0]
                if n == "get":
                    return r[0] + ev(t.a[0].a[1][1], self.env)
        return None


class Wrong(Exception):
    pass


def isbounds(t):
    return t.op == "field" and t.a[1] == "level_bounds" or t.op == "call" and str(t.a[0]).endswith("generate_level_bounds")


def nodefield(t):
    return t.op == "field" and t.a[1] == "node_items"


def reading(t):
    if t.op == "payload" and t.a[0].op == "call" and last(t.a[0].a[0]) in ("read_node_items", "read_http_node_items"):
        return t.a[0]
    return None


def comps(t):
    """leaves of a work item: (path, term)"""
    if t.op == "agg" and len(t.a) > 4:
        if isrange(t):
            return [((), t)]
        names = t.a[3] if isinstance(t.a[3], (tuple, list)) and t.a[3] else None
        out = []
        for i, x in enumerate(t.a[4:]):
            n = names[i] if names else str(i)
            out += [((n,) + p, y) for p, y in comps(x)]
        return out
    return [((), t)]


def isrange(t):
    return t.op == "agg" and str(t.a[0]).split("::")[-1] in ("Range", "RangeInclusive")


def at(t, path):
    for p in path:
        t = field(t, p, "") if not isinstance(p, tuple) else t
    return t


class Walk:
    """one walk from the root to a leaf: what the step depends on and where it goes"""

    def __init__(self, cx, name):
        self.cx, self.name = cx, name
        self.fn, self.fl, self.ret = flow_of(cx, name)
        ps = {p.a[0]: p for p in params(self.fn)}
        self.keys = {ps[k]: 0 for k in ("key", "lower", "upper") if k in ps} or {p: 0 for p in params(self.fn)[-1:]}
        fl = self.fl
        self.init, self.pushes, self.results = [], [], []
        for e in fl.events:
            if e.kind != "mutate" or last(e.name) not in ("push_back", "push_front", "push", "extend"):
                continue
            v = e.args[1]
            if hit(v):
                self.results.append(e)
            elif e.name.startswith("VecDeque") or poppy(e.args[0]) or not e.loops and v.op == "agg":
                (self.pushes if e.loops else self.init).append((e, v))
        self.queue = bool(self.pushes)
        self.pop = None
        if self.queue:
            pops = {x for e in fl.events for a in list(e.args) + [e.guard] if isinstance(a, T) for x in walk(a)
                    if x.op == "payload" and x.a[1] == "Some" and x.a[0].op == "call" and last(x.a[0].a[0]) in ("pop_front", "pop", "pop_back")}
            if len(pops) != 1:
                raise Unknown(mk("call", "pop", tuple(pops)))
            self.pop = pops.pop()
            if len(self.init) != 1:
                raise Unknown(self.pop)
            self.roles = self.classify()
        else:
            self.loopvars()

    def classify(self):
        """which component of a work item is the node, which the level"""
        sh = SHAPES[1]
        p = Place(sh, len(sh.levels) - 1, 0, ("<", 0))
        p.keys = self.keys
        out = {}
        for path, t in comps(self.init[0][1]):
            if t.op == "agg":
                out["range"] = path
                continue
            v = ev(t, p.env)
            if v == 0 and "node" not in out and v != len(sh.levels) - 1:
                out["node"] = path
            elif v == len(sh.levels) - 1:
                out["level"] = path
        if "level" not in out or not ("node" in out or "range" in out):
            raise Unknown(self.init[0][1])
        return out

    def loopvars(self):
        """the loop variable that is the node's first entry, and the term for the level"""
        fl = self.fl
        reads = []
        for e in fl.events:
            for a in list(e.args) + [e.guard]:
                for x in walk(a) if isinstance(a, T) else ():
                    if x.op == "slice" and nodefield(x.a[0]):
                        reads.append((x.a[1], x.a[2]))
                    r = reading(x)
                    if r is not None:
                        reads.append((r.a[1][2], r.a[1][3]) if last(r.a[0]) == "read_node_items" else (r.a[1][2].a[4], r.a[1][2].a[5]) if r.a[1][2].op == "agg" else None)
        reads = [r for r in dict.fromkeys(reads) if r and any(x.op == "lv" for x in walk(r[0]))]
        nodes = {r[0] for r in reads}
        if len(nodes) != 1 or list(nodes)[0].op != "lv":
            raise Unknown(mk("call", "reads", tuple(nodes)))
        self.node = nodes.pop()
        self.li = fl.loops[self.node]
        lev = {x.a[1] for r in reads for t in r for x in walk(t) if x.op == "index" and isbounds(x.a[0])}
        lev = {t for t in lev if t.op != "const"}
        if len(lev) != 1:
            raise Unknown(mk("call", "levels", tuple(lev)))
        self.lev = lev.pop()

    def place(self, sh, level, node, rel, end=None):
        p = Place(sh, level, node, rel, end)
        p.keys = self.keys
        if self.queue:
            for role, path in self.roles.items():
                for x in self.fields(self.pop, path):
                    if role == "node":
                        p.bind[x] = node
                    elif role == "level":
                        p.bind[x] = level
                    else:
                        p.bind[x] = (node, p.end)
                if role == "range":
                    for x in self.fields(self.pop, path + ("start",)):
                        p.bind[x] = node
                    for x in self.fields(self.pop, path + ("end",)):
                        p.bind[x] = p.end
        else:
            p.bind[self.node] = node
            t, c = self.lev, 0
            if t.op == "lin" and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
                t, c = t.a[1][0][0], t.a[0]
            p.bind[t] = level - c
        return p

    def fields(self, base, path):
        """terms of a path of fields, whatever type their owner is noted with"""
        if not hasattr(self, "_all"):
            self._all = set()
            ts = [a for e in self.fl.events for a in list(e.args) + [e.guard] if isinstance(a, T)] + [self.ret]
            ts += [li.next for li in self.fl.loops.values() if li.next is not None]
            seen = set()
            for t in ts:
                for x in walk(t):
                    if x.op == "field":
                        self._all.add(x)
        cur = {base}
        for f in path:
            cur = {x for x in self._all if x.a[0] in cur and str(x.a[1]) == str(f)}
        return cur

    def step(self, p):
        """where the walk goes from a place: list of (level, first entry, end or None)"""
        if not self.queue:
            return [(None, ev(self.li.next, p.env), None)]
        out = []
        for e, v in self.pushes:
            if ev(e.guard, p.env):
                c = dict(comps(v))
                lv = ev(c[self.roles["level"]], p.env)
                if "range" in self.roles:
                    r = c[self.roles["range"]]
                    out.append((lv, ev(r.a[4], p.env), ev(r.a[5], p.env)))
                else:
                    out.append((lv, ev(c[self.roles["node"]], p.env), None))
        return out


def hit(v):
    return v.op == "agg" and str(v.a[0]).endswith(("SearchResultItem", "PayloadRef", "HttpSearchResultItem"))


def poppy(t):
    return any(x.op == "call" and str(x.a[0]) in ("Vec::pop", "Vec::remove", "Vec::swap_remove") for x in walk(t))


CASES = (("equal", "key equal to an entry"), ("below", "key below every entry"), ("between", "key between entries"), ("above", "key above every entry"))


def cases(sh, level, node):
    n = min(node + sh.ns, sh.levels[level][1]) - node
    for j in range(n):
        yield "equal", ("=", j)
    for i in range(n + 1):
        yield ("below" if i == 0 else "above" if i == n else "between"), ("<", i)


def wanted(sh, level, node, rel):
    """first entry of the child that holds a key standing so to the entries of the node"""
    how, j = rel
    n = min(node + sh.ns, sh.levels[level][1]) - node
    s, e = sh.levels[level - 1]
    if how == "=":
        c = sh.child(level, node + j)
        return c + sh.ns if c + sh.ns < e else c
    if j < n:
        return sh.child(level, node + j)
    c = sh.child(level, node + n - 1) + sh.ns
    return c if c < e else None


@rule("A03")
def descents(cx):
    rep = cx.rep
    for name in FINDS + PARTS:
        nm = name.split("::")[1]
        try:
            w = Walk(cx, name)
        except Unknown as u:
            rep.open("descent", nm, "", "the walk is not recognised: %s" % show(u.args[0], 4))
            continue
        except Wrong as u:
            rep.bad("descent", nm, "", str(u))
            continue
        loc = w.fn.loc()
        begin(rep, nm, w, loc)
        done, left = {}, {}
        for sh in SHAPES:
            for level in range(1, len(sh.levels)):
                for node in picks(sh, level):
                    for kind, rel in cases(sh, level, node):
                        want = wanted(sh, level, node, rel)
                        if want is None or done.get(kind, (0,))[0] in ("bad", "open"):
                            continue
                        p = w.place(sh, level, node, rel)
                        try:
                            got = w.step(p)
                        except Unknown as u:
                            done[kind] = ("open", show(u.args[0], 4))
                            continue
                        except Wrong as u:
                            done[kind] = ("bad", str(u))
                            continue
                        here = "branching factor %d, %d entries, level %d, node at %d, %s" % (sh.bf, sh.n, level, node, "entry %d equal" % rel[1] if rel[0] == "=" else "%d entries below" % rel[1])
                        if len(got) != 1:
                            done[kind] = ("bad", "%s: %d children are visited" % (here, len(got)))
                        elif got[0][1] != want and kind == "equal" and got[0][1] == sh.child(level, node + rel[1]):
                            left.setdefault(0, "%s: the child at %s is visited, the key lies in the one at %d" % (here, got[0][1], want))
                        elif got[0][1] != want:
                            done[kind] = ("bad", "%s: the child at %s is visited, the key lies in the one at %d" % (here, got[0][1], want))
                        elif got[0][0] not in (None, level - 1):
                            done[kind] = ("bad", "%s: goes on at level %s" % (here, got[0][0]))
                        elif got[0][2] is not None and not min(want + sh.ns, sh.levels[level - 1][1]) <= got[0][2] <= min(want + sh.ns + 1, sh.levels[level - 1][1]):
                            done[kind] = ("bad", "%s: of the child, entries %d to %d are read, it ends at %d" % (here, want, got[0][2], min(want + sh.ns, sh.levels[level - 1][1])))
                        else:
                            done.setdefault(kind, ("ok", 0))
        for kind, text in CASES:
            k = "%s: %s" % (nm, text)
            if kind == "equal" and left and done.get(kind, ("ok",))[0] == "ok":
                rep.bad("descent", k + " (goes left of it)", loc, left[0])
                continue
            st, msg = done.get(kind, ("open", "no such case"))
            (rep.ok if st == "ok" else rep.bad if st == "bad" else rep.open)("descent", k, loc, *([] if st == "ok" else [msg]))
        extent(rep, nm, w, loc)
        if name in FINDS:
            arrival(cx, rep, nm, w, loc)
    rep.floor("descent", 20)


def begin(rep, nm, w, loc):
    """walks start at the root and end at the leaves"""
    K = nm + ": from the root to the leaves"
    try:
        for sh in SHAPES:
            top = len(sh.levels) - 1
            p = w.place(sh, top, 0, ("<", 0))
            if w.queue:
                c = dict(comps(w.init[0][1]))
                lv = ev(c[w.roles["level"]], p.env)
                r = c.get(w.roles.get("range"))
                node = ev(r.a[4], p.env) if r is not None else ev(c[w.roles["node"]], p.env)
                end = ev(r.a[5], p.env) if r is not None else None
                if lv != top or node != 0 or end not in (None, sh.levels[top][1]):
                    return rep.bad("descent", K, loc, "begins at entry %s of level %s, the root is at level %d" % (node, lv, top))
                for q in [q for q in w.fl.exits.get(w.pushes[0][0].loops[0], ()) if not q[2]]:
                    for level in range(0, top + 1):
                        p = w.place(sh, level, sh.levels[level][0], ("=", 0))
                        if ev(calm(q[1]), p.env):
                            return rep.bad("descent", K, loc, "may end at level %d before the leaf is looked at" % level)
            else:
                node = ev(w.li.init, p.env)
                if node != 0:
                    return rep.bad("descent", K, loc, "begins at entry %s" % node)
                t = w.lev
                if t.op == "elem" or any(x.op == "elem" for x in walk(t)):
                    got = levels_of(t, p)
                    if got is None:
                        return rep.open("descent", K, loc, show(t, 4))
                    if got != list(range(top, 0, -1)):
                        return rep.bad("descent", K, loc, "levels %s are walked through of %d" % (got, top + 1))
                    for d, g in early_exits(w.fl, w.li.key):
                        for level in range(1, top + 1):
                            p = w.place(sh, level, sh.levels[level][0], ("=", 0))
                            if ev(calm(g), p.env):
                                return rep.bad("descent", K, loc, "may end at level %d" % level)
                else:
                    got = countdown(w, sh, top)
                    if got is None:
                        return rep.open("descent", K, loc, show(t, 4))
                    if got != list(range(top, 0, -1)):
                        return rep.bad("descent", K, loc, "levels %s are walked through of %d" % (got, top + 1))
    except Unknown as u:
        return rep.open("descent", K, loc, show(u.args[0], 4))
    except Wrong as u:
        return rep.bad("descent", K, loc, str(u))
    rep.ok("descent", K, loc)


def levels_of(t, p):
    """numbers an element of a counted loop takes"""
    es = [x for x in walk(t) if x.op == "elem"]
    if len(es) != 1:
        return None
    r = es[0].a[0]
    back = False
    while r.op == "rev":
        back, r = not back, r.a[0]
    if not isrange(r):
        return None
    a, b = ev(r.a[4], p.env), ev(r.a[5], p.env)
    ns = list(range(a, b + (1 if "Inclusive" in str(r.a[0]) else 0)))
    if back:
        ns = ns[::-1]
    out = []
    for n in ns:
        p.bind[es[0]] = n
        out.append(ev(t, p.env))
    del p.bind[es[0]]
    return out


def countdown(w, sh, top):
    """levels a loop with a level variable walks through"""
    vs = [x for x in walk(w.lev) if x.op == "lv"]
    if len(set(vs)) != 1 or vs[0] not in w.fl.loops:
        return None
    li = w.fl.loops[vs[0]]
    p = w.place(sh, top, 0, ("<", 0))
    cur = ev(li.init, p.env)
    out = []
    exits = [g for d, g, f in w.fl.exits.get(li.key, ()) if not f]
    for _ in range(20):
        p = w.place(sh, top, 0, ("<", 0))
        p.bind[vs[0]] = cur
        p.level = max(1, min(top, ev(w.lev, p.env)))
        p.node = sh.levels[p.level][0]
        p.bind[w.node] = p.node
        p.end = min(p.node + sh.ns, sh.levels[p.level][1])
        if any(ev(g, p.env) for g in exits):
            return out
        out.append(ev(w.lev, p.env))
        cur = ev(li.next, p.env)
    return None


def extent(rep, nm, w, loc):
    """the entries looked at are exactly those of the node"""
    K = nm + ": entries of a node"
    its = {x for e in w.fl.events for a in list(e.args) + [e.guard] if isinstance(a, T) for x in walk(a) if x.op == "slice" and nodefield(x.a[0]) or reading(x) is not None}
    if w.queue and "range" in w.roles:
        return                       # the range travels with the work item
    n = 0
    try:
        for sh in SHAPES:
            for level in range(0 if w.queue else 1, len(sh.levels)):
                for node in picks(sh, level):
                    p = w.place(sh, level, node, ("<", 0))
                    for x in its:
                        if not w.queue and not any(y is w.node for y in walk(x)):
                            continue
                        a, b = p.items(x)
                        n += 1
                        if (a, b) != (node, p.end):
                            return rep.bad("descent", K, loc, "branching factor %d, %d entries: of the node %d to %d, entries %d to %d are looked at" % (sh.bf, sh.n, node, p.end, a, b))
    except Unknown as u:
        return rep.open("descent", K, loc, show(u.args[0], 4))
    except Wrong as u:
        return rep.bad("descent", K, loc, str(u))
    (rep.ok if n else rep.open)("descent", K, loc)


# ------------------------------------------------------------------ what is found at a leaf
def arrival(cx, rep, nm, w, loc):
    """at a leaf every offset stored under the key is a result, nothing else is"""
    out = {}
    for sh in SHAPES[:4]:
        for level in (0, 1):
            for node in picks(sh, level):
                for kind, rel in cases(sh, level, node):
                    for tag in (False, True):
                        K = "group" if tag else "single"
                        if level or rel[0] != "=":
                            K = "nothing else"
                        if out.get(K, ("ok",))[0] != "ok":
                            continue
                        p = w.place(sh, level, node, rel)
                        p.tag = tag
                        try:
                            r = gather(w, p)
                        except Unknown as u:
                            out[K] = ("open", show(u.args[0], 4))
                            continue
                        except Wrong as u:
                            out[K] = ("bad", str(u))
                            continue
                        g = node + rel[1]
                        if K == "nothing else":
                            if r:
                                out[K] = ("bad", "%s is a result of a %s" % (r[0], "key that is not stored" if not level else "node that is not a leaf"))
                                continue
                        else:
                            want = ("group", 16 * (g - sh.levels[0][0])) if tag else ("one", 5000 + g)
                            if [x for x in r if x[0] == "?"]:
                                out[K] = ("open", "%s" % (r,))
                                continue
                            if r != [want]:
                                out[K] = ("bad", "an entry %s gives %s" % ("with several offsets" if tag else "with one offset", said(r, sh)))
                                continue
                        out.setdefault(K, ("ok",))
    for K in ("single", "group", "nothing else"):
        st = out.get(K, ("open", "no such case"))
        (rep.ok if st[0] == "ok" else rep.bad if st[0] == "bad" else rep.open)("found", "%s: %s" % (nm, K), loc, *st[1:])
    given(rep, nm, w.fl, w.ret, [e for e in w.results], loc)


def said(r, sh):
    if not r:
        return "nothing"
    return ", ".join({"one": "the offset of entry %s" % (x[1] - 5000 if isinstance(x[1], int) else x[1]), "group": "the group at %s" % x[1], "part": "a part of the group (%s)" % x[1]}.get(x[0], str(x)) for x in r)


def gather(w, p, skip=()):
    """results of one visit, in the terms of the stored offsets"""
    out = []
    for e in w.results:
        g = assign(e.guard, lambda a: True if is_more(a) else None)
        if not ev(g, p.env):
            continue
        v = e.args[1]
        out.append(one(w, p, e, v))
    return out


def one(w, p, e, v):
    names = list(v.a[3])
    f = dict(zip(names, v.a[4:]))
    if str(v.a[0]).endswith("PayloadRef"):
        x = ev(v.a[4], p.env)
        return ("one", x) if v.a[2] == "Direct" else ("group", x)
    t = uncast(f["offset"]) if "offset" in f else v.a[4]
    if t.op == "elem" and groupy(t.a[0]):
        # one result for each offset of the group
        part = [x for x in e.loops if x not in w_loops(w)]
        src = [s for k in e.loops for s in itsource(k, w.fl) if groupy(plainest(s))]
        if any(early_exits(w.fl, k) for k in e.loops[-1:]):
            return ("part", "the loop over it may end early")
        s = src[0] if src else t.a[0]
        if s.op in ("skip", "take", "slice", "filter", "step") or s.op == "call" and last(s.a[0]) in ("skip", "take", "step_by", "filter"):
            return ("part", show(s, 3))
        return ("group", where_group(w, p, t.a[0]))
    if groupy(t) or any(groupy(y) for y in walk(t)):
        return ("part", show(t, 4))
    x = ev(t, p.env)
    return ("one", x)


def w_loops(w):
    return set()


def plainest(s):
    while s.op in ("rev", "skip", "take", "filter", "step") or s.op == "call" and s.a[1]:
        s = s.a[0] if s.op != "call" else s.a[1][0]
    return s


def groupy(t):
    """the offsets of a group that was read"""
    return t.op == "field" and t.a[1] == "offsets" and any(x.op == "call" and str(x.a[0]).endswith("deserialize") for x in walk(t))


def where_group(w, p, t):
    """place of the group within the payload section"""
    c = [x for x in walk(t) if x.op == "call" and str(x.a[0]).endswith("deserialize")][0]
    a = c.a[1][0]
    if a.op == "call" and last(a.a[0]) == "new":
        s = a.a[1][0]
        if s.op == "slice" and s.a[0].op == "field" and s.a[0].a[1] == "payload_data":
            if s.a[2].op != "unit":
                raise Unknown(s)
            return ev(s.a[1], p.env)
        raise Unknown(s)
    # a stream: the last seek before
    last_seek = None
    for e in w.fl.events:
        if e.kind == "io" and last(e.name) == "seek" and ev(assign(e.guard, lambda x: True if is_more(x) else None), p.env):
            last_seek = e
        if e.kind == "call" and e.name.endswith("deserialize") and e.ret is c:
            break
    if last_seek is None:
        raise Unknown(c)
    s = last_seek.args[1]
    if s.op != "agg" or s.a[2] != "Start":
        raise Unknown(s)
    return ev(s.a[4], p.env) - BASE - SIZE * p.sh.total


def given(rep, nm, fl, ret, results, loc):
    """what was gathered is what is returned"""
    val = okpart(ret)
    K = nm + ": returned"
    vals = [v for v in leaves(val)]
    bad = []
    for v in vals:
        if v.op == "lv" or v.op == "empty" or v.op == "undef":
            continue
        if v.op == "payload" and v.a[0].op == "call" and str(v.a[0].a[0]).endswith("batch_resolve_payloads"):
            r = v.a[0].a[1][1]
            if r.op in ("lv", "empty", "rev", "sorted"):
                continue
            bad.append(r)
            continue
        if v.op == "payload" and v.a[0].op == "call" and "find_exact" in str(v.a[0].a[0]):
            continue
        if v.op in ("sorted", "rev", "dedup") and v.a[0].op == "lv":
            continue
        bad.append(v)
    cut = [v for v in bad if v.op in ("slice", "take", "skip", "trunc") or v.op == "call" and last(v.a[0]) in ("truncate", "drain", "split_off", "take", "skip")]
    if cut:
        rep.bad("found", K, loc, "only %s of what was found" % show(cut[0], 4))
    elif bad:
        rep.open("found", K, loc, show(bad[0], 4))
    else:
        rep.ok("found", K, loc)


# ------------------------------------------------------------------ ranges
class Scan(Place):
    """a scan of the leaves: the entry looked at, and where the bounds stand among the stored keys (entry k has rank 2k, a key between two entries an odd one)"""

    def __init__(self, sh, lo, hi):
        Place.__init__(self, sh, 0, sh.levels[0][0], ("<", 0))
        self.lo, self.hi = lo, hi
        self.ranks = {}
        self.g = None

    def partition(self, rank):
        """the leaf node a correct descent ends in"""
        k = max(0, min(rank // 2, self.sh.n - 1))
        return self.sh.levels[0][0] + k // self.sh.ns * self.sh.ns

    def env(self, x):
        if x in self.bind:
            return self.bind[x]
        if x.op == "payload" and x.a[1] == "Ok" and x.a[0].op == "call" and str(x.a[0].a[0]).endswith("find_partition"):
            ks = [a for a in x.a[0].a[1] if a in self.ranks]
            if len(ks) != 1:
                raise Unknown(x)
            return self.partition(self.ranks[ks[0]])
        if x.op == "call" and x.a[0].endswith("RangeInclusive::contains") or x.op == "call" and last(x.a[0]) == "contains" and isrange(x.a[1][0]):
            r, k = x.a[1]
            inc = str(r.a[0]).endswith("RangeInclusive")
            a, b = (self.rank(y) for y in r.a[4:6])
            v = self.rank(k)
            if None in (a, b, v):
                raise Unknown(x)
            return a <= v and (v <= b if inc else v < b)
        return Place.env(self, x)

    def rank(self, t):
        if t in self.ranks:
            return self.ranks[t]
        if t.op == "field" and t.a[1] == "key":
            g = self.entry(t.a[0])
            if g is not None:
                return 2 * (g - self.sh.levels[0][0])
        return None

    def compare(self, x):
        a, b = (self.rank(y) for y in x.a)
        if a is not None and b is not None:
            return (a > b) - (a < b)
        return Place.compare(self, x)

    def entry(self, t):
        if t.op == "elem" and self.items(t.a[0]) is not None:
            return self.g
        return Place.entry(self, t)


def termsof(fl):
    for e in fl.events:
        for a in list(e.args) + [e.guard]:
            if isinstance(a, T):
                yield e, a


@rule("A03")
def ranges(cx):
    rep = cx.rep
    for name in RANGES:
        nm = name.split("::")[1]
        fn, fl, ret = flow_of(cx, name)
        loc = fn.loc()
        ps = {p.a[0]: p for p in params(fn)}
        if "lower" in ps and "upper" in ps:
            lo, hi = ps["lower"], ps["upper"]
        else:
            lo, hi = [p for p in params(fn) if p.a[0] not in ("combine_request_threshold",)][-2:]
        results = [e for e in fl.events if e.kind == "mutate" and last(e.name) in ("push", "push_back") and hit(e.args[1])]
        its = {x for e, a in termsof(fl) for x in walk(a) if x.op == "slice" and nodefield(x.a[0]) or reading(x) is not None}
        its = {x for x in its if any(y.op == "elem" and y.a[0] is x for e, a in termsof(fl) for y in walk(a))}
        w = type("W", (), {})()
        w.fl, w.results = fl, results
        out = {}

        def say(k, st, *msg):
            if out.get(k, ("ok",))[0] == "ok":
                out[k] = (st,) + msg
        for sh in SHAPES[:3]:
            for a, b, tag in [x + (t,) for t in (False, True) for x in bounds(sh)]:
                p = Scan(sh, a, b)
                p.tag = tag
                p.ranks = {lo: a, hi: b}
                p.keys = {lo: 0, hi: 0}
                kind = "lower bound below the upper" if a < b else "equal bounds" if a == b else "lower bound above the upper"
                if out.get(kind, ("ok",))[0] != "ok":
                    continue
                try:
                    got = scan(cx, fn, w, p, ret, its, (lo, hi))
                except Unknown as u:
                    say(kind, "open", show(u.args[0], 4))
                    continue
                except Wrong as u:
                    say(kind, "bad", str(u))
                    continue
                s = sh.levels[0][0]
                want = [k for k in range(sh.n) if a <= 2 * k <= b]
                if got == "exact":
                    say(kind, "ok" if a == b else "bad", "answers with the entries equal to one bound")
                    continue
                here = "branching factor %d, %d entries, bounds %s" % (sh.bf, sh.n, " and ".join("at entry %d" % (r // 2) if r % 2 == 0 else "between entries %d and %d" % (r // 2, r // 2 + 1) for r in (a, b)))
                odd = [r for r in got if r[0] == "?"]
                if odd:
                    say(kind, "open", str(odd[0]))
                    continue
                exp = [("group", 16 * k) if p.tag else ("one", 5000 + s + k) for k in want]
                if sorted(map(str, got)) != sorted(map(str, exp)):
                    miss = [x for x in exp if x not in got]
                    more = [x for x in got if x not in exp]
                    tw = [x for x in exp if got.count(x) > 1]
                    say(kind, "bad", "%s: %s" % (here, "%d entries of the range are left out (%s)" % (len(miss), said(miss[:1], sh)) if miss else "%s outside the range" % said(more[:1], sh) if more else "%s twice" % said(tw[:1], sh)))
                else:
                    say(kind, "ok")
        for kind in ("lower bound below the upper", "equal bounds", "lower bound above the upper"):
            st = out.get(kind, ("open", "no such case"))
            k = "%s: %s" % (nm, kind)
            (rep.ok if st[0] == "ok" else rep.bad if st[0] == "bad" else rep.open)("range", k, loc, *([] if st[0] == "ok" else st[1:]))
        given(rep, nm, fl, ret, results, loc)
        passed(cx, rep, nm, fn, fl, ps, lo, hi, loc)
    rep.floor("range", 9)


def bounds(sh):
    n = 2 * sh.n
    ps = sorted({-1, 0, 1, 2 * sh.ns - 1, 2 * sh.ns, 2 * sh.ns + 1, 2 * sh.bf * sh.ns, n // 2, n - 3, n - 2, n - 1})
    return [(a, b) for a in ps for b in ps]


def scan(cx, fn, w, p, ret, its, keys):
    """results of the whole function for a pair of bounds, or 'exact' where the exact search answers"""
    fl = w.fl
    val = okpart(ret)

    v = pick(assign(val, lambda a: False if a.op == "fails" else None), p)
    if v.op == "empty":
        return []
    if v.op == "call" and str(v.a[0]).endswith("find_exact") or v.op == "payload" and v.a[0].op == "call" and str(v.a[0].a[0]).endswith("find_exact"):
        return "exact"
    return sweep(w, p, its)


def pick(t, p):
    """the branch of a case distinction that is taken"""
    while t.op == "sw":
        v = ev(t.a[0], p.env)
        for k, c in t.a[1]:
            if k == v and (type(k) is type(v) or not isinstance(k, bool) and not isinstance(v, bool)):
                t = c
                break
        else:
            if t.a[2] is None:
                raise Unknown(t)
            t = t.a[2]
    return t


def sweep(w, p, its):
    fl = w.fl
    if not w.results:
        raise Unknown(mk("call", "no results", ()))
    outer = None
    var = {x for r in its for x in walk(r) if x.op == "lv" and any(x.a[0] == l for e in w.results for l in e.loops)}
    el = {x for r in its for x in walk(r) if x.op == "elem"}
    out = []
    if len(var) > 1:
        raise Unknown(mk("call", "vars", tuple(var)))
    # loops of a result from the outside in; the one over the entries of a node
    over = None
    for k in {l for e in w.results for l in e.loops}:
        for s in itsource(k, fl):
            if s in its or s.op == "enum" and s.a[0] in its:
                over = k
    if over is None:
        raise Unknown(mk("call", "no loop over entries", ()))

    def visit():
        rs = {x for x in its}
        if len(rs) != 1:
            raise Unknown(mk("call", "reads", tuple(rs)))
        r = rs.pop()
        a, b = p.items(r)
        s, e = p.sh.levels[0]
        if a < b and not (s <= a and b <= e):
            raise Wrong("entries %d to %d are looked at, the leaves are %d to %d" % (a, b, s, e))
        if a > b:
            raise Wrong("entries %d to %d are looked at" % (a, b))
        for g in range(a, b):
            p.g = g
            out.extend(gather(w, p))
            if any(ev(assign(gd, lambda t: True if is_more(t) else None), p.env) for d, gd in early_exits(fl, over)):
                break
    if not var and not el:
        visit()
        return out
    if var:
        lv = var.pop()
        li = fl.loops[lv]
        cur = ev(li.init, p.env)
        exits = [g for d, g, f in fl.exits.get(li.key, ()) if not f]
        for _ in range(4 * p.sh.total + 8):
            p.bind[lv] = cur
            p.g = None
            if any(ev(g, p.env) for g in exits):
                return out
            visit()
            nxt = ev(li.next, p.env)
            if nxt == cur:
                raise Wrong("the scan does not get past entry %d" % cur)
            cur = nxt
        raise Wrong("the scan does not end")
    if len(el) != 1:
        raise Unknown(mk("call", "elems", tuple(el)))
    x = el.pop()
    c = x.a[0]
    step = 1
    if c.op == "call" and last(c.a[0]) == "step_by":
        step, c = ev(c.a[1][1], p.env), c.a[1][0]
    elif c.op == "step_by":
        step, c = ev(c.a[1], p.env), c.a[0]
    if not isrange(c):
        raise Unknown(c)
    a, b = p.rng(c)
    for i in range(a, b, step):
        p.bind[x] = i
        visit()
    return out


def passed(cx, rep, nm, fn, fl, ps, lo, hi, loc):
    """what the inner searches are given: the same tree, the same bounds"""
    n = 0
    for e in fl.events:
        if e.kind != "call" or not e.name.startswith("Stree::") or not e.name.endswith(("find_partition", "find_exact")):
            continue
        f = cx.one(e.name)
        for q, a in zip(params(f), e.args):
            a = uncast(a)
            k = "%s: %s of %s" % (nm, q.a[0], e.name.split("::")[1])
            n += 1
            if q.a[0] in ps and q.a[0] not in ("lower", "upper", "key"):
                if a is ps[q.a[0]]:
                    rep.ok("range", k, e.loc)
                elif q.a[0] == "combine_request_threshold":
                    continue
                elif a.op == "param":
                    rep.bad("range", k, e.loc, "the %s is given instead" % a.a[0])
                else:
                    rep.open("range", k, e.loc, show(a, 4))
            elif a in (lo, hi):
                rep.ok("range", k, e.loc)
    if not n:
        rep.open("range", nm + ": inner searches", loc, "none")


# ------------------------------------------------------------------ recurrences
class Recur:
    """values of the terms of a function whose loops are recurrences over numbers and lists, for given parameters"""

    def __init__(self, fl, given, limit=4000):
        self.fl, self.given, self.limit = fl, given, limit
        self.heads, self.pos = {}, {}
        self.done = set()

    def val(self, t):
        return ev(t, self.env)

    def env(self, x):
        o = x.op
        if x in self.heads:
            return self.heads[x]
        if o == "param" and x.a[0] in self.given:
            return self.given[x.a[0]]
        if o == "empty":
            return ()
        if o == "push":
            return self.val(x.a[0]) + (self.val(x.a[1]),)
        if o == "len":
            return len(self.val(x.a[0]))
        if o == "index":
            c, i = self.val(x.a[0]), self.val(x.a[1])
            if not 0 <= i < len(c):
                raise Wrong("entry %d of %d is looked at" % (i, len(c)))
            return c[i]
        if isrange(x):
            a, b = self.val(x.a[4]), self.val(x.a[5])
            return range(a, b + (1 if str(x.a[0]).endswith("Inclusive") else 0))
        if o == "rev":
            return tuple(self.val(x.a[0]))[::-1]
        if o == "more":
            k = x.a[0]
            return self.at(k) < len(self.coll(k))
        if o == "elem":
            lv = self.iter_of(x.a[0])
            if lv is None:
                raise Unknown(x)
            c = self.coll(lv)
            if self.at(lv) >= len(c):
                raise Unknown(x)
            return c[self.at(lv)]
        if o == "lv" and x.a[0] not in self.done:
            self.run(x.a[0])
            return self.heads.get(x)
        if o in ("kconst", "tconst") and str(x.a[0]).endswith("SERIALIZED_SIZE"):
            return SIZE
        return None

    def iters(self, key):
        return [lv for lv, li in self.fl.loops.items() if li.key == key and li.next is not None and any(y.op == "adv" for y in leaves(li.next))]

    def iter_of(self, c):
        for lv, li in self.fl.loops.items():
            if li.init is c and lv in self.pos:
                return lv
        return None

    def at(self, lv):
        if lv not in self.pos:
            self.run(lv.a[0])
        return self.pos.get(lv, 0)

    def coll(self, lv):
        li = self.fl.loops[lv]
        return self.val(li.init)

    def run(self, key):
        """walks through a loop until it ends"""
        if key in self.done:
            return
        self.done.add(key)
        vs = [(lv, li) for lv, li in self.fl.loops.items() if li.key == key]
        its = set(self.iters(key))
        num = [(lv, li) for lv, li in vs if lv not in its]
        for lv in its:
            self.pos[lv] = 0
        live = []
        for lv, li in num:
            try:
                self.heads[lv] = self.val(li.init)
                live.append((lv, li))
            except Unknown:
                pass
        exits = [g for d, g, f in self.fl.exits.get(key, ()) if not f]
        for _ in range(self.limit):
            if any(self.val(assign(g, unfailing)) for g in exits):
                return
            new = {}
            for lv, li in live:
                try:
                    new[lv] = self.val(li.next)
                except Unknown:
                    pass
            self.heads.update(new)
            for lv in its:
                self.pos[lv] += 1
        raise Wrong("a loop does not end")


def unfailing(a):
    return False if a.op == "fails" else None


@rule("A03")
def levels(cx):
    """the shape every walk relies on"""
    rep = cx.rep
    fn = cx.one("Stree::generate_level_bounds")
    fl, ret = cx.flow(fn)
    K = "generate_level_bounds: levels"
    st = ("ok",)
    for sh in SHAPES + [Shape(2, 1), Shape(2, 2), Shape(3, 3), Shape(3, 9), Shape(7, 49), Shape(16, 1), Shape(16, 15), Shape(16, 16), Shape(16, 257)]:
        try:
            m = Recur(fl, {"num_items": sh.n, "branching_factor": sh.bf})
            v = m.val(calm(ret))
            got = [(r.start, r.stop) if isinstance(r, range) else r for r in v]
        except Unknown as u:
            st = ("open", show(u.args[0], 4))
            break
        except Wrong as u:
            st = ("bad", str(u))
            break
        if got != sh.levels:
            st = ("bad", "branching factor %d, %d entries: levels %s, they are %s" % (sh.bf, sh.n, got, sh.levels))
            break
    (rep.ok if st[0] == "ok" else rep.bad if st[0] == "bad" else rep.open)("shape", K, fn.loc(), *st[1:])
    fn = cx.one("Stree::index_size")
    fl, ret = cx.flow(fn)
    st = ("ok",)
    for sh in SHAPES:
        for pay in (0, 37):
            try:
                got = Recur(fl, {"num_items": sh.n, "branching_factor": sh.bf, "payload_size": pay}).val(calm(ret))
            except Unknown as u:
                st = ("open", show(u.args[0], 4))
                break
            except Wrong as u:
                st = ("bad", str(u))
                break
            if got != sh.total * SIZE + pay:
                st = ("bad", "branching factor %d, %d entries: %d bytes instead of %d" % (sh.bf, sh.n, got, sh.total * SIZE + pay))
                break
    (rep.ok if st[0] == "ok" else rep.bad if st[0] == "bad" else rep.open)("shape", "index_size: of all levels", fn.loc(), *st[1:])


# ------------------------------------------------------------------ how the tree is built
MAXKEY = 1 << 30


class Fill(Place):
    """a step of filling in the inner levels: the child node at `child`, its entry at `parent`; leaf entry k has key 2k"""

    def __init__(self, sh, level, m, child, parent):
        Place.__init__(self, sh, level, sh.levels[level][0] + m * sh.ns, ("<", 0))
        self.bind[child] = self.node
        self.m = m
        self.at = sh.levels[level + 1][0] + m // sh.bf * sh.ns + min(m % sh.bf, sh.ns)
        self.bind[parent] = self.at

    def least(self, level, g):
        """smallest key below the node that begins at entry g of a level"""
        while level:
            g = self.sh.child(level, g)
            level -= 1
        return 2 * (g - self.sh.levels[0][0])

    def keyof(self, g):
        for l, (s, e) in enumerate(self.sh.levels):
            if s <= g < e:
                if l == 0:
                    return 2 * (g - s)
                c = self.sh.child(l, g) + self.sh.ns
                return self.least(l - 1, c) if c < self.sh.levels[l - 1][1] else MAXKEY
        raise Wrong("entry %d of %d is looked at" % (g, self.sh.total))

    def nodes_like(self, t):
        while t.op == "store":
            t = t.a[0]
        return nodefield(t) or t.op == "lv" and "node_items" in str(t.a[2])

    def env(self, x):
        if x in self.bind:
            return self.bind[x]
        if x.op == "len" and self.nodes_like(x.a[0]):
            return self.sh.total
        if x.op == "call" and last(x.a[0]) == "max_value":
            return MAXKEY
        if x.op == "field" and x.a[1] in ("key", "offset") and x.a[0].op == "index" and self.nodes_like(x.a[0].a[0]):
            c, i = x.a[0].a
            g = ev(i, self.env)
            while c.op == "store":
                if ev(c.a[1], self.env) == g:
                    v = dict(zip(c.a[2].a[3], c.a[2].a[4:])) if c.a[2].op == "agg" else {}
                    if x.a[1] not in v:
                        raise Unknown(x)
                    return ev(v[x.a[1]], self.env)
                c = c.a[0]
            if x.a[1] == "offset":
                raise Unknown(x)
            return self.keyof(g)
        m = x.a[0] if x.op in ("discr", "payload") else None
        if m is not None and m.op == "call" and last(m.a[0]) in ("get", "remove") and "Map" in str(m.a[0]):
            g = ev(m.a[1][1], self.env)
            known = self.level > 0 and self.sh.levels[self.level][0] <= g < self.sh.levels[self.level][1]
            if x.op == "discr":
                return 1 if known else 0
            if not known:
                raise Wrong("the smallest key below entry %d is asked for, it is not known" % g)
            return self.least(self.level, g)
        return Place.env(self, x)


@rule("A03")
def filling(cx):
    rep = cx.rep
    fn = cx.one("Stree::generate_nodes")
    fl, ret = cx.flow(fn)
    loc = fn.loc()
    stores = [(lv, li) for lv, li in fl.loops.items() if li.next is not None and any(x.op == "store" for x in leaves(li.next)) and "node_items" in str(lv.a[2])]
    K = "generate_nodes: "
    outer = {k for k in (li.key for lv, li in fl.loops.items()) if itsource(k, fl)}
    level = {x for s in outer for t in itsource(s, fl) for e, a in termsof(fl) for x in walk(a) if x.op == "elem" and x.a[0] is t}
    if not stores or len(level) != 1:
        return rep.open("filled", K + "the loops", loc, "not recognised")
    level = level.pop()
    slv, sli = stores[-1]
    sh0 = SHAPES[1]
    child = parent = None
    for lv, li in fl.loops.items():
        if li.key != sli.key or li.next is None:
            continue
        try:
            p = Place(sh0, 0, 0, ("<", 0))
            p.bind[level] = 0
            v = ev(li.init, p.env)
        except Unknown:
            continue
        if v == sh0.levels[0][0] and v != sh0.levels[1][0]:
            child = (lv, li)
        elif v == sh0.levels[1][0]:
            parent = (lv, li)
    if child is None or parent is None:
        return rep.open("filled", K + "the loops", loc, "not recognised")
    order = itsource([k for k in outer][0], fl)[0]
    out = {}

    def say(k, st, *msg):
        if out.get(k, ("ok",))[0] == "ok":
            out[k] = (st,) + msg
    exits = [g for d, g, f in fl.exits.get(sli.key, ()) if not f]
    puts = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "insert" and "Map" in e.name]
    shapes = SHAPES[:4] + [Shape(4, 12), Shape(4, 13), Shape(3, 9), Shape(3, 2), Shape(2, 2), Shape(2, 1), Shape(16, 240), Shape(16, 241)]
    shapes += [Shape(b, n) for b, ns in ((2, range(3, 18)), (3, range(3, 30)), (4, (27, 28, 36, 37, 48, 49, 52, 64, 112, 113))) for n in ns]
    for sh in shapes:
        for l in range(len(sh.levels) - 1):
            ns = sh.nodes(l)
            for m in range(len(ns) + 1):
                p = Fill(sh, l, m, child[0], parent[0])
                p.bind[level] = l
                here = "branching factor %d, %d entries, level %d, node %d of %d" % (sh.bf, sh.n, l, m, len(ns))
                try:
                    ends = [ev(assign(g, unf), p.env) for g in exits]
                    if m == len(ns):
                        say("every child", *(("ok",) if any(ends) else ("bad", here + ": goes on behind the last node")))
                        continue
                    skip = m % sh.bf == sh.ns
                    if any(ends):
                        if any(k % sh.bf != sh.ns for k in range(m, len(ns))) and not (m == len(ns) - 1 and p.at >= sh.levels[l + 1][1]):
                            say("every child", "bad", here + ": ends before")
                        continue
                    if not skip and p.at >= sh.levels[l + 1][1]:
                        say("every child", "bad", here + ": gets an entry beyond the level")
                        continue
                    nx = ev(child[1].next, p.env)
                    if nx != p.node + sh.ns:
                        say("every child", "bad", "%s: goes on with entry %s, the next node is at %d" % (here, nx, p.node + sh.ns))
                        continue
                    say("every child", "ok")
                    np = ev(parent[1].next, p.env)
                    if np != p.at + (0 if skip else 1):
                        say("one entry for each child but the last of a node", "bad", here + (": has an entry" if skip else ": %s entries" % (np - p.at)))
                        continue
                    s = pick(sli.next, p)
                    if skip:
                        say("one entry for each child but the last of a node", *(("ok",) if s is slv else ("open", show(s, 3))))
                        continue
                    if s.op != "store" or s.a[0] is not slv or s.a[2].op != "agg":
                        say("one entry for each child but the last of a node", "open" if s.op != "lv" else "bad", here + ": " + show(s, 3))
                        continue
                    i = ev(s.a[1], p.env)
                    say("one entry for each child but the last of a node", *(("ok",) if i == p.at else ("bad", "%s: its entry is written at %s instead of %d" % (here, i, p.at))))
                    f = dict(zip(s.a[2].a[3], s.a[2].a[4:]))
                    o = ev(uncast(f["offset"]), p.env)
                    say("an entry leads to its child", *(("ok",) if o == p.node else ("bad", "%s: leads to %s instead of %d" % (here, o, p.node))))
                    k = ev(f["key"], p.env)
                    w = p.keyof(p.at)
                    say("the key of an entry is the smallest right of it", *(("ok",) if k == w else ("bad", "%s: %s, %s is right" % (here, keyword(k), keyword(w)))))
                    for e in puts:
                        if not ev(calm(e.guard), p.env):
                            continue
                        at, v = ev(e.args[1], p.env), ev(e.args[2], p.env)
                        w = p.least(l, p.node)
                        say("the smallest key below an entry", *(("ok",) if (at, v) == (p.at, w) else ("bad", "%s: %s is noted for entry %s, it is %s for entry %d" % (here, keyword(v), at, keyword(w), p.at))))
                        break
                    else:
                        if l + 2 < len(sh.levels):
                            say("the smallest key below an entry", "open", here + ": not noted")
                except Unknown as u:
                    say("every child", "open", show(u.args[0], 4))
                except Wrong as u:
                    say("every child", "bad", "%s: %s" % (here, u))
            p = Place(sh, 0, 0, ("<", 0))
        try:
            got = levels_of(level, p)
        except Unknown as u:
            got = None
        want = list(range(len(sh.levels) - 1))
        say("levels from the leaves up", *(("open", show(order, 3)) if got is None else ("ok",) if got == want else ("bad", "levels %s of %d" % (got, len(sh.levels)))))
    for k in ("every child", "one entry for each child but the last of a node", "an entry leads to its child", "the key of an entry is the smallest right of it", "the smallest key below an entry", "levels from the leaves up"):
        st = out.get(k, ("open", "no such case"))
        (rep.ok if st[0] == "ok" else rep.bad if st[0] == "bad" else rep.open)("filled", K + k, loc, *st[1:])
    rep.floor("filled", 6)


unf = unfailing


def keyword(k):
    return "the largest key of the type" if k == MAXKEY else "the key of leaf entry %s" % (k // 2) if isinstance(k, int) else str(k)


class Group:
    """a step of the grouping of sorted entries: `i` is where a group begins, `j` where the search for its end stands"""

    members = ()

    def __init__(self, i, j, n, same, lvi, lvj, count=None, countlv=None, pay=0):
        self.i, self.j, self.n, self.same, self.pay = i, j, n, same, pay
        self.bind = {lvi: i}
        if lvj is not None:
            for x in lvj:
                self.bind[x] = j
        if count is not None:
            for x in countlv:
                self.bind[x] = count

    def env(self, x):
        if x in self.bind:
            return self.bind[x]
        if x.op == "len":
            b = x.a[0]
            if b in self.members:
                return self.j - self.i
            if entrylist(b):
                return self.n
            if b.op == "lv" and b.a[3].op == "empty":
                return self.pay
        if x.op == "cmp":
            ks = [self.place(y) for y in x.a]
            if None not in ks:
                return 0 if set(ks) == {self.i, self.j} and self.same or ks[0] == ks[1] else -1 if ks[0] < ks[1] else 1
        if x.op == "branching_factor":
            return 4
        return None

    def place(self, t):
        if t.op == "field" and t.a[1] == "key" and t.a[0].op == "index" and entrylist(t.a[0].a[0]):
            return ev(t.a[0].a[1], self.env)
        return None


def entrylist(t):
    while t.op in ("sorted", "rev", "clone"):
        t = t.a[0]
    return t.op == "param" and t.a[0] == "nodes"


def sortkey(s):
    """('ok'|'bad'|'open', why) for a list sorted so"""
    if s.op == "param":
        return "bad", "entries are grouped in the order they are given in"
    if s.op == "rev":
        return "bad", "entries come in descending order"
    if s.op != "sorted" or s.a[1].op != "key":
        return "open", show(s, 3)
    how, k = s.a[1].a
    if s.a[0].op == "sorted" and "unstable" in how:
        return "open", show(s, 3)
    if k.op == "field" and k.a[1] == "key" and k.a[0].op == "elem":
        return "ok", ""
    if k.op == "field" and k.a[1] == "offset":
        return "bad", "entries are sorted by offset"
    if k.op == "agg" and "Reverse" in str(k.a[0]):
        return "bad", "entries come in descending order"
    if k.op == "unit":
        return "open", "sorted by the order of entries"
    cs = {x for x in walk(k) if x.op == "cmp" and all(y.op == "field" and y.a[1] == "key" and y.a[0].op == "elem" for y in x.a)}
    if len(cs) == 1:
        c = cs.pop()
        l = [str(y.a[0].a[1].op) for y in c.a]
        if set(l) == {"lhs", "rhs"}:
            s = 1 if l[0] == "lhs" else -1
            got = []
            for o in (-1, 0, 1):
                try:
                    got.append(ev(k, lambda x: s * o if x is c else None))
                except Unknown as u:
                    return "open", show(u.args[0], 3)
            names = [g[1] if isinstance(g, tuple) else g for g in got]
            if names[0] == "Less" and names[2] == "Greater":
                return "ok", ""
            if names[0] == "Greater" and names[2] == "Less":
                return "bad", "entries come in descending order"
    return "open", show(k, 3)


@rule("A03")
def building(cx):
    rep = cx.rep
    fn = cx.one("Stree::build")
    fl, ret = cx.flow(fn, opaque=("generate_level_bounds", "generate_nodes", "PayloadEntry::serialize"))
    loc = fn.loc()
    K = "build: "
    puts = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "push" and e.loops and e.args[1].op == "agg" and str(e.args[1].a[0]).endswith("::Entry")]
    if not puts:
        return rep.open("built", K + "leaf entries", loc, "not recognised")
    f0 = [dict(zip(e.args[1].a[3], e.args[1].a[4:])) for e in puts]
    bases = {x for f in f0 for x in walk(f["key"]) if x.op == "index" and entrylist(x.a[0])}
    idx = {x.a[1] for x in bases}
    if len(idx) != 1 or list(idx)[0].op != "lv":
        return rep.open("built", K + "leaf entries", loc, "keys are not recognised: %s" % show(f0[0]["key"], 4))
    lvi = idx.pop()
    for b in {x.a[0] for x in bases}:
        st, why = sortkey(b)
        (rep.ok if st == "ok" else rep.bad if st == "bad" else rep.open)("built", K + "sorted by key", loc, *([why] if why else []))
    li = fl.loops[lvi]
    # the search for the end of a group
    inner = {l for e in fl.events for l in e.loops if len(e.loops) > 1 and li.key in e.loops and l != li.key}
    inner = [k for k in inner if any(x.op == "index" and entrylist(x.a[0]) for d, g, f in fl.exits.get(k, ()) for x in walk(g))]
    if len(inner) != 1:
        return rep.open("built", K + "groups", loc, "the search for the end of a group is not recognised")
    key = inner[0]
    js, counts, offs = [], [], []
    for lv, l in fl.loops.items():
        if lv.a[0] != key or l.next is None:
            continue
        if any(x.op == "push" for x in leaves(l.next)):
            offs.append((lv, l))
            continue
        try:
            v = ev(l.init, lambda x: 10 if x is lvi else None)
        except Unknown:
            continue
        (js if v in (10, 11) and any(y is lvi for y in walk(l.init)) else counts).append((lv, l))
    if not js:
        return rep.open("built", K + "groups", loc, "the search for the end of a group is not recognised")
    try:
        at = {ev(l.init, lambda x: 10 if x is lvi else None) for lv, l in js}
        step = {ev(l.next, lambda x: 20 if x is lv else None) for lv, l in js}
        st = None
        if step != {21}:
            st = "goes on by %s" % sorted(step)
        exits = [g for d, g, f in fl.exits.get(key, ()) if not f]
        lvj = [lv for lv, l in js]
        for i, j, n, same, want in ((2, 3, 5, True, False), (2, 3, 5, False, True), (2, 4, 5, True, False), (2, 4, 5, False, True), (2, 5, 5, False, True), (2, 5, 5, True, True)) + tuple((2, 2 + k, 1 << 40, True, False) for k in (16, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31)):
            p = Group(i, j, n, same, lvi, lvj, j - i, [lv for lv, l in counts])
            p.members = {lv for lv, l in offs}
            got = False
            for g in exits:
                try:
                    got = got or bool(ev(assign(g, unfailing), p.env))
                except Unknown:
                    if j < n:
                        raise
            if got != want and st is None:
                st = "the group ends before an entry with the same key" if got else "the group takes in an entry with another key" if j < n else "looks for members behind the last entry"
        (rep.bad if st else rep.ok)("built", K + "a group is all entries with one key", loc, *([st] if st else []))
        # its members
        first = at == {11}
        for lv, l in offs[:1] if not offs else offs:
            n0 = [x for x in walk(l.init) if x.op == "push"]
            if l.init.op == "push":
                v = l.init.a[1]
                ok = l.init.a[0].op == "empty" and v.op == "field" and v.a[1] == "offset" and v.a[0].op == "index" and v.a[0].a[1] is lvi or not any(x is lvi for x in walk(v))
                if not ok or not first:
                    rep.bad("built", K + "members of a group", loc, "begins with %s" % show(v, 3))
                    break
            elif l.init.op == "empty":
                if first:
                    rep.bad("built", K + "members of a group", loc, "the first one is left out")
                    break
            nx = [x for x in leaves(l.next)]
            g = [x for x in nx if x.op == "push"]
            v = uncast(g[0].a[1])
            if len(nx) != 1:
                rep.bad("built", K + "members of a group", loc, "some are left out") if any(x is lv for x in nx) else rep.open("built", K + "members of a group", loc, show(l.next, 4))
                break
            if not (v.op == "field" and v.a[1] == "offset" and v.a[0].op == "index"):
                rep.open("built", K + "members of a group", loc, show(v, 4))
                break
            w = v.a[0].a[1]
            if w not in lvj and w.op == "lv" and w.a[0] == key or w in lvj or w.op == "const":
                continue
            rep.bad("built", K + "members of a group", loc, "the offset of entry %s is taken" % show(w, 3)) if w is lvi else rep.open("built", K + "members of a group", loc, show(w, 3))
            break
        else:
            (rep.ok if offs else rep.open)("built", K + "members of a group", loc)
        # the next group
        p = Group(2, 4, 9, False, lvi, lvj)
        nx = ev(li.next, p.env)
        (rep.ok if nx == 4 else rep.bad)("built", K + "the next group begins where one ends", loc, *([] if nx == 4 else ["a group of entries 2 to 3 is followed by one at %s" % nx]))
        e0 = [g for d, g, f in fl.exits.get(li.key, ()) if not f]
        st = None
        for i in (0, 3, 4, 5):
            p = Group(i, i + 1, 5, False, lvi, lvj)
            if any(ev(assign(g, unfailing), p.env) for g in e0) != (i >= 5):
                st = "ends at entry %d of 5" % i if i < 5 else "goes on behind the last entry"
        (rep.bad if st else rep.ok)("built", K + "up to the last entry", loc, *([st] if st else []))
    except Unknown as u:
        rep.open("built", K + "groups", loc, show(u.args[0], 4))
        return
    # the leaf entries
    cl = [lv for lv, l in counts]
    ol = [lv for lv, l in offs]
    for c in (1, 2, 3, 1000):
        p = Group(2, 2 + c, 2000, False, lvi, lvj, c, cl, 7 * 16)
        base = p.env

        def env(x, p=p, c=c):
            if x.op == "len" and x.a[0] in ol:
                return c
            if x.op == "call" and str(x.a[0]).endswith("payload_entry.count"):
                return c
            return base(x)
        k = K + ("an entry of one offset" if c == 1 else "an entry of several offsets")
        try:
            live = [(e, f) for e, f in zip(puts, f0) if ev(calm(e.guard), env)]
            if len(live) != 1:
                rep.bad("built", k, loc, "%d leaf entries for %d offsets" % (len(live), c))
                break
            e, f = live[0]
            o = uncast(f["offset"])
            if c == 1:
                if o.op == "index" and (o.a[0] in ol and o.a[1].op == "const" and o.a[1].a[1] == 0 or entrylist(o.a[0])) or o.op == "field" and o.a[1] == "offset" and o.a[0].op == "index" and o.a[0].a[1] is lvi:
                    rep.ok("built", k, e.loc)
                else:
                    rep.open("built", k, e.loc, show(o, 4))
                continue
            if o.op == "index" and o.a[0] in ol:
                rep.bad("built", k, e.loc, "the entry of %d offsets leads to one of them" % c)
                break
            v = ev(o, env)
            if v != TAG | 7 * 16:
                rep.bad("built", k, e.loc, "with %d bytes of groups before it the entry leads to %s%d" % (7 * 16, "" if v & TAG else "an untagged ", v & ~TAG))
                break
            ext = [x for x in fl.events if x.kind == "mutate" and last(x.name) in ("extend_from_slice", "extend", "append", "write_all") and x.loops == (li.key,) and ev(calm(x.guard), env)]
            src = [x for x in ext if any(y.op == "call" and str(y.a[0]).endswith("PayloadEntry::serialize") for y in walk(x.args[1]))]
            if len(src) != 1 or len(ext) != 1:
                (rep.bad if not ext else rep.open)("built", k, e.loc, "the group is stored %d times" % len(src))
                break
            rep.ok("built", k, e.loc)
        except Unknown as u:
            rep.open("built", k, loc, show(u.args[0], 4))
            break
    # a key is that of its group
    good = all(f["key"].op == "field" and f["key"].a[1] == "key" and f["key"].a[0].op == "index" and f["key"].a[0].a[1] is lvi for f in f0)
    (rep.ok if good else rep.open)("built", K + "the key of a leaf entry", loc, *([] if good else [show(f0[0]["key"], 3)]))
    leafplace(cx, rep, K, fl, ret, puts, loc)
    rep.floor("built", 8)


def leafplace(cx, rep, K, fl, ret, puts, loc):
    """leaf entries fill the last level, in order"""
    lists = {e.args[0] for e in puts}
    k = K + "leaf entries are the last level"
    st = [(lv, li, x) for lv, li in fl.loops.items() if li.next is not None for x in leaves(li.next) if x.op == "store" and x.a[2].op == "elem" and x.a[2].a[0] in lists]
    if len(st) != 1:
        return rep.open("built", k, loc, "%d places where they are stored" % len(st))
    lv, li, x = st[0]
    try:
        for sh in SHAPES[:3]:
            for i in (0, 1, sh.n - 1):
                def env(t):
                    if t.op == "len":
                        if t.a[0] in lists:
                            return sh.n
                        if t.a[0].op in ("repeat", "lv", "store"):
                            return sh.total
                    if t.op == "field" and t.a[1] in ("start", "end") and t.a[0].op == "index" and isbounds(t.a[0].a[0]):
                        return sh.levels[ev(t.a[0].a[1], env)][0 if t.a[1] == "start" else 1]
                    if t.op in ("idx",):
                        return i
                    return None
                g = ev(x.a[1], env)
                if g != sh.levels[0][0] + i:
                    return rep.bad("built", k, loc, "branching factor %d, %d entries: leaf entry %d is stored at %s, its place is %d" % (sh.bf, sh.n, i, g, sh.levels[0][0] + i))
        rep.ok("built", k, loc)
    except Unknown as u:
        rep.open("built", k, loc, show(u.args[0], 4))


# ------------------------------------------------------------------ reading entries
@rule("A03")
def readings(cx):
    rep = cx.rep
    for name in ("stree::read_node_items", "stree::read_http_node_items"):
        fn = cx.one(name)
        fl, ret = cx.flow(fn)
        loc = fn.loc()
        nm = name.split("::")[1]
        http = "http" in nm
        vals = {"base": BASE, "node_index": 7, "length": 5}

        def env(t):
            if t.op == "param" and t.a[0] in vals:
                return vals[t.a[0]]
            if t.op == "field" and t.a[1] in ("start", "end") and t.a[0].op == "param":
                return 7 if t.a[1] == "start" else 12
            if t.op == "len" and t.a[0].op == "param":
                return 5
            if t.op in ("kconst", "tconst") and str(t.a[0]).endswith("SERIALIZED_SIZE"):
                return SIZE if "Entry" in str(t.a[0]) or "NodeItem" in str(t.a[0]) else SIZE - 8
            if t.op in ("kconst", "tconst") and str(t.a[0]).endswith("OFFSET_SIZE"):
                return 8
            return None
        try:
            if http:
                es = [e for e in fl.events if e.kind == "call" and e.name.endswith("get_range")]
                if len(es) != 1:
                    rep.open("read", nm + ": place", loc, "%d requests" % len(es))
                    continue
                at, n = (ev(a, env) for a in es[0].args[1:3])
                rep.check(at == BASE + 7 * SIZE, "read", nm + ": place", es[0].loc, "entry 7 is read %+d bytes from where it is" % (at - BASE - 7 * SIZE))
                rep.check(n == 5 * SIZE, "read", nm + ": count", es[0].loc, "%d bytes are asked for 5 entries of %d" % (n, SIZE))
                ch = {x for e in fl.events for a in e.args if isinstance(a, T) for x in walk(a) if x.op == "call" and last(x.a[0]) in ("chunks", "chunks_exact")}
                for c in ch:
                    rep.check(ev(c.a[1][1], env) == SIZE, "read", nm + ": entry by entry", loc, "an entry is taken every %s bytes" % ev(c.a[1][1], env))
            else:
                es = [e for e in fl.events if e.kind == "io" and last(e.name) == "seek"]
                if len(es) != 1 or es[0].loops or es[0].args[1].op != "agg" or es[0].args[1].a[2] != "Start":
                    rep.open("read", nm + ": place", loc, "not recognised")
                    continue
                at = ev(es[0].args[1].a[4], env)
                rep.check(at == BASE + 7 * SIZE, "read", nm + ": place", es[0].loc, "entry 7 is read %+d bytes from where it is" % (at - BASE - 7 * SIZE))
                ks = {l for e in fl.events for l in e.loops if e.kind == "mutate" and last(e.name) == "push"}
                src = [s for k in ks for s in itsource(k, fl)]
                if len(src) != 1 or not isrange(src[0]):
                    rep.open("read", nm + ": count", loc, "not recognised")
                    continue
                a, b = ev(src[0].a[4], env), ev(src[0].a[5], env)
                rep.check(b - a + (1 if "Inclusive" in str(src[0].a[0]) else 0) == 5, "read", nm + ": count", loc, "%d entries are read for 5" % (b - a))
            rest = [e for e in fl.events if e.kind == "mutate" and last(e.name) == "push" and e.loops]
            early = [g for k in {l for e in rest for l in e.loops} for d, g in early_exits(fl, k)]
            if early:
                rep.bad("read", nm + ": all of them", loc, "may end early: %s" % show(early[0], 4))
            elif len(rest) == 1 and not [a for a in atoms(calm(rest[0].guard)) if a.op not in ("cmp", "iook")]:
                rep.ok("read", nm + ": all of them", loc)
            else:
                rep.open("read", nm + ": all of them", loc)
        except Unknown as u:
            rep.open("read", nm, loc, show(u.args[0], 4))
    fn = cx.one("Stree::from_buf")
    fl, ret = cx.flow(fn, opaque=("generate_level_bounds",))
    val = okpart(ret)
    ps = {p.a[0]: p for p in params(fn)}
    for l in leaves(val):
        if l.op != "agg" or not str(l.a[0]).endswith("Stree"):
            rep.open("read", "from_buf", fn.loc(), show(l, 3))
            continue
        f = dict(zip(l.a[3], l.a[4:]))
        vals = {"num_items": 30, "branching_factor": 4}

        def env(t):
            if t.op == "param" and t.a[0] in vals:
                return vals[t.a[0]]
            if t.op == "field" and t.a[1] in ("start", "end") and t.a[0].op == "index" and isbounds(t.a[0].a[0]):
                return SHAPES[2].levels[ev(t.a[0].a[1], env)][0 if t.a[1] == "start" else 1]
            return None
        try:
            n, b = ev(f["num_leaf_nodes"], env), ev(f["branching_factor"], env)
            rep.check(n == 30, "read", "from_buf: number of leaf entries", fn.loc(), "30 are taken for %s" % n)
            rep.check(b == 4, "read", "from_buf: branching factor", fn.loc(), "4 is taken for %s" % b)
            lb = f["level_bounds"]
            if isbounds(lb):
                a = [ev(x, env) for x in lb.a[1]]
                rep.check(a == [30, 4], "read", "from_buf: levels", fn.loc(), "those of %s entries with branching factor %s, not of 30 with 4" % tuple(a))
            else:
                rep.open("read", "from_buf: levels", fn.loc(), show(lb, 3))
            it = f["node_items"]
            src = itsource(it.a[0], fl) if it.op == "lv" else []
            if len(src) == 1 and isrange(src[0]):
                a, b = ev(src[0].a[4], env), ev(src[0].a[5], env)
                rep.check(b - a == SHAPES[2].total, "read", "from_buf: entries", fn.loc(), "%d are read, the tree has %d" % (b - a, SHAPES[2].total))
            else:
                rep.open("read", "from_buf: entries", fn.loc(), show(it, 3))
        except Unknown as u:
            rep.open("read", "from_buf", fn.loc(), show(u.args[0], 3))
        pd = f["payload_data"]
        if pd.op != "empty":
            pi = f["payload_initialized"]
            rep.check(pi.op == "const" and pi.a[1] is True, "read", "from_buf: groups", fn.loc(), "groups are read but not marked so: tagged offsets are taken for offsets")
    fn = cx.one("Stree::stream_find_partition")
    fl, ret = cx.flow(fn, opaque=("generate_level_bounds", "read_node_items"))
    pos = [v for k, v in fl.state.items() if isinstance(k, tuple) and k[0] == "pos"] if hasattr(fl, "state") else []
    for v in pos:
        t = calm(v)
        if t.op == "pos0":
            rep.ok("read", "stream_find_partition: ends where it began", fn.loc())
        elif t.op in ("lv", "posafter"):
            rep.bad("read", "stream_find_partition: ends where it began", fn.loc(), "the scan that follows takes the index to begin where this search ends")
        else:
            rep.open("read", "stream_find_partition: ends where it began", fn.loc(), show(t, 3))
    rep.floor("read", 8)
