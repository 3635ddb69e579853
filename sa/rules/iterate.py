"""E02: what is selected is delivered, one after the other, and then the iteration ends.
One step of each iterator is a decision diagram (state before -> state after, place of the reader, outcome); it is evaluated for
every state an iteration can be in. Nothing of /repo is run."""
from ev import ev, Unknown
from rules import rule, params
from term import *
from util import *
from .codec import okpart, uncast
from .layout import last
from .remote import sat

TS, AT, SIZE = 1 << 20, 1000, 0x01020304      # where the features begin; where the reader stands; size of the next feature


def decoded(x, env):
    """the size of the feature, from the bytes of its prefix"""
    if x.a[0] != "u32":
        return None
    b = x.a[2]
    items = b.a[4:] if b.op == "agg" and b.a[0] == "array" else b.a if b.op == "array" else None
    if items is None:
        return SIZE
    out = 0
    for i, e in enumerate(items if x.a[1] == "le" else items[::-1]):
        while e.op == "sw" or e.op in ("cast", "plain"):
            e = taken(e, env) if e.op == "sw" else e.a[-1] if e.op == "cast" else e.a[0]
        if e.op == "const":
            v = e.a[1]
        elif e.op == "index" and is_const(e.a[1]):
            v = SIZE >> 8 * e.a[1].a[1] & 255 if e.a[1].a[1] < 4 else None
        else:
            v = None
        if v is None:
            raise Unknown(e)
        out |= v << 8 * i
    return out


class Step:
    """an iterator in a state"""

    def __init__(self, cx, fl, ret, me, **kw):
        self.cx, self.fl, self.ret, self.me = cx, fl, ret, me
        self.count, self.filter, self.attr = None, None, None
        self.bad, self.kind, self.touched = None, "other", set()
        self.known = None
        self.__dict__.update(kw)

    def mine(self, x, f):
        return x.op == "field" and x.a[1] == f and x.a[0] is self.me

    def some(self, x, f):
        while x.op in ("payload", "plain") and (x.op == "plain" or x.a[1] == "Some"):
            x = x.a[0]
        return self.mine(x, f)

    def env(self, x):
        o = x.op
        if o == "field":
            if self.mine(x, "feat_no"):
                return self.k
            if self.mine(x, "cur_pos"):
                return self.at
            if self.mine(x, "total_feat_count"):
                return 1 << 30
            if self.mine(x, "verify"):
                return True
            if x.a[1] == "offset" and x.a[0].op in ("index", "payload") and self.filter is not None:
                i = self.item(x.a[0], "item_filter")
                if i is not None:
                    return self.offset(i)
            if x.a[0].op == "field" and x.a[0].a[1] == "feature_offset":
                return {"magic_bytes": 8, "rtree_index": 0, "attributes": 0, "header": TS - 8}.get(x.a[1])
        if o in ("index", "payload") and self.attr is not None:
            i = self.item(x, "item_attr_filter")
            if i is not None:
                return self.offset(i)
        if o == "discr":
            y = x.a[0]
            if self.mine(y, "state"):
                return self.states[self.state]
            for f, v in (("count", self.count), ("item_filter", self.filter), ("item_attr_filter", self.attr)):
                if self.mine(y, f):
                    return 0 if v is None else 1
            if y.op == "call" and last(y.a[0]) == "kind":
                return self.kind
            if y.op == "call" and last(y.a[0]) == "checked_sub":
                return 1 if ev(y.a[1][0], self.env) >= ev(y.a[1][1], self.env) else 0
            if y.op == "call" and last(y.a[0]) == "get" and len(y.a[1]) == 1:
                # what `get` gives in a state: decided where `get` itself is judged
                return 0 if self.held(y.a[1][0], "state") == "Finished" else 1
            if y.op == "call" and last(y.a[0]) == "get" and len(y.a[1]) == 2:
                for f, v in (("item_filter", self.filter), ("item_attr_filter", self.attr)):
                    if self.some(y.a[1][0], f) and v is not None:
                        return 1 if 0 <= ev(y.a[1][1], self.env) < v else 0
        if o == "payload" and x.a[0].op == "call" and last(x.a[0].a[0]) == "checked_sub":
            return ev(x.a[0].a[1][0], self.env) - ev(x.a[0].a[1][1], self.env)
        if o == "payload" and self.some(x, "count"):
            return self.count
        if o == "len":
            for f, v in (("item_filter", self.filter), ("item_attr_filter", self.attr)):
                if self.some(x.a[0], f):
                    return v
        if o == "iook":
            self.touched.add(x)
            return x is not self.bad
        if o == "fails":
            return False
        if o == "more":
            return True
        if o == "pos0":
            return TS + self.at
        if o == "dec":
            return decoded(x, self.env)
        if o == "call" and last(x.a[0]) in ("saturating_sub",):
            return max(0, ev(x.a[1][0], self.env) - ev(x.a[1][1], self.env))
        if o == "call" and last(x.a[0]) == "is_empty":
            for f, v in (("item_filter", self.filter), ("item_attr_filter", self.attr)):
                if self.some(x.a[1][0], f):
                    return v == 0
        return None

    def item(self, x, f):
        if x.op == "payload" and x.a[1] == "Some" and x.a[0].op == "call" and last(x.a[0].a[0]) == "get" and self.some(x.a[0].a[1][0], f):
            return ev(x.a[0].a[1][1], self.env)
        if x.op == "index" and self.some(x.a[0], f):
            return ev(x.a[1], self.env)
        return None

    def offset(self, i):
        """place of the i-th selected feature"""
        if i == self.k:
            return self.target
        if i < 0 or i >= (self.filter if self.filter is not None else self.attr):
            return 1 << 40
        return self.target + 5000 * (i - self.k)

    def pick(self, t):
        """the branch of a diagram that is taken"""
        while t.op == "sw":
            v = ev(t.a[0], self.env)
            n = next((c for q, c in t.a[1] if q == v and type(q) is type(v)), t.a[2])
            if n is None:
                raise Unknown(t)
            t = n
        return t

    def after(self):
        for k, v in self.fl.state.items():
            if isinstance(k, tuple) and k[0] == "cell" and k[1] is self.me:
                return v
        return self.me

    def now(self, f):
        """a field afterwards"""
        return self.held(self.after(), f)

    def held(self, t, f):
        """a field of a state"""
        t = self.pick(t)
        while t.op in ("with", "withpl", "sw"):
            t = self.pick(t)
            if t.op == "with" and t.a[1] == f:
                v = self.pick(t.a[2])
                if f == "state":
                    if v.op == "agg":
                        return v.a[2]
                    if self.mine(v, "state"):
                        return self.state
                    raise Unknown(v)
                return ev(v, self.env)
            if t.op != "with":
                raise Unknown(t)
            t = self.pick(t.a[0])
        if t is not self.me:
            raise Unknown(t)
        return {"state": self.state, "feat_no": self.k, "cur_pos": self.at}[f]

    def place(self):
        """where the reader stands afterwards"""
        for k, v in self.fl.state.items():
            if isinstance(k, tuple) and k[0] == "pos" and self.mine(k[1], "reader"):
                return ev(v, self.env)
        return TS + self.at

    def outcome(self):
        t = self.pick(self.ret)
        if t.op == "agg" and t.a[2] in ("Ok", "Err"):
            return t.a[2]
        if t.op == "undef":
            return "Err"
        raise Unknown(t)


def states(cx):
    ad = [a for p, a in cx.w.adts.items() if p.endswith("reader::State")]
    return {v["n"]: int(v["d"]) for v in ad[0]["v"]} if len(ad) == 1 else None


def scenarios(seek):
    """(name, values) of the iterators that have something left: what is selected and where the next feature lies"""
    for first in (True, False):
        at = 4 if first else AT
        st = "ReadFirstFeatureSize" if first else "Reading"
        k = 0 if first else 3
        near = 0 if first else AT
        for n in (k + 1, k + 6):
            b = dict(state=st, k=k, at=at)
            yield "all", dict(b, count=n, target=near)
            for far in (0, 640):
                yield "box", dict(b, count=n, filter=n, target=near + far)
                yield "attribute", dict(b, count=n + 9, attr=n, target=near + far)
                yield "attribute", dict(b, count=n, attr=n, target=near + far)
    # a file whose number of features is not known
    yield "all", dict(state="Reading", k=3, at=AT, count=None, target=AT)


@rule("E02")
def local(cx):
    rep = cx.rep
    dom = states(cx)
    fns = [f for f in cx.w.find("advance", required=False) if "FeatureIter" in f.path]
    if dom is None or len(fns) != 2:
        return rep.open("step", "FeatureIter::advance", fns[0].loc() if fns else "", "not recognised")
    for fn in fns:
        seek = "NotSeekable" not in fn.path
        nm = "FeatureIter::advance (%s)" % ("seekable" if seek else "sequential")
        loc = fn.loc()
        fl, ret = cx.flow(fn)
        me = [p for p in params(fn) if p.a[0] == "self"][0]
        done, undone = set(), {}

        def check(key, why):
            rep.bad("step", nm + ": " + key, loc, why)
            done.add(key)
        keys = {q for v in [ret] + list(fl.state.values()) for x in walk(v) if x.op == "sw" and x.a[0].op == "discr" and x.a[0].a[0].op == "call" and last(x.a[0].a[0].a[0]) == "kind" for q, c in x.a[1]}
        kinds = sorted(keys) or ["other"]
        for kind, sc in scenarios(seek):
            sc["kind"] = kinds[0]
            s = Step(cx, fl, ret, me, states=dom, **sc)
            what = "%s, %s delivered, %s selected" % (kind, s.k, s.attr or s.filter or s.count)
            try:
                key = "next feature (%s)" % kind
                if s.outcome() != "Ok":
                    check(key, "an intact feature is reported as an error (%s)" % what)
                    continue
                got = (s.now("feat_no"), s.now("state"))
                end = s.target + 4 + SIZE
                if got != (s.k + 1, "Reading"):
                    check(key, "%s: afterwards %d are delivered and the state is %s" % (what, got[0], got[1]))
                elif s.place() != TS + end:
                    check(key, "%s: the reader stands at %d behind the feature that ends at %d" % (what, s.place() - TS, end))
                elif not (seek and s.attr is not None) and s.now("cur_pos") != end:
                    check(key, "%s: place %d is noted behind the feature that ends at %d" % (what, s.now("cur_pos"), end))
                undone.setdefault(key, None)
                # a part of the file that cannot be read
                for io in sorted(s.touched, key=str):
                    for q in kinds:
                        f = Step(cx, fl, ret, me, states=dom, **dict(sc, bad=io, kind=q))
                        key = "feature cut short (%s)" % kind
                        undone.setdefault(key, None)
                        if f.outcome() == "Err":
                            continue
                        if s.count is None and f.now("state") == "Finished":
                            continue
                        check(key, "%s: the feature cannot be read, but no error is reported; the state is %s" % (what, f.now("state")))
            except Unknown as u:
                undone[key] = show(u.args[0], 4)
        for kind, n in (("all", dict(count=3)), ("box", dict(count=3, filter=3)), ("attribute", dict(count=9, attr=3)), ("attribute", dict(count=3, attr=3)), ("nothing", dict(count=0, filter=0)), ("nothing", dict(count=9, attr=0))):
            for st in ("Reading", "Finished") if kind != "nothing" else ("ReadFirstFeatureSize", "Finished"):
                k = n.get("attr", n.get("count"))
                s = Step(cx, fl, ret, me, states=dom, k=k, at=AT if k else 4, state=st, target=1 << 40, kind=kinds[0], **n)
                key = "end (%s)" % kind
                try:
                    if s.outcome() != "Ok" or s.now("state") != "Finished" or s.now("feat_no") != k or s.place() != TS + s.at:
                        check(key, "after all %d features: %s, state %s" % (k, "an error" if s.outcome() != "Ok" else "no error", s.now("state")))
                    undone.setdefault(key, None)
                except Unknown as u:
                    undone[key] = show(u.args[0], 4)
        for key, why in undone.items():
            if key in done:
                continue
            (rep.open if why else rep.ok)("step", nm + ": " + key, loc, *((why,) if why else ()))


def variant(t):
    """Ok(Some) / Ok(None) / Err of an outcome that was picked"""
    if t.op == "agg" and t.a[2] == "Err" or t.op == "undef":
        return "Err"
    if t.op == "agg" and t.a[2] == "Ok":
        v = t.a[4]
        if v.op == "agg" and v.a[2] in ("Some", "None"):
            return v.a[2]
        return "Ok"
    raise Unknown(t)


def taken(t, env):
    """the branch of a diagram that is taken"""
    for _ in range(200):
        if t.op == "sw":
            v = ev(t.a[0], env)
            n = next((c for q, c in t.a[1] if q == v and type(q) is type(v)), t.a[2])
            if n is None:
                raise Unknown(t)
            t = n
        elif t.op == "agg" and t.a[2] == "Ok" and t.a[4].op == "sw":
            t = mapleaf(t.a[4], lambda l, t=t: mk("agg", *(t.a[:4] + (l,))))
        else:
            return t
    raise Unknown(t)


@rule("E02")
def given_out(cx):
    """next() gives a feature exactly if a step delivered one"""
    rep = cx.rep
    dom = states(cx)
    if dom is None:
        return rep.open("step", "FeatureIter: states")
    for fn in [f for n in ("get", "next") for f in cx.w.find(n, required=False) if "FeatureIter" in f.path and "AsyncFeatureIter" not in f.path]:
        seek = "NotSeekable" not in fn.path
        nm = "FeatureIter::%s (%s)" % (last(fn.path), "seekable" if seek else "sequential")
        fl, ret = cx.flow(fn)
        me = [p for p in params(fn) if p.a[0] == "self"][0]
        kinds = sorted({q for v in [ret] + list(fl.state.values()) for x in walk(v) if x.op == "sw" and x.a[0].op == "discr" and x.a[0].a[0].op == "call" and last(x.a[0].a[0].a[0]) == "kind" for q, c in x.a[1]}) or ["other"]
        try:
            wrong = None
            if last(fn.path) == "get":
                for st, want in (("Reading", "Some"), ("Finished", "None")):
                    s = Step(cx, fl, ret, me, states=dom, k=1, at=AT, state=st, count=3, target=AT, kind=kinds[0])
                    t = taken(ret, s.env)
                    if t.op != "agg" or t.a[2] != want:
                        wrong = "in state %s: %s" % (st, show(t, 2))
            else:
                for kind, sc in scenarios(seek):
                    s = Step(cx, fl, ret, me, states=dom, **dict(sc, kind=kinds[0]))
                    got = variant(taken(ret, s.env))
                    if got != "Some":
                        wrong = "%s: %d of %s delivered, the next call gives %s" % (kind, s.k, s.attr or s.filter or s.count, got)
                for n in (dict(count=3), dict(count=3, filter=3), dict(count=9, attr=3), dict(count=3, attr=3)):
                    for st in ("Reading", "Finished"):
                        s = Step(cx, fl, ret, me, states=dom, k=3, at=AT, state=st, target=1 << 40, kind=kinds[0], **n)
                        got = variant(taken(ret, s.env))
                        if got != "None":
                            wrong = "all 3 delivered, the next call gives %s" % got
            rep.check(wrong is None, "step", nm + ": gives out", fn.loc(), wrong or "")
        except Unknown as u:
            rep.open("step", nm + ": gives out", fn.loc(), show(u.args[0], 4))


@rule("E02")
def begun(cx):
    """the state an iteration begins in"""
    rep = cx.rep
    fn = cx.one("FeatureIter::new")
    fl, ret = cx.flow(fn)
    ps = {p.a[0]: p for p in params(fn)}
    box, att = ps.get("item_filter"), ps.get("item_attr_filter")
    if box is None or att is None:
        return rep.open("begin", "FeatureIter::new: parameters", fn.loc())
    kinds = sorted({q for v in [ret] + list(fl.state.values()) for x in walk(v) if x.op == "sw" and x.a[0].op == "discr" and x.a[0].a[0].op == "call" and last(x.a[0].a[0].a[0]) == "kind" for q, c in x.a[1]}) or ["other"]
    res, why = {}, {}
    for head in (0, 5, 9):
        for b, a in ((None, None), (3, None), (0, None), (None, 3), (None, 0)):
            if a is not None and head == 0 or b is not None and head == 0:
                continue
            for ok in (True, False):
                what = "box" if b is not None else "attribute" if a is not None else "all"

                def env(x, head=head, a=a, b=b, ok=ok):
                    o = x.op
                    if o == "discr":
                        if x.a[0] is box:
                            return 0 if b is None else 1
                        if x.a[0] is att:
                            return 0 if a is None else 1
                        if x.a[0].op == "call" and last(x.a[0].a[0]) == "kind":
                            return 37 if 37 in kinds else kinds[0]
                    if o == "len" or o == "call" and last(x.a[0]) == "is_empty":
                        y = x.a[0] if o == "len" else x.a[1][0]
                        while y.op == "payload":
                            y = y.a[0]
                        n = b if y is box else a if y is att else None
                        return None if n is None else n if o == "len" else n == 0
                    if o == "call" and last(x.a[0]) == "features_count":
                        return head
                    if o == "iook":
                        return ok
                    if o == "fails":
                        return False
                    return None
                key = "FeatureIter::new: %s, %s" % (what, "intact" if ok else "nothing to read")
                why.setdefault(key, None)
                try:
                    t = taken(ret, env)
                    if variant(t) == "Err":
                        # an error of the first read is one way to report it
                        if ok or b == 0 or head == 0:
                            res[key] = "the iteration of %s begins with an error" % what
                        continue
                    t = taken(t.a[4], env)
                    if t.op != "agg":
                        raise Unknown(t)
                    f = dict(zip(t.a[3], t.a[4:]))
                    st = taken(f["state"], env)
                    cnt = taken(f["count"], env)
                    st = st.a[2] if st.op == "agg" else None
                    n = None if cnt.op == "agg" and cnt.a[2] == "None" else ev(cnt.a[4], env)
                    k, pos = ev(f["feat_no"], env), ev(f["cur_pos"], env)
                    total = b if b is not None else a if a is not None else head
                    if ok and (st != "ReadFirstFeatureSize" or pos != 4 or k != 0):
                        res[key] = "begins with state %s, %s delivered, at %s; the size of the first feature was read" % (st, k, pos)
                    elif n is None and (b is not None or head):
                        res[key] = "the number of features is not kept: a file that is too short ends the iteration"
                    elif n == 0 and ok and not head and b is None and a is None:
                        res[key] = "the header does not say how many features there are, and none of those in the file is given out"
                    elif n is not None and (b is not None and n != b or b is None and n != head and (n or ok)):
                        res[key] = "%s features are selected (%s in the file), the iteration ends after %s" % (total, head, n)
                    elif not ok and st == "Finished" and total:
                        res[key] = "%d features are selected and the file ends before the first: the iteration ends without an error" % total
                except Unknown as u:
                    why[key] = show(u.args[0], 4)
    for key in why:
        if key in res:
            rep.bad("begin", key, fn.loc(), res[key])
        elif why[key]:
            rep.open("begin", key, fn.loc(), why[key])
        else:
            rep.ok("begin", key, fn.loc())


# ------------------------------------------------------------------ over HTTP
def fetches(fl):
    return [e for e in fl.events if e.kind == "call" and last(e.name) == "fetch_feature"]


def after_of(fl, me):
    for k, v in fl.state.items():
        if isinstance(k, tuple) and k[0] == "cell" and k[1] is me:
            return v
    return me


def field_after(fl, me, f, env, old):
    t = taken(after_of(fl, me), env)
    while t.op == "with":
        if t.a[1] == f:
            return ev(t.a[2], env)
        t = taken(t.a[0], env)
    if t is not me:
        raise Unknown(t)
    return old


def stepped(rep, nm, fl, ret, loc, base, cases):
    """cases: (what, environment, outcome, place of the feature asked for, {field: (before, after)})"""
    me, res, why = base, {}, {}
    for what, env0, want, at, fields in cases:
        why.setdefault(what, None)
        try:
            def env(x):
                v = env0(x)
                if v is not None:
                    return v
                if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) == "fetch_feature":
                    return 0
                if x.op == "fails":
                    return False
                if x.op == "len" and any(y.op == "call" and last(y.a[0]) == "fetch_feature" for y in walk(x.a[0])):
                    return SIZE + 4
                return None
            got = variant(taken(ret, env))
            done = [ev(e.args[1], env) for e in fetches(fl) if ev(e.guard, env)]
            if got != want:
                res[what] = "gives %s instead of %s" % (got, want)
            elif want == "Some" and done != [at]:
                res[what] = "asks for the feature at %s instead of %s" % (done, at)
            elif want == "None" and done:
                res[what] = "asks for a feature behind the last"
            else:
                for f, (a, b) in fields.items():
                    n = field_after(fl, me, f, env, a)
                    if n != b:
                        res[what] = "%s is %s afterwards, not %s" % (f, n, b)
            if want == "Some":
                # the request fails
                def failed(x):
                    if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) == "fetch_feature":
                        return 1
                    return env(x)
                if any(x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) == "fetch_feature" for x in walk(ret)):
                    g = variant(taken(ret, failed))
                    if g != "Err":
                        res[what] = "a feature that cannot be fetched gives %s" % g
        except Unknown as u:
            why[what] = show(u.args[0], 4)
    for what in why:
        if what in res:
            rep.bad("remote", nm + ": " + what, loc, res[what])
        elif why[what]:
            rep.open("remote", nm + ": " + what, loc, why[what])
        else:
            rep.ok("remote", nm + ": " + what, loc)


@rule("E02")
def counted(cx):
    rep = cx.rep
    fn = cx.one("SelectAll::next_buffer")
    fl, ret = cx.flow(fn, opaque=("fetch_feature",))
    me = [p for p in params(fn) if p.a[0] == "self"][0]

    def env(left):
        return lambda x: {"features_left": left, "pos": 5000}.get(x.a[1]) if x.op == "field" and x.a[0] is me else None
    stepped(rep, "SelectAll::next_buffer", fl, ret, fn.loc(), me, [("end", env(0), "None", None, {})] + [("next", env(n), "Some", 5000, {"features_left": (n, n - 1), "pos": (5000, 5000 + SIZE + 4)}) for n in (1, 2, 7)])
    fn = cx.one("SelectAttr::next_buffer")
    fl, ret = cx.flow(fn, opaque=("fetch_feature",))
    me = [p for p in params(fn) if p.a[0] == "self"][0]

    def env2(k, n, kind):
        def env(x):
            if x.op == "field" and x.a[1] == "range_pos" and x.a[0] is me:
                return k
            if x.op == "len" and x.a[0].op == "field" and x.a[0].a[1] == "ranges":
                return n
            if x.op == "discr" and x.a[0].op == "index" and item(x.a[0]) is not None:
                return kind
            if x.op == "field" and x.a[1] in ("start", "end") and x.a[0].op == "payload" and item(x.a[0].a[0]) is not None:
                return 9000 + 100 * item(x.a[0].a[0]) + (50 if x.a[1] == "end" else 0)
            if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) == "get":
                return 1 if ev(x.a[0].a[1][1], env) < n else 0
            return None

        def item(y):
            if y.op == "index" and y.a[0].op == "field" and y.a[0].a[1] == "ranges":
                return ev(y.a[1], env)
            if y.op == "payload" and y.a[0].op == "call" and last(y.a[0].a[0]) == "get":
                return ev(y.a[0].a[1][1], env)
            return None
        return env
    stepped(rep, "SelectAttr::next_buffer", fl, ret, fn.loc(), me,
            [("end", env2(n, n, k), "None", None, {}) for n in (0, 1, 5) for k in (0, 1)] +
            [("next", env2(i, n, k), "Some", 9000 + 100 * i, {"range_pos": (i, i + 1)}) for n in (1, 2, 5) for i in range(n) for k in (0, 1)])
    fn = cx.one("FeatureBatch::next_buffer")
    fl, ret = cx.flow(fn, opaque=("fetch_feature", "request_size"))
    me = [p for p in params(fn) if p.a[0] == "self"][0]
    pops = [e for e in fl.events if e.kind == "call" and last(e.name) in ("pop_front", "pop_back", "pop")]

    def env3(more, kind):
        def env(x):
            if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) in ("pop_front", "pop_back", "pop"):
                return 1 if more else 0
            if x.op == "discr" and x.a[0].op == "payload":
                return kind
            if x.op == "field" and x.a[1] in ("start", "end"):
                return 9000 if x.a[1] == "start" else 9100
            if x.op == "call" and last(x.a[0]) == "request_size":
                return 1000
            return None
        return env
    if len(pops) != 1 or pops[0].guard is not TRUE:
        rep.open("remote", "FeatureBatch::next_buffer: one after the other", fn.loc(), "%d" % len(pops))
    else:
        rep.ok("remote", "FeatureBatch::next_buffer: one after the other", fn.loc())
    stepped(rep, "FeatureBatch::next_buffer", fl, ret, fn.loc(), me, [("end", env3(False, 0), "None", None, {})] + [("next", env3(True, k), "Some", 9000, {}) for k in (0, 1)])
    front = pops and last(pops[0].name)
    batches(cx, front)
    fn = cx.one("AsyncFeatureIter::next")
    fl, ret = cx.flow(fn, opaque=("next_feature_buffer",))
    try:
        wrong = None
        for more in (0, 1):
            def env(x):
                if x.op == "discr" and any(y.op == "call" and last(y.a[0]) == "next_feature_buffer" for y in walk(x)):
                    return 0 if x.a[0].op == "call" else more
                if x.op == "fails":
                    return False
                return None
            got = variant(taken(ret, env))
            if got != ("Some" if more else "None"):
                wrong = "gives %s when the selection gives %s" % (got, "a feature" if more else "no more")
        rep.check(wrong is None, "remote", "AsyncFeatureIter::next", fn.loc(), wrong or "")
    except Unknown as u:
        rep.open("remote", "AsyncFeatureIter::next", fn.loc(), show(u.args[0], 4))


def batches(cx, taken_from):
    rep = cx.rep
    fn = cx.one("SelectBbox::next_buffer")
    fl, ret = cx.flow(fn, opaque=("FeatureBatch::next_buffer",))
    loc = fn.loc()
    nm = "SelectBbox::next_buffer: "
    look = {x.a[0] for v in [ret] + [e.guard for e in fl.events] + [li.next for li in fl.loops.values() if li.next is not None] + [g for ex in fl.exits.values() for d, g, f in ex] for x in walk(v)
            if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) in ("last_mut", "first_mut", "front_mut", "back_mut", "last", "first")}
    pops = [e for e in fl.events if e.kind == "call" and last(e.name) in ("pop", "pop_front", "pop_back", "remove")]
    ends = {last(x.a[0]) for x in look}
    if len(ends) != 1 or not pops:
        rep.open("remote", nm + "batch after batch", loc, "not recognised")
    else:
        bad, un = None, None
        for C, N, want in ((0, 0, "end"), (1, 1, "give"), (4, 1, "give"), (1, 0, "drop"), (2, 0, "drop"), (3, 0, "drop"), (9, 0, "drop")):
            L = 1 if C else 0

            def env(x, C=C, L=L, N=N):
                if x.op == "len":
                    # one less once the batch that is done was removed
                    return C - 1 if any(y.op == "call" and last(y.a[0]) == last(pops[0].name) for y in walk(x)) else C
                if x.op == "discr":
                    y = x.a[0]
                    if y in look:
                        return L
                    if y.op == "payload" and y.a[1] == "Ok" and any(z.op == "call" and last(z.a[0]) == "next_buffer" for z in walk(y)):
                        return N
                    if y.op == "lv" and y.a[-1].op == "agg" and y.a[-1].a[2] == "None":
                        return 0
                    if y.op == "call" and last(y.a[0]) == "next_buffer":
                        return 0
                    if y.op == "call" and last(y.a[0]) == last(pops[0].name):
                        return 1
                if x.op == "call" and last(x.a[0]) == "is_empty":
                    return L == 0
                if x.op == "fails":
                    return False
                return None
            try:
                # the batch whose turn it is leaves exactly when it has no more
                n = len([e for e in pops if e.loops and ev(e.guard, env)])
                out = [d for k, ex in fl.exits.items() for d, g, f in ex if not f and ev(g, env)]
                opt = [lv for lv, li in fl.loops.items() if li.next is not None and lv.a[-1].op == "agg" and lv.a[-1].a[2] == "None" and any(q.op == "agg" and q.a[2] == "Some" for q in leaves(li.next))]
                got = None
                for lv in opt:
                    t = taken(fl.loops[lv].next, env)
                    got = t.a[2] if t.op == "agg" else "None" if t is lv else None
                if want == "end" and (n or not out):
                    bad = "when no batch is left: %s" % ("goes on" if not out else "one is removed")
                elif want == "give" and n:
                    bad = "a batch that gave a feature is removed"
                elif want == "give" and not out and got != "Some":
                    bad = "a feature that was fetched is not given out"
                elif want == "drop" and (n != 1 or out and C > 1 or got == "Some"):
                    bad = "a batch without more features: %s" % ("the iteration ends" if out else "%d are removed" % n)
            except Unknown as u:
                un = show(u.args[0], 4)
        if bad:
            rep.bad("remote", nm + "batch after batch", loc, bad)
        elif un:
            rep.open("remote", nm + "batch after batch", loc, un)
        else:
            rep.ok("remote", nm + "batch after batch", loc)
    # ---- the batches hold every feature, in order
    fn = cx.one("FeatureBatch::make_batches")
    fl, ret = cx.flow(fn)
    loc = fn.loc()
    nm = "FeatureBatch::make_batches: "
    src = [p for p in params(fn) if p.a[0] == "feature_ranges"]
    loops = {l for e in fl.events for l in e.loops}
    walks = [k for k in loops for s in itsource(k, fl) if src and s is src[0]]
    if len(walks) != 1:
        cut = [s for k in loops for s in itsource(k, fl) if s.op in ("skip", "take", "slice", "seq") and src and any(y is src[0] for y in walk(s))]
        if cut and cut[0].op in ("skip", "take", "slice"):
            rep.bad("remote", nm + "every feature", loc, "only %s is walked" % show(cut[0], 3))
        else:
            rep.open("remote", nm + "every feature", loc, "the walk is not recognised")
    else:
        k = walks[0]
        panics = [e.guard for e in fl.events if e.kind == "call" and ("panic" in e.name or "unwrap_failed" in e.name or "expect_failed" in e.name)]
        puts = [e for e in fl.events if e.kind == "mutate" and last(e.name) in ("push_back", "push", "push_front") and k in e.loops and isitem(e.args[1])]
        lists = [e for e in fl.events if e.kind == "mutate" and last(e.name) in ("push", "push_back", "push_front") and k in e.loops and e not in puts]
        cond = lambda g: assign(g, lambda a: True if is_more(a) else False if a.op == "fails" else None)
        rest = TRUE
        for e in puts:
            rest = AND(rest, NOT(cond(e.guard)))
        inner = [e for e in lists if any(isitem(x) for x in walk(e.args[1]))]
        for e in inner:
            if not any(p for p in puts if cond(p.guard) is cond(e.guard)):
                rest = AND(rest, NOT(cond(e.guard)))
        for g in panics:
            rest = AND(rest, NOT(cond(g)))
        twice = None
        for i, a in enumerate(puts):
            for b in puts[i + 1:]:
                if AND(cond(a.guard), cond(b.guard)) is not FALSE:
                    twice = AND(cond(a.guard), cond(b.guard))
        early = [g for d, g in early_exits(fl, k) if not any(implies(g, cond(p)) for p in panics) and last_block_panics(fl, g, cond) is False]
        new = [e for e in puts if e.args[0].op == "empty" or e.args[0].op == "agg"]
        lost = [e for e in new if not any(cond(l.guard) is cond(e.guard) for l in inner)]
        fronts = {last(e.name) for e in puts}
        odd = [a for a in atoms(rest) if a.op != "discr" and a.op != "cmp"] if rest is not FALSE else []
        if odd:
            # a gap between two features in which one of them goes nowhere
            try:
                gap = next((w for w in (0, 1, 700, 5000) if gapped(rest, w)), None)
                odd, rest = ([], rest) if gap is not None else (odd, FALSE)
            except Unknown:
                pass
        if not puts:
            rep.open("remote", nm + "every feature", loc, "not recognised")
        elif rest is not FALSE and not (rest.op == "sw" and odd):
            rep.bad("remote", nm + "every feature", loc, "a feature is in no batch: when %s" % show(rest, 5)[:300])
        elif twice is not None:
            rep.bad("remote", nm + "every feature", loc, "a feature is added twice: when %s" % show(twice, 5)[:300])
        elif lost:
            rep.bad("remote", nm + "every feature", lost[0].loc, "a batch that was begun is not kept")
        elif early:
            rep.open("remote", nm + "every feature", loc, "may end early: %s" % show(early[0], 4))
        elif rest is not FALSE:
            rep.open("remote", nm + "every feature", loc, "%s %s" % ([(a.op, show(a, 2)) for a in odd][:3], show(rest, 4)))
        else:
            rep.ok("remote", nm + "every feature", loc)
        grow = {last(e.name) for e in puts if e not in new}
        if len(grow) > 1:
            rep.bad("remote", nm + "order in a batch", loc, "features are added at both ends of a batch")
        elif len(fronts) == 1 and taken_from:
            a = fronts.pop() in ("push_back", "push")
            rep.check(a == (taken_from == "pop_front"), "remote", nm + "order in a batch", loc, "features are added at one end and taken from the same")
    val = okpart(ret)
    turned, t = 0, val
    for _ in range(8):
        if t.op == "rev":
            turned, t = turned + 1, t.a[0]
        elif t.op == "seq":
            if t.a[2] is not TRUE:
                rep.open("remote", nm + "all batches", loc, show(t.a[2], 3))
            t = t.a[0]
        elif t.op in ("skip", "take", "slice"):
            return rep.bad("remote", nm + "all batches", loc, "only %s are returned" % show(t, 3))
        else:
            break
    if t.op == "lv" and len(ends) == 1:
        e = ends.pop()
        back = e in ("last_mut", "last", "back_mut")
        rep.check(back == (turned % 2 == 1), "remote", nm + "order of batches", loc, "the batches are taken from the %s of the list, which holds the first batch %s" % ("end" if back else "beginning", "last" if turned % 2 else "first"))
        rep.ok("remote", nm + "all batches", loc)
    else:
        rep.open("remote", nm + "all batches", loc, show(t, 3))


def gapped(rest, gap):
    """the condition holds somewhere with this gap between two features"""
    import itertools
    tests = sorted({a for a in atoms(rest) if a.op == "discr"}, key=lambda a: show(a, 6))
    sizes = sorted({x for a in atoms(rest) for x in walk(a) if x.op == "len"}, key=lambda a: show(a, 6))
    picks = [[(a, v) for v in keysof(rest, a)] for a in tests] + [[(a, v) for v in (1, 2, 9, 600, 100000)] for a in sizes]
    n = 1
    for p in picks:
        n *= max(1, len(p))
    if n > 4096:
        raise Unknown(rest)
    for combo in itertools.product(*picks):
        at = dict(combo)

        def env(x):
            if x in at:
                return at[x]
            if x.op == "field" and x.a[1] in ("start", "end"):
                return 9000 + gap if x.a[1] == "start" else 9000
            if x.op == "param":
                return 1000
            return None
        if ev(rest, env):
            return True
    return False


def isitem(t):
    t = t if t.op != "agg" else t
    while t.op == "field":
        t = t.a[0]
    return t.op == "elem"


def last_block_panics(fl, g, cond):
    """a way out of the loop that ends in a panic"""
    for e in fl.events:
        if e.kind == "call" and "panic" in e.name and implies(g, cond(e.guard)):
            return True
    return False


@rule("E02")
def fetched_whole(cx):
    rep = cx.rep
    fn = cx.one("http_reader::fetch_feature")
    fl, ret = cx.flow(fn)
    loc = fn.loc()
    gets = [e for e in fl.events if e.kind == "call" and last(e.name) == "get_range"]
    if len(gets) != 2:
        return rep.open("fetch", "fetch_feature", loc, "%d requests" % len(gets))
    one, two = gets
    key = "fetch_feature: "

    def mention(t, e):
        return any(x.op == "call" and x is e.ret or x.op == "payload" and x.a[0] is e.ret for x in walk(t))

    def envof(a, b):
        def env(x):
            if x.op == "param" and x.a[0] == "pos":
                return 1000
            if x.op == "len":
                y = x.a[0]
                r = (b if mention(y, two) and holds(y, two) else 0) + (a if holds(y, one) else 0)
                return r
            if x.op == "dec":
                return decoded(x, env)
            if x.op == "discr" and x.a[0].op == "call" and last(x.a[0].a[0]) == "get_range":
                return 0
            if x.op == "fails":
                return False
            if x.op == "call" and last(x.a[0]) == "is_empty":
                return (b if holds(x.a[1][0], two) else a) == 0
            return None

        return env

    def holds(t, e):
        """the bytes of this request are part of the buffer (not only its size)"""
        t2 = t
        if t2.op == "payload":
            t2 = t2.a[0]
        if t2 is e.ret:
            return True
        if t2.op == "mut":
            return any(holds(x, e) for x in t2.a if isinstance(x, T))
        if t2.op == "call" and last(t2.a[0]) in ("put", "extend_from_slice", "put_slice", "from", "to_vec", "extend"):
            return any(holds(x, e) for x in t2.a[1])
        if t2.op in ("push", "extend", "cat", "concat", "store"):
            return any(holds(x, e) for x in t2.a if isinstance(x, T))
        return False
    try:
        env = envof(4, SIZE)
        p, n = ev(one.args[1], env), ev(one.args[2], env)
        q, m = ev(two.args[1], env), ev(two.args[2], env)
        rep.check(p == 1000 and n >= 4, "fetch", key + "size", one.loc, "%d bytes at %d for the size of the feature at 1000" % (n, p))
        rep.check(q in (1000, 1004) and q + m == 1004 + SIZE, "fetch", key + "feature", two.loc, "%d bytes at %d for a feature of %d bytes at 1000" % (m, q, 4 + SIZE))
        full = m
        bad = None
        for a in (0, 3, 4):
            for b in (0, 1, full - 1, full):
                got = variant(taken(ret, envof(a, b)))
                if (a, b) == (4, full):
                    if got == "Err":
                        bad = "an intact feature gives an error"
                elif got != "Err":
                    bad = "%d and %d bytes come back of a feature of %d bytes, and no error is reported" % (a, b, 4 + SIZE)
        rep.check(bad is None, "fetch", key + "cut short", loc, bad or "")
        v = taken(ret, envof(4, full)).a[4]
        if not holds(v, two) or q == 1004 and not holds(v, one):
            rep.open("fetch", key + "whole", loc, show(v, 3))
        else:
            rep.ok("fetch", key + "whole", loc)
    except Unknown as u:
        rep.open("fetch", key + "cut short", loc, show(u.args[0], 4))


def uncut(rep, key, t, ends, loc):
    """the list comes from this call, nothing left out"""
    for _ in range(10):
        if t.op == "payload" and t.a[1] in ("Ok", "Some") and t.a[0].op == "call":
            t = t.a[0]
        if t.op == "call" and last(t.a[0]) in ends:
            return rep.ok("selected", key, loc)
        if t.op in ("skip", "take", "slice", "trunc"):
            return rep.bad("selected", key, loc, "some of what is found is left out: %s" % show(t, 2))
        if t.op == "seq":
            if t.a[2] is not TRUE:
                break
            t = t.a[0]
        elif t.op in ("sorted", "dedup", "plain", "enum", "rev"):
            t = t.a[0]
        else:
            break
    rep.open("selected", key, loc, show(t, 4))


def ordered(t):
    """what is done to the list, innermost last"""
    out = []
    for _ in range(12):
        if t.op in ("sorted", "dedup", "rev"):
            out.append(t.op)
            t = t.a[0]
        elif t.op in ("seq", "plain", "enum", "setof"):
            if t.op == "setof":
                out.append("setof")
            t = t.a[0]
        else:
            break
    return out


@rule("E02")
def selected(cx):
    """every selection reaches the iteration whole, in the order of the file and without repetitions"""
    rep = cx.rep
    n = 0
    for name in ("select_all", "select_query", "select_attr_query", "select_all_seq", "select_query_seq", "select_attr_query_seq"):
        for fn in cx.w.find(name, required=False):
            http = "http_reader" in fn.path
            nm = ("HttpFcbReader::" if http else "FcbReader::") + name
            loc = fn.loc()
            fl, ret = cx.flow(fn, opaque=("HttpMultiIndex::query", "MultiIndex::query", "StreamMultiIndex::query", "MemoryMultiIndex::query", "build_query", "http_stream_search", "stream_search", "stream_search_seq", "search", "make_batches", "FeatureIter::new"))
            if http:
                for kind, f in (("SelectAll", "features_left"), ("SelectBbox", "feature_batches"), ("SelectAttr", "ranges")):
                    seen = set()
                    for e in fl.events:
                        if e.kind != "agg" or e.args[0].op != "agg" or last(str(e.args[0].a[0])) != kind:
                            continue
                        v = dict(zip(e.args[0].a[3], e.args[0].a[4:])).get(f)
                        if v is None or v in seen:
                            continue
                        seen.add(v)
                        n += 1
                        if kind == "SelectAll":
                            try:
                                got = ev(v, lambda x: 9 if x.op == "call" and last(x.a[0]) == "features_count" else False if x.op == "fails" else None)
                                rep.check(got == 9, "selected", nm + ": all", e.loc, "%d of 9 features are iterated over" % got)
                            except Unknown as u:
                                rep.open("selected", nm + ": all", e.loc, show(u.args[0], 3))
                        elif kind == "SelectBbox":
                            t = v
                            if t.op == "payload":
                                t = t.a[0]
                            if t.op == "call" and last(t.a[0]) == "make_batches":
                                uncut(rep, nm + ": all", t.a[1][0], ("http_stream_search",), e.loc)
                            else:
                                uncut(rep, nm + ": all", v, ("make_batches",), e.loc)
                        else:
                            inorder(rep, nm, v, e.loc, cx, fl)
            else:
                for e in fl.events:
                    if e.kind == "call" and e.name.endswith("FeatureIter::new"):
                        names = [p.a[0] for p in params(cx.one("FeatureIter::new"))]
                        a = dict(zip(names, e.args))
                        n += 1
                        for f in ("item_filter", "item_attr_filter"):
                            v = a.get(f)
                            if v is None:
                                continue
                            want = (f == "item_filter") == ("select_query" in name) and "all" not in name
                            if v.op == "agg" and v.a[2] == "None":
                                if want:
                                    rep.bad("selected", nm + ": selection", e.loc, "the selection is not applied")
                                continue
                            if v.op == "agg" and v.a[2] == "Some":
                                if f == "item_filter":
                                    uncut(rep, nm + ": all", v.a[4], ("stream_search", "stream_search_seq", "search", "http_stream_search"), e.loc)
                                else:
                                    inorder(rep, nm, v.a[4], e.loc, cx, fl)
    rep.floor("selected", 6)


def treed(cx, fl):
    """the function sorts by collecting into a tree"""
    names = {e.fn if isinstance(e.fn, str) else e.fn.path for e in fl.events} | {fl.fn.path if hasattr(fl, "fn") else ""}
    return any(n in cx.w.fns and "BTree" in repr(cx.w.fns[n].bb) + repr(getattr(cx.w.fns[n], "locals", "")) for n in names)


def inorder(rep, nm, v, loc, cx=None, fl=None):
    ops = ordered(v)
    t = v
    if "sorted" not in ops and ("dedup" not in ops or treed(cx, fl)):
        return rep.open("selected", nm + ": in file order", loc, show(v, 3))
    if "sorted" in ops:
        i = ops.index("sorted")
        rep.check("rev" not in ops[:i], "selected", nm + ": in file order", loc, "the features are delivered backwards")
        rep.check("dedup" in ops[:i] or "setof" in ops, "selected", nm + ": each once", loc, "a feature found twice is delivered twice")
    else:
        rep.bad("selected", nm + ": in file order", loc, "the features are delivered in the order they are found in")


@rule("E02")
def tool(cx):
    """the tool's decoder goes on until the iteration ends, and writes every feature it is given"""
    rep = cx.rep
    for fn in cx.w.user_fns(("fcb",)):
        if fn.is_closure() or last(fn.path) != "deserialize":
            continue
        fl, ret = cx.flow(fn, opaque=("FcbReader::open", "select_all_seq", "select_all", "FeatureIter::next", "cur_cj_feature", "to_cj_metadata", "get_reader", "get_writer"))
        nexts = [e for e in fl.events if e.kind == "call" and last(e.name) == "next" and "FeatureIter" in e.name]
        walked = {e.loops[-1] for e in nexts if e.loops}
        if len(walked) != 1 or len(nexts) != len([e for e in nexts if e.loops]) or len(nexts) > 1:
            # several steps: some before the loop or in another function
            rep.open("tool", "deserialize: every feature", fn.loc(), "%d steps" % len(nexts))
            continue
        k = walked.pop()
        nx = nexts[0]
        given = lambda g: assign(g, lambda a: 1 if nextish(a) else False if a.op == "fails" else 0 if a.op == "discr" and a.a[0].op == "call" and last(a.a[0].a[0]) in ("cur_cj_feature", "to_string", "to_vec", "to_writer", "write_all", "write_fmt") else None)
        rep.check(given(nx.guard) is TRUE, "tool", "deserialize: each step", nx.loc, "a step is only taken when %s" % show(nx.guard, 4))
        outs = [e for e in fl.events if k in e.loops and e.kind in ("call", "mutate", "io") and last(e.name) in ("write_fmt", "write_all", "to_writer", "write") and any(x.op == "call" and last(x.a[0]) == "cur_cj_feature" for a in e.args for x in walk(a))]
        rest = TRUE
        for e in outs:
            rest = AND(rest, NOT(given(e.guard)))
        if not outs:
            rep.open("tool", "deserialize: every feature", fn.loc(), "what is written is not recognised")
        elif rest is FALSE:
            rep.ok("tool", "deserialize: every feature", fn.loc())
        else:
            rep.bad("tool", "deserialize: every feature", outs[0].loc, "a feature is not written when %s" % show(rest, 5))
        early = [(d, g) for d, g in ((d, given(g)) for d, g in early_exits(fl, k)) if g is not FALSE]
        rep.check(not early, "tool", "deserialize: to the end", fn.loc(), early and "stops early when %s" % show(early[0][1], 5) or "")
    rep.floor("tool", 1)
