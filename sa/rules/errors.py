"""E01: the fate of every fallible result, by dataflow over the MIR of each function."""
import re
from mir import short, strip_generics, iter_consts
from rules import rule

RESULT = "std::result::Result"
SKIP_ERR = re.compile(r"^(usize|std::fmt::Error|std::env::VarError|std::convert::Infallible|!|.*as serde::.*|clap::.*)$")
SKIP_TRAIT = re.compile(r"^(std::fmt::|serde|clap|_serde|core::fmt::|.*::_serde)")
# how a Result-consuming method treats the failure
SWALLOW = {"unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "is_err", "map_or", "map_or_else", "err", "iter", "into_iter", "is_ok_and", "is_err_and", "or", "flatten",
           "unwrap_err", "expect_err"}
PASS = {"map", "map_err", "and_then", "and", "inspect", "inspect_err", "as_ref", "as_mut", "copied", "cloned", "transpose", "context", "with_context", "branch", "into", "from",
        "clone", "as_deref", "to_owned"}
PANIC = {"unwrap", "expect", "unwrap_unchecked"}
# failures of these are answers to "does it have this form?": branching on them is not an error swallowed
FORMAT_ERR = re.compile(r"(Parse\w*Error|TryFromIntError|chrono::ParseError|TryFromSliceError|Utf8Error)$")
# failing lookups in memory whose caller does the work instead
REDO = {"get_entry": "cache miss, the entry is fetched instead"}
OPT_OK = {"ok_or", "ok_or_else", "unwrap", "expect"}
OPT_PASS = {"map", "and_then", "filter", "as_ref", "as_deref", "copied", "cloned", "zip", "inspect", "branch"}
ADAPT = {"flatten", "flat_map", "filter_map", "map_while", "find_map"}


def res_err(t):
    """error type of a Result type, else None"""
    if t is not None and t.k == "adt" and t.path.endswith("result::Result"):
        e = t.targ(1)
        return e.s if hasattr(e, "s") else str(e)
    return None


def whole(o):
    """local moved or copied as a whole by an operand"""
    if isinstance(o, dict):
        p = o.get("mv") or o.get("cp")
        if p and not p[1]:
            return p[0]
    return None


def bases(x, out=None):
    """locals an rvalue or operand reads, with the projection"""
    out = [] if out is None else out
    if isinstance(x, dict):
        for k in ("mv", "cp"):
            if k in x:
                out.append((x[k][0], x[k][1]))
                return out
        if "const" in x:
            return out
        for k, v in x.items():
            if k == "p" and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int):
                out.append((v[0], v[1]))
            elif k not in ("sp", "a", "t"):
                bases(v, out)
    elif isinstance(x, list):
        for v in x:
            bases(v, out)
    return out


class Fates:
    def __init__(self, fn):
        self.fn = fn
        self.uses = {}
        self.live = set(fn.rpo())
        for b in fn.rpo():
            blk = fn.bb[b]
            for i, s in enumerate(blk["s"]):
                if "r" in s:
                    for l, pr in bases(s["r"]):
                        self.uses.setdefault(l, []).append(("s", b, i, pr))
            t = blk["t"]
            if t["k"] == "call":
                for n, a in enumerate(t["args"]):
                    for l, pr in bases(a):
                        self.uses.setdefault(l, []).append(("c", b, n, pr))
            elif t["k"] == "switch":
                for l, pr in bases(t["d"]):
                    self.uses.setdefault(l, []).append(("sw", b, 0, pr))
            elif t["k"] == "yield":
                for l, pr in bases({k: v for k, v in t.items() if k not in ("k", "t", "sp")}):
                    self.uses.setdefault(l, []).append(("y", b, 0, pr))

    def sources(self):
        """(local, block, what) of every place a Result comes into being from a call"""
        fn = self.fn
        for b in fn.rpo():
            t = fn.bb[b]["t"]
            if t["k"] == "call":
                c = t["f"].get("const", {}).get("fn") if isinstance(t["f"], dict) else None
                nm = short(strip_generics(c["p"])) if c else "closure"
                if nm in ("from_residual", "branch", "from_output"):
                    continue
                if not t["d"][1] and res_err(fn.ty(t["d"][0])) is not None:
                    yield t["d"][0], b, nm
            for s in fn.bb[b]["s"]:
                # Result taken out of another container (Poll, Option, Vec element, tuple)
                r = s.get("r")
                if r and r["k"] == "use" and s.get("p") and not s["p"][1] and res_err(fn.ty(s["p"][0])) is not None:
                    for l, pr in bases(r):
                        if pr:
                            yield s["p"][0], b, "element"

    def fate(self, l, seen=None):
        """list of (verdict, block, why): verdict in ok, bad, open"""
        seen = set() if seen is None else seen
        if l in seen:
            return []
        seen.add(l)
        fn = self.fn
        if l == 0:
            return [("ok", None, "returned")]
        out = []
        for kind, b, i, pr in self.uses.get(l, []):
            if kind == "y":
                out.append(("ok", b, "yielded"))
            elif kind == "s":
                s = fn.bb[b]["s"][i]
                out += self.stmt(l, s, b, pr, seen)
            elif kind == "c":
                t = fn.bb[b]["t"]
                out += self.call(l, t, b, i, pr, seen)
        if not out:
            return [("bad", None, "the result is dropped without being looked at")]
        return out

    def stmt(self, l, s, b, pr, seen):
        fn = self.fn
        r = s["r"]
        d = s.get("p")
        if r["k"] == "discr":
            return self.switch(l, d, b)
        if r["k"] in ("use", "cast"):
            if pr:
                return []           # payload taken in an arm: judged by the switch
            if d and not d[1]:
                return self.fate(d[0], seen) if d[0] != 0 else [("ok", b, "returned")]
            return [("ok", b, "stored")]
        if r["k"] in ("ref", "rawptr"):
            if pr:
                return []
            if d and not d[1]:
                return self.ref(l, d[0], b, seen)
            return [("open", b, "borrowed")]
        if r["k"] == "agg":
            return [("ok", b, "stored")] if d and (d[0] == 0 or d[1]) else [("ok", b, "kept in a value")]
        return [("open", b, r["k"])]

    def ref(self, l, r, b, seen):
        """a borrowed result: only queries on it matter"""
        out = []
        for kind, bb, i, pr in self.uses.get(r, []):
            if kind == "c":
                t = self.fn.bb[bb]["t"]
                c = t["f"].get("const", {}).get("fn")
                nm = short(strip_generics(c["p"])) if c else ""
                if nm in ("is_ok", "is_err"):
                    out += self.boolean(t["d"], bb, nm == "is_err")
                elif nm in ("as_ref", "as_mut", "as_deref") and not t["d"][1]:
                    out += self.fate(t["d"][0], seen)
                else:
                    out.append(("open", bb, "passed by reference to %s" % nm))
            elif kind == "s":
                s = self.fn.bb[bb]["s"][i]
                if s["r"]["k"] == "discr":
                    out += self.switch(l, s["p"], bb)
        return out

    def boolean(self, d, b, truthy_err):
        """is_err()/is_ok() result tested"""
        fn = self.fn
        if d[1]:
            return [("open", b, "flag stored")]
        for kind, bb, i, pr in self.uses.get(d[0], []):
            if kind == "sw":
                t = fn.bb[bb]["t"]
                arms = {v: x for v, x in t["arms"]}
                tgt = (arms.get("1", t["o"]) if truthy_err else arms.get("0", t["o"]))
                return [self.arm(bb, tgt, set(), set())]
        return [("bad", b, "only the success flag of the result is kept")]

    def switch(self, l, d, b):
        """match on the result: the Err arm must carry the failure on"""
        fn = self.fn
        if not d or d[1]:
            return [("open", b, "discriminant stored")]
        out = []
        for kind, bb, i, pr in self.uses.get(d[0], []):
            if kind == "sw":
                t = fn.bb[bb]["t"]
                arms = {v: x for v, x in t["arms"]}
                tgt = arms.get("1", t["o"])
                out.append(self.arm(bb, tgt, {l}, {l}))
        return out or [("open", b, "discriminant not switched on")]

    def arm(self, sb, tgt, carry, res):
        """from the failure arm: does every way to a return carry an error? ('ok'|'bad'|'open', block, why)"""
        fn = self.fn
        if fn.bb[tgt]["t"]["k"] == "unreachable":
            return ("ok", tgt, "failure impossible")
        l0 = next(iter(res), None)
        state = {tgt: frozenset(carry)}
        work = [tgt]
        ends = {}
        tested = False
        while work:
            b = work.pop()
            cur = set(state[b])
            blk = fn.bb[b]
            for s in blk["s"]:
                r, d = s.get("r"), s.get("p")
                if r is None or d is None:
                    continue
                src = any(x in cur for x, _ in bases(r))
                iserr = r["k"] == "agg" and r.get("p", "").endswith("result::Result") and r.get("v") == 1
                if r["k"] == "discr" and src and r["p"] != [l0, []]:
                    src = False
                    cur.add(("test", d[0]))
                elif r["k"] == "discr":
                    src = False
                if any(("test", x) in cur for x, _ in bases(r)):
                    cur.add(("test", d[0]))
                if src or iserr and (d[0] == 0 or not d[1]):
                    cur.add(d[0])
                elif not d[1]:
                    cur.discard(d[0])
            t = blk["t"]
            nxt = fn.succ(b)
            if t["k"] == "call":
                c = t["f"].get("const", {}).get("fn")
                nm = short(strip_generics(c["p"])) if c else ""
                src = any(x in cur for a in t["args"] for x, _ in bases(a))
                d = t["d"]
                ty = fn.ty(d[0])
                if any(("test", x) in cur for a in t["args"] for x, _ in bases(a)):
                    cur.add(("test", d[0]))
                if nm == "from_residual":
                    cur.add(d[0])
                elif src and nm in ("kind", "is_io", "eq", "ne", "matches", "is_eof", "is_timeout"):
                    cur.discard(d[0])
                    cur.add(("test", d[0]))
                elif src and ty.s not in ("()", "bool"):
                    cur.add(d[0])
                elif src and ty.s == "()" and any(is_mutref(fn, a) for a in t["args"]):
                    # handed to something that keeps it
                    for a in t["args"]:
                        if is_mutref(fn, a):
                            for x, _ in bases(a):
                                cur.add(x)
                elif not d[1]:
                    cur.discard(d[0])
                if nm == "exit":
                    nxt = []
            elif t["k"] == "switch":
                if any(x in cur or ("test", x) in cur for x, _ in bases(t["d"])):
                    tested = True
            if t["k"] == "return":
                ends[b] = 0 in cur
                continue
            for n in nxt:
                if fn.bb[n]["c"]:
                    continue
                old = state.get(n)
                new = frozenset(cur) if old is None else old & frozenset(cur)
                if old is None or new != old:
                    state[n] = new
                    work.append(n)
        # only the last recorded state of each return counts
        lost = [b for b, okk in ends.items() if not okk]
        if not lost:
            return ("ok", tgt, "failure returned")
        if tested:
            return ("open", tgt, "the failure is inspected and one kind of it is handled")
        return ("bad", tgt, "execution continues past the failure and can return success")

    def call(self, l, t, b, n, pr, seen):
        fn = self.fn
        if pr:
            return []
        c = t["f"].get("const", {}).get("fn")
        if not c:
            return [("ok", b, "passed on")]
        p = strip_generics(c["p"])
        nm = short(p)
        if nm == "branch" or nm == "from_residual":
            return [("ok", b, "?")]
        if "drop" == nm:
            return [("bad", b, "the result is dropped")]
        if "result::Result" in p or nm in PASS and c.get("trait"):
            if nm in PANIC:
                return [("ok", b, "panics on failure")]
            if nm == "ok":
                return self.option(t["d"], b, "its failure is discarded by ok()", set())
            if nm == "or_else":
                return [("open", b, "or_else")]
            if nm in SWALLOW:
                return [("bad", b, "the failure is replaced by %s()" % nm)]
            if nm in PASS:
                if t["d"][1]:
                    return [("ok", b, "stored")]
                return self.fate(t["d"][0], seen)
        if not t["d"][1] and res_err(fn.ty(t["d"][0])) is not None:
            return [("ok", b, "passed through %s" % nm)]
        return [("ok", b, "passed to %s" % nm)]

    def option(self, d, b, why, seen):
        """the Option made of a Result: its absence must still become an error"""
        fn = self.fn
        if d[1]:
            return [("bad", b, why)]
        if d[0] == 0:
            return [("bad", b, why)]
        if d[0] in seen:
            return []
        seen.add(d[0])
        out = []
        for kind, bb, i, pr in self.uses.get(d[0], []):
            if kind == "c" and not pr:
                t = fn.bb[bb]["t"]
                c = t["f"].get("const", {}).get("fn")
                nm = short(strip_generics(c["p"])) if c else ""
                if nm in OPT_OK:
                    out.append(("ok", bb, nm))
                elif nm == "branch":
                    out.append(("bad", bb, why) if not self.option_fn() else ("open", bb, "absence returned"))
                elif nm in OPT_PASS:
                    out += self.option(t["d"], bb, why, seen)
                else:
                    out.append(("bad", bb, why))
            elif kind == "s":
                s = fn.bb[bb]["s"][i]
                if s["r"]["k"] == "use" and not pr and s.get("p"):
                    out += self.option(s["p"], bb, why, seen)
                elif s["r"]["k"] == "discr":
                    for k2, b2, i2, _ in self.uses.get(s["p"][0], []):
                        if k2 == "sw":
                            t = fn.bb[b2]["t"]
                            arms = {v: x for v, x in t["arms"]}
                            v = self.arm(b2, arms.get("0", t["o"]), set(), set())
                            out.append(v if v[0] == "ok" else ("bad", b2, why))
        return out or [("bad", b, why)]

    def option_fn(self):
        return self.fn.ty(0).s.startswith("std::option::Option")


def is_mutref(fn, a):
    for l, pr in bases(a):
        if not pr and fn.ty(l).is_mut_ref():
            return True
    return False


def skip_fn(f):
    tr = f.impl_trait or ""
    if SKIP_TRAIT.match(tr):
        return True
    p = f.path
    return bool(re.search(r"_serde|as serde::|as clap::|as std::fmt::|::_::", p)) or "/bin/" in f.file or "mock" in f.file


@rule("E01")
def results_reach_the_caller(cx):
    R = "E01.result"
    nbad = {}
    for f in cx.w.user_fns():
        if skip_fn(f):
            continue
        fa = Fates(f)
        cx.rep.functions.add(f.path)
        cx.rep.blocks += len(fa.live)
        name = short(strip_generics(f.parent or "")) + "::" + short(f.path) if f.is_closure() else disp(f)
        cnt = {}
        for l, b, nm in fa.sources():
            e = res_err(f.ty(l))
            if e is None or SKIP_ERR.match(e) or nm in ("ok_or", "ok_or_else") and False:
                continue
            cnt[nm] = cnt.get(nm, 0) + 1
            if infallible(f, b, nm):
                cx.rep.ok(R, "%s: %s" % (name, nm), f.loc(b), "cannot fail")
                continue
            fates = fa.fate(l)
            key = "%s: %s%s" % (name, nm, "" if cnt[nm] == 1 else "#%d" % cnt[nm])
            bad = [x for x in fates if x[0] == "bad"]
            if bad and FORMAT_ERR.search(e) and all("replaced" not in x[2] and "without being looked" not in x[2] for x in bad):
                cx.rep.open(R, key, f.loc(b), "conversion used as a test of form: " + bad[0][2])
            elif bad and nm in REDO and all("execution continues" in x[2] for x in bad):
                cx.rep.ok(R, key, f.loc(b), REDO[nm])
            elif bad:
                v, bb, why = bad[0]
                # named by file, callee and treatment, so that moving code does not rename a finding
                k0 = (f.file, nm)
                nbad[k0] = nbad.get(k0, 0) + 1
                key = "%s: %s #%d" % (f.file.split("src/", 1)[-1], nm, nbad[k0])
                cx.rep.bad(R, key, f.loc(b), "%s returns a %s: %s (%s)" % (nm, e, why, f.loc(bb) if bb is not None else f.loc(b)))
            elif any(x[0] == "open" for x in fates):
                x = [x for x in fates if x[0] == "open"][0]
                cx.rep.open(R, key, f.loc(b), x[2])
            else:
                cx.rep.ok(R, key, f.loc(b), fates[0][2] if fates else "")
        # adaptors that drop the failures inside an iterator of results
        for b, c, t in f.calls():
            if not c:
                continue
            nm = short(strip_generics(c["p"]))
            if nm in ADAPT and c.get("trait", "").endswith("Iterator"):
                its = item_type(f, c)
                fi = [short(strip_generics(x["fn"]["p"])) for a in t["args"] for x in iter_consts(a) if x.get("fn")]
                key = "%s: %s" % (name, nm)
                if nm == "flatten" and its and "result::Result" in its or any(x == "ok" for x in fi):
                    cx.rep.bad("E01.adaptor", key, f.loc(b), "failures inside the iterator are dropped")
                else:
                    cx.rep.ok("E01.adaptor", key, f.loc(b))
            elif any(x.get("fn") and strip_generics(x["fn"]["p"]).endswith("result::Result::ok") for a in t["args"] for x in iter_consts(a)):
                cx.rep.bad("E01.adaptor", "%s: %s(Result::ok)" % (name, nm), f.loc(b), "failures are dropped by Result::ok")
    cx.rep.floor(R, 350)


def disp(f):
    p = strip_generics(f.path)
    p = p.split("::", 1)[1] if p.startswith(("fcb_core::", "fcb::")) else p
    return p


def item_type(f, c):
    try:
        s = f.w.type(f.crate, c["self"]).s if c.get("self") is not None else ""
    except Exception:
        return ""
    return s if re.search(r"Lines<|Result<", s) else ""


def infallible(f, b, nm):
    """serialising an in-memory JSON value to a string cannot fail"""
    c = f.bb[b]["t"]["f"].get("const", {}).get("fn") if f.bb[b]["t"]["k"] == "call" else None
    if c and strip_generics(c["p"]) in ("serde_json::to_string", "serde_json::to_vec", "serde_json::to_string_pretty", "serde_json::to_value"):
        a = c.get("a") or []
        return any(isinstance(x, int) and f.w.type(f.crate, x).s == "serde_json::Value" for x in a)
    return False
