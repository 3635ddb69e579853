"""Rule modules. Each rule is a function of a Ctx that records obligations in ctx.rep."""
from flow import Flow
from mir import AnchorError, short, strip_generics
from term import *

RULES = {}


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return d


class Ctx:
    def __init__(self, w, rep, tier):
        self.w, self.rep, self.tier = w, rep, tier
        self._fl = {}

    def flow(self, fn, opaque=(), **k):
        """value-flow summary of a root function (cached) -> (Flow, return term)"""
        key = (fn.path, fn.crate, tuple(sorted(opaque)), tuple(sorted((a, str(b)) for a, b in k.items())))
        if key not in self._fl:
            fl = Flow(self.w, opaque=opaque, **k)
            r = fl.run(fn)
            fl.ret = r
            self.rep.flow(fl)
            self._fl[key] = (fl, r)
        return self._fl[key]

    def one(self, suffix, crate="fcb_core"):
        return self.w.one(suffix, crate)

    def fns(self, pred, crates=("fcb_core", "fcb")):
        return [f for f in self.w.user_fns(crates) if pred(f)]


def params(fn):
    return [mk("param", fn.names.get(i + 1, "arg%d" % i), short(fn.path)) for i in range(fn.argc)]


def final(fl, p):
    """final value behind a reference parameter"""
    return fl.state.get(("cell", p), p)


def sname(f):
    """stable display name of a function: module-free, generics removed"""
    p = strip_generics(f.path)
    return p


import importlib, os  # noqa: E402
for _m in sorted(os.listdir(os.path.dirname(__file__))):
    if _m.endswith('.py') and not _m.startswith('_'):
        importlib.import_module('rules.' + _m[:-3])
