"""The macro's entry: everything goes through the error handling of proc_macro_error2, which needs its substitute first."""
from engine.cuts import Cuts
from engine.core import Ctx
from engine.ir import Prog
from engine.models import models
from engine.run import new, entry, analyse, show_items
from engine.util import DIAG
from .compare import short


def show(v):
    from engine.run import show_key
    try:
        return show_key(v)[:160]
    except Exception:
        return str(v)[:160]


class Entry:
    def __init__(self, dump):
        self.found = []        # (where, rule, detail)
        self.undecided = []
        self.points = 0
        self.macro(Prog(dump + "/leptos_mview_macro.json"))
        self.core(Prog(dump + "/leptos_mview_core.json"))

    def macro(self, p):
        keys = [k for k, f in p.fns.items() if f["local"] and "body" in f and f["path"] == "mview"]
        if len(keys) != 1:
            self.undecided.append("the macro's function is not found")
            return
        wrapped = []

        def ms(I, st, ctx, args):
            if ctx.path == "proc_macro_error2::entry_point":
                f = I.deref(st, args[0])
                if f[0] == "adt" and len(f[3]) == 1:
                    f = f[3][0]
                out = []
                for s, v in I.call_value(st, f, [], Ctx("<closure>", None, [], None, ctx.at, [], ctx.fr, None)):
                    wrapped.append(v)
                    out.append((s, ("sym", ("entry", I.freeze(s, v)), ctx.rt)))
                return out
            if ctx.path.endswith("mview_impl"):
                if I.p.fns.get(ctx.inst or "", {}).get("local"):
                    return None
                return [(st, ("sym", ("impl", I.freeze(st, I.deref(st, args[0]))), ctx.rt))]
            if ctx.path.endswith(("core::convert::Into<U>>::into", "core::convert::From>::from", "::into")) and "TokenStream" in (ctx.inst or "") and len(args) == 1:
                return [(st, args[0])]
            return models(I, st, ctx, args)
        I = new(p)
        I.models = ms
        st, args, oc, bc = entry(I, keys[0])
        res = analyse(I, keys[0], args, st)
        at = p.fns[keys[0]]["at"]
        if I.stops:
            self.found.append(("mview (%s)" % at, "the macro always answers", "it can stop: %s" % (I.stops[0][1],)))
        for s, v in res:
            self.points += 1
            v = I.deref(s, v)
            if v[0] == "sym" and v[1][0] == "entry":
                inner = v[1][1]
            else:
                if mentions(v, "impl") or not mentions(v, "havoc") and not mentions(v, "call"):
                    self.found.append(("mview (%s)" % at, "errors are turned into output: the expansion runs inside of proc_macro_error2::entry_point",
                                       "the result does not come from there: " + show(v)))
                else:
                    self.undecided.append("the result of the macro: " + show(v))
                continue
            x = strip(inner)
            if x != ("impl", ("sym", ("in", "a"), args[0][2])) and not (x[:1] == ("impl",) and strip(x[1])[:2] == ("in", "a") and len(strip(x[1])) == 2):
                if not mentions(inner, "impl") and not mentions(inner, "havoc"):
                    self.found.append(("mview (%s)" % at, "the macro hands its whole input to the implementation and its whole result back", "on some path it returns " + show(inner)))
                elif mentions(inner, "part"):
                    self.found.append(("mview (%s)" % at, "the macro hands its whole input to the implementation and its whole result back", "a part of it: " + show(inner)))
                elif s.taint or mentions(inner, "havoc") or mentions(inner, "call"):
                    self.undecided.append("the result of the macro: " + show(inner))
                else:
                    self.found.append(("mview (%s)" % at, "the macro hands its whole input to the implementation and its whole result back", show(inner)))

    def core(self, p):
        roots = [k for k, f in p.fns.items() if f["local"] and "body" in f and f["path"].endswith("mview_impl")]
        if len(roots) != 1:
            self.undecided.append("the implementation of the macro is not found")
            return
        cuts = Cuts(p)
        bad = {}
        n = [0]

        def before(st, ctx):
            n[0] += 1
            if "dummy" not in st.cells:
                bad.setdefault((ctx.path, ctx.at), "no substitute is set when %s is called (%s)" % (ctx.path, ctx.at))

        def cut(I, st, ctx, args):
            r = cuts(I, st, ctx, args)
            if r is not None:
                before(st, ctx)
            return r

        def ms(I, st, ctx, args):
            if ctx.path.startswith(("syn::parse", "syn::parse::Parser")) and not ctx.path.startswith("syn::parse::ParseBuffer") or \
                    ctx.path.startswith("proc_macro_error2::diagnostic::Diagnostic::") and ctx.path.endswith(("::emit", "::abort")):
                before(st, ctx)
            return models(I, st, ctx, args)
        I = new(p, cut)
        I.models = ms
        st, args, oc, bc = entry(I, roots[0])
        res = analyse(I, roots[0], args, st)
        self.points += n[0]
        at = p.fns[roots[0]]["at"]
        for k, what in sorted(bad.items()):
            self.found.append(("mview_impl (%s)" % at, "`()` is set as substitute before anything can report an error", what))
        for s in [s for s, v in res] + [x[2] for x in I.stops]:
            d = s.cells.get("dummy")
            if d is not None and d[1] not in ((("g", "(", ()),), (("g", "{", ()),)):
                self.found.append(("mview_impl (%s)" % at, "the substitute is the unit expression", "it is `%s`" % show_items(d[1])[:80]))
        # no other function touches it, or keeps an abort from ending the expansion
        for key, f in p.fns.items():
            if not f["local"] or "body" not in f:
                continue
            for path, inst in calls(f["body"]):
                if path.endswith("append_dummy"):
                    self.found.append((key, "the substitute is the unit expression", "append_dummy is called"))
                if path.endswith("catch_unwind"):
                    self.found.append((key, "an abort ends the expansion", "catch_unwind is called"))
                if path.endswith(("set_dummy",)) and not f["path"].endswith("mview_impl") and not self.used_by_root(p, roots[0], key):
                    self.found.append((key, "the substitute is the unit expression", "set_dummy is called besides the entry"))

    def used_by_root(self, p, root, key):
        todo, seen = [root], set()
        while todo:
            k = todo.pop()
            if k in seen or k not in p.fns or "body" not in p.fns[k]:
                continue
            seen.add(k)
            if k == key:
                return True
            todo += [inst for path, inst in calls(p.fns[k]["body"])]
        return False


def calls(body):
    from .effects import defs
    out = []
    defs(body["blocks"], out)
    return out


def strip(x):
    while isinstance(x, tuple) and x[:1] == ("sym",):
        x = x[1]
    return x


def mentions(x, k):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            if y[:1] == (k,):
                return True
            todo.extend(y)
    return False
