"""Where the analysis is cut into separately analysed pieces.

* `ToTokens` of a type that contains itself (the recursive part of the AST) is a hole in its
  user and a root of its own;
* a function with such a value among its parameters that can still reach itself through calls
  is a hole and a root as well;
* `Parse` of a local type is a hole and a root.
"""
from .core import CLASSES
from .util import some, none, ok, err, variants, append, tpath


def strip(p, t):
    while p.ty(t)["k"] == "ref":
        t = p.ty(t)["to"]
    return t


def type_children(p, t, memo):
    if t in memo:
        return memo[t]
    memo[t] = set()
    out = set()
    ty = p.ty(t)
    k = ty["k"]
    if k in ("ref", "ptr", "slice", "array"):
        out.add(ty["to"])
    elif k == "tuple":
        out.update(ty["f"])
    elif k == "adt":
        out.update(ty.get("args") or ())
        if ty["local"]:
            for v in ty["variants"]:
                out.update(f[1] for f in v["f"] if f[1] is not None)
    memo[t] = out
    return out


def type_reach(p, t, memo):
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        for y in type_children(p, x, memo):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def recursive_types(p):
    memo = {}
    out = set()
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t.get("local") and i in type_reach(p, i, memo):
            out.add(t["path"])
    return out


def call_graph(p, skip=()):
    totok = {f.get("self"): k for k, f in p.fns.items() if f["local"] and "body" in f and
             (f.get("trait") or "").endswith("ToTokens") and f["path"].endswith("::to_tokens")}
    g = {}
    for k, f in p.fns.items():
        if "body" not in f or not f["local"]:
            continue
        out = set()
        for bl in f["body"]["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                    out.add(p.ty(s[2][3][0]).get("inst"))
            t = bl["t"]
            if t[0] != "call":
                continue
            c = t[1]
            inst = c.get("inst")
            if inst:
                out.add(inst)
            for o in t[2]:
                if o[0] == "k" and o[1].get("k") == "fn":
                    out.add(p.ty(o[1]["t"]).get("inst"))
            for a in t[6]:
                st = [strip(p, a)]
                tt = p.ty(st[0])
                while tt["k"] == "adt" and tt["args"]:
                    st.append(strip(p, tt["args"][0]))
                    tt = p.ty(st[-1])
                for a2 in st:
                    tt = p.ty(a2)
                    if tt["k"] == "adt" and tt["path"] in totok:
                        out.add(totok[tt["path"]])
        g[k] = {x for x in out if x and x not in skip}
    return g


def cyclic(g):
    out = set()
    for k in g:
        seen = set()
        work = list(g[k])
        while work:
            x = work.pop()
            if x == k:
                out.add(k)
                break
            if x in seen:
                continue
            seen.add(x)
            work.extend(g.get(x, ()))
    return out


class Cuts:
    def __init__(self, prog, parsers=False, names=None):
        self.p = prog
        self.parsers = parsers       # the parsers of local types are cut as well (of those with these names)
        self.names = names
        self.self_of = {}
        self.sums = {}               # parser -> (first tokens, can it fail)
        self.rec = recursive_types(prog)
        self.tok = {}                # self type path -> instance
        self.parse = {}
        for k, f in prog.fns.items():
            if not f["local"] or "body" not in f:
                continue
            tr = f.get("trait") or ""
            if tr.endswith("ToTokens") and f["path"].endswith("::to_tokens") and f.get("self") in self.rec:
                self.tok[f["self"]] = k
            if tr == "syn::parse::Parse" and f["path"].endswith("::parse") and not any(
                    (g.get("trait") or "").endswith("token::private::CustomToken") and g.get("self") == f["self"] for g in prog.fns.values()):
                self.parse[f["self"]] = k
                self.self_of[k] = f["self"]
        self.holes = set(self.tok.values())
        self.fn = set()
        g = call_graph(prog, self.holes | set(self.parse.values()))
        for k in sorted(cyclic(g)):
            f = prog.fns[k]
            if "{closure" in k:
                continue
            b = prog.body(k)
            tys = [strip(prog, b.locals[i + 1]) for i in range(b.args)]
            if any(prog.ty(t)["k"] == "adt" and prog.ty(t)["path"] in self.rec for t in tys):
                self.fn.add(k)
        self.used = {}
        self.again = []              # recursive parsers at a position they were tried at before: (parser, position, function, place)
        self.calls = []              # pieces that are expanded: (what, arguments, place, facts)

    def __call__(self, I, st, ctx, args):
        inst = ctx.inst
        if not inst:
            return None
        if self.parsers and "Parse for " in ctx.path and ctx.path.endswith("::parse"):
            from .m_parse import keyword, m_parse_impl, self_name
            if keyword(I, self_name(ctx.path)) is not None:
                return m_parse_impl(I, st, ctx, args)
        if self.parsers and inst in self.self_of and ctx.fr.stack and (self.names is None or self.self_of[inst].split("::")[-1] in self.names):
            return self.nonterminal(I, st, ctx, args, self.self_of[inst])
        if inst.endswith("spanned::Spanned>::span") and args and ctx.argtys:
            # the span of something that is written as tokens is the span of the tokens
            t = self.p.ty(strip(self.p, ctx.argtys[0]))
            if t["k"] == "adt" and t["path"] in self.tok:
                v = args[0]
                for _ in range(4):
                    w = I.deref(st, v)
                    if w is v or w == v:
                        break
                    v = w
                self.called(I, st, ctx, (self.tok[t["path"]], I.freeze(st, v)))
        if inst in self.holes:
            self.used.setdefault(inst, set()).add(I.freeze(st, args[0]))
            v = I.deref(st, args[0])
            self.called(I, st, ctx, (inst, I.freeze(st, v)))
            return [(append(I, st, args[1], (("hole", inst, I.freeze(st, v)),)), ("tup", ()))]
        if inst in self.fn and ctx.fr.stack:
            fz = tuple(I.freeze(st, a) for a in args)
            self.used.setdefault(inst, set()).add(fz)
            self.called(I, st, ctx, (inst, fz))
            return [(st, ("sym", ("rec", inst, fz), ctx.rt))]
        return None

    def called(self, I, st, ctx, what):
        if not st.taint:
            self.calls.append((what, (ctx.fr.stack, ctx.fr.key, ctx.at), st.facts))

    def nonterminal(self, I, st, ctx, args, name):
        """a local type is parsed: its tokens, or an error at an unknown place behind"""
        from .m_parse import stream, put, synerr, ok_ty, tok_class
        r = stream(I, st, args[0])
        if r is None or r[0] is None:
            return None
        ref, s = r
        ty = ok_ty(I, ctx.rt)
        out = []
        first, fails = self.summary(name)
        if name in self.rec and ("b", "parses", (name, s[1], s[2])) in st.facts and not st.taint:
            self.again.append((name, s, ctx.fr.stack[0], ctx.at))
        for tr, x in I.test(st, ("b", "parses", (name, s[1], s[2])), (1,)):
            if not tr and not fails:
                continue
            if tr:
                if first is not None:
                    xs = [y for t2, y in tok_class(I, x, s, 0, first) if t2]
                    if not xs:
                        continue
                    x = xs[0]
                x = put(I, x, ref, ("stream", ("after", name, s[1], s[2]), 0))
                out.append((x, ok(I, ctx.rt, ("sym", ("nt", name, s[1], s[2]), ty))))
            else:
                e = ("stream", ("errpos", name, s[1], s[2]), 0)
                out.append((put(I, x, ref, e), err(I, ctx.rt, synerr(e, (("nterr", name),)))))
        self.used.setdefault(name, set()).add((ctx.fr.stack[0], s))
        return out

    def summary(self, name):
        """(classes of the first token of anything that parses as `name`, can it fail?)"""
        if name in self.sums:
            return self.sums[name]
        self.sums[name] = (None, True)
        from .run import new, entry, analyse
        I = new(self.p, self)
        key = self.parse[name]
        st, args, oc, bc = entry(I, key)
        first, fails = set(), False
        for s, v in analyse(I, key, args, st):
            for s2, i, f in variants(I, s, v) or [(s, 0, None)]:
                if f is None or first is None:
                    first, fails = None, True
                elif I.p.ty(I.p.fns[key]["body"]["locals"][0])["variants"][i]["n"] == "Err":
                    fails = True
                else:
                    k = ("tok", ("input",), 0)
                    f = s2.facts.get(k)
                    if f is None:
                        first = None
                    else:
                        first |= f[1] if f[0] else CLASSES - f[1]
        self.sums[name] = (frozenset(first) if first is not None else None, fails)
        return self.sums[name]
