"""Models: vectors, slices, iterators."""
import re
from .core import UNIT, TRUE, FALSE, EMPTY, norm_str, const_str, neg, subst, exists_key, one_to_one, gid, cells_key, Ctx, is_sym, contains
from .util import *

M = {}
SUF = []
FULL = frozenset((EMPTY,))


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


# ------------------------------------------------------------------ iterator values
def as_iter(I, st, v):
    """iterator value over any sequence / iterator / option"""
    v = I.deref(st, v)
    if v[0] == "iter":
        return v
    if v[0] == "adt" and vpath(I, v) == "core::option::Option":
        return ("iter", tuple(("e", x) for x in v[3]), ())
    if v[0] == "adt" and (vpath(I, v) or "") == "core::ops::range::Range" and len(v[3]) == 2:
        lo, hi = I.deref(st, v[3][0]), I.deref(st, v[3][1])
        if lo[0] == "int" and hi[0] == "int":
            return ("iter", tuple(("e", ("int", i)) for i in range(lo[1], hi[1])), ())
        if lo == ("int", 0) and hi[0] == "len" and hi[2] == 0 and hi[1][:1] != ("items",):
            return ("iter", (("star", hi[1], ((EMPTY, (("e", ("sym", ("ix", ("elem", hi[1])), None)),)),), None),), ())
        return None
    if v[0] == "adt" and len(v[3]) == 1 and v[3][0][0] in ("seq", "iter"):
        return as_iter(I, st, v[3][0])
    if v[0] == "sym" and (vpath(I, v) == "core::option::Option"):
        return None
    items = I.items(st, v)
    if items is not None:
        return ("iter", items, ())
    return None


def opt_iter(I, st, v):
    """[(st, iter)] for a possibly symbolic source"""
    v = I.deref(st, v)
    if v[0] == "sym" and vpath(I, v) == "core::option::Option":
        return [(s, ("iter", tuple(("e", x) for x in f), ())) for s, i, f in variants(I, st, v)]
    it = as_iter(I, st, v)
    if it is None:
        return None
    return [(st, it)]


def elem_of(src):
    return ("elem", src)


def ctx0(ctx):
    return Ctx("<closure>", None, [], None, ctx.at, [], ctx.fr, None)


def call(I, st, ctx, f, xs):
    return I.call_value(st, f, xs, ctx0(ctx))


def bools(I, st, ctx, f, xs):
    out = []
    for s, v in call(I, st, ctx, f, xs):
        out.extend(I.truth(s, v))
    return out


def apply_ops(I, st, ctx, x, ops, generic=None):
    """run element x through the adaptors -> [(st, value | None if dropped, ops)]"""
    out = [(st, x, ())]
    for o in ops:
        nxt = []
        for s, v, done in out:
            if v is None:
                nxt.append((s, None, done + (o,)))
            elif o[0] == "map":
                for s2, w in call(I, s, ctx, o[1], [v]):
                    nxt.append((s2, w, done + (o,)))
            elif o[0] == "inspect":
                for s2, w in call(I, s, ctx, o[1], [v]):
                    nxt.append((s2, v, done + (o,)))
            elif o[0] == "filter":
                for tr, s2 in bools(I, s, ctx, o[1], [v]):
                    nxt.append((s2, v if tr else None, done + (o,)))
            elif o[0] == "filter_map":
                for s2, w in call(I, s, ctx, o[1], [v]):
                    vs = variants(I, s2, w)
                    if vs is None:
                        nxt.append((s2, ("sym", ("fm", w), None), done + (o,)))
                    else:
                        for s3, i, f in vs:
                            nxt.append((s3, f[0] if f else None, done + (o,)))
            elif o[0] == "enumerate":
                if generic is not None:
                    tag = "enumraw" if any(x[0] in ("filter", "filter_map", "skip") for x in ops[len(done) + 1:]) else "enum"
                    nxt.append((s, ("tup", (("phi", (tag, generic), "count"), v)), done + (o,)))
                else:
                    nxt.append((s, ("tup", (("int", o[1]), v)), done + (("enumerate", o[1] + 1),)))
            elif o[0] == "skip":
                if o[1] > 0 and generic is None:
                    nxt.append((s, None, done + (("skip", o[1] - 1),)))
                elif o[1] == 0:
                    nxt.append((s, v, done + (o,)))
                else:
                    nxt.append((s, ("sym", ("skipped", generic, o[1]), None), done + (o,)))
            else:
                nxt.append((s, ("sym", ("op", o[0], v), None), done + (o,)))
        out = nxt
    return out


def nexts(I, st, ctx, cell, path):
    """advance the iterator stored at (cell, path) -> [(st, value | None)]"""
    it = I.load(st, cell, path)
    if it[0] != "iter":
        it2 = as_iter(I, st, it)
        if it2 is None:
            st = st.copy()
            I.havocs += 1
            return None
        it = it2
    segs, ops = it[1], it[2]
    if not segs:
        return [(st, None)]
    h = segs[0]
    out = []

    def put(s, sg, op):
        s = s.copy()
        I.store(s, cell, path, ("iter", sg, op))
        return s
    if h[0] == "e":
        for s, v, op in apply_ops(I, put(st, segs[1:], ops), ctx, h[1], ops):
            s = put(s, segs[1:], op)
            if v is None:
                r = nexts(I, s, ctx, cell, path)
                if r is None:
                    return None
                out.extend(r)
            else:
                out.append((s, v))
        return out
    if h[0] in ("starx0", "mutstarx0"):
        return nexts(I, put(st, ((h[0][:-1],) + tuple(h[1:]),) + segs[1:], ops), ctx, cell, path)
    if h[0] == "barrier":
        return []
    if h[0] in ("mutstar", "mutstarx"):
        _, src, mc, ev = h
        r = nexts(I, put(st, segs[1:], ops), ctx, cell, path)
        if r is None:
            return None
        out.extend(r)
        s = put(st, (("mutstarx",) + h[1:],) + segs[1:], ops)
        s.cells[mc] = ev
        for s2, v, op in apply_ops(I, s, ctx, ("ref", mc, ()), ops, src):
            out.append((s2, v if v is not None else ("dropped",)))
        return out
    if h[0] == "starx":
        # generic iteration
        r = nexts(I, put(st, segs[1:], ops), ctx, cell, path)
        if r is None:
            return None
        out.extend(r)
        src, cases = h[1], h[2]
        al = alternatives(I, cases)
        if al is not None:
            full = len(al) == len(cases)
            v0 = ("ts", (("alt", src, al),))
            ss = [st] if full else I.assume(st, ("b", "match", ("elem", src), gid(src, [g for g, _ in al])), (1,))
            for s in ss:
                for s2, v, op in apply_ops(I, s, ctx, v0, ops, src):
                    out.append((put(s2, segs, ops), v if v is not None else ("dropped",)))
            return out
        for g, items in cases:
            if not items:
                continue
            for s in assume_all(I, st, g):
                if len(items) != 1 or items[0][0] != "e":
                    out.append((put(s, segs, ops), ("sym", ("nested", src, items), None)))
                    continue
                for s2, v, op in apply_ops(I, s, ctx, items[0][1], ops, src):
                    if v is not None:
                        out.append((put(s2, segs, ops), v))
                    else:
                        # dropped: the iteration produces nothing and goes on
                        out.append((put(s2, segs, ops), ("dropped",)))
        return out
    if h[0] == "star":
        for s, v, rest in star_first(I, st, h):
            if v is None:
                r = nexts(I, put(s, segs[1:], ops), ctx, cell, path)
                if r is None:
                    return None
                out.extend(r)
            else:
                for s2, w, op in apply_ops(I, put(s, (rest,) + segs[1:], ops), ctx, v, ops, h[1]):
                    s2 = put(s2, (rest,) + segs[1:], ops)
                    out.append((s2, w if w is not None else ("dropped",)))
        return out
    s = put(st, segs[1:], ops)
    I.havocs += 1
    s.taint |= frozenset(("an iterator that is not tracked",))
    return [(s, ("sym", ("itunknown", h), None))]


def alternatives(I, cases):
    """the cases of a star of token streams as one value"""
    out = []
    for g, items in cases:
        if not items:
            continue
        if len(items) != 1 or items[0][0] != "e":
            return None
        v = items[0][1]
        if v[0] == "ts":
            out.append((g, v[1]))
        elif v[0] == "sym" and vpath(I, v) == "proc_macro2::TokenStream":
            out.append((g, (("u", v[1]),)))
        else:
            return None
    return tuple(out) if len(out) > 4 else None


def assume_all(I, st, guards):
    out = [st]
    for k, (pol, S) in sorted(guards, key=hash):
        nxt = []
        for s in out:
            if pol:
                nxt.extend(I.assume(s, k, S))
            else:
                for tr, s2 in I.test(s, k, S):
                    if not tr:
                        nxt.append(s2)
        out = nxt
    return out


def yields(star):
    """the conditions under which an element of the source yields something"""
    if one_to_one(star):
        return FULL
    return frozenset(g for g, items in star[2] if items)


def star_first(I, st, star):
    """first element a star yields -> [(st, value | None if it yields nothing, rest)]"""
    _, src, cases, sep = star
    gs = yields(star)
    key = exists_key(I, src, gs)
    out = []
    for tr, s in I.test(st, key, (1,)):
        if not tr:
            out.append((s, None, None))
            continue
        m = {("elem", src): ("first", src, gid(src, gs))}
        tail = ("tail", src, gid(src, gs))
        rest = ("star", tail, subst(cases, {("elem", src): ("elem", tail)}), sep)
        al = alternatives(I, cases)
        if al is not None:
            v0 = subst(("ts", (("alt", src, al),)), m)
            full = len(al) == len(cases)
            for s2 in [s] if full else I.assume(s, subst(("b", "match", ("elem", src), gid(src, [g for g, _ in al])), m), (1,)):
                out.append((s2, v0, rest))
            continue
        for g, items in cases:
            if not items:
                continue
            for s2 in assume_all(I, s, subst(g, m)):
                if len(items) == 1 and items[0][0] == "e":
                    out.append((s2, subst(items[0][1], m), rest))
                else:
                    out.append((s2, ("sym", ("nested", src, items), None), rest))
    return out


# ------------------------------------------------------------------ synthetic loops
def ploop(I, st, ctx, it, accs, step):
    """for x in it { step } -> [(st, acc values, stop value | None)]"""
    st = st.copy()
    ic = st.alloc(it)
    acs = [st.alloc(a) for a in accs]
    lid = (ctx.fr.key if ctx.fr else "", "ploop", ctx.at, len(ctx.fr.stack) if ctx.fr else 0, ic)
    bad = []

    def body(s0):
        r = nexts(I, s0, ctx, ic, ())
        if r is None:
            bad.append(1)
            return [], []
        backs, exits = [], []
        for s, x in r:
            if x is None:
                exits.append(("exit", None, s))
            elif x == ("dropped",):
                backs.append(s)
            else:
                for s2, stop in step(I, s, x, acs):
                    if stop is None:
                        backs.append(s2)
                    else:
                        s2 = s2.copy()
                        s2.cells[("stopv", ic)] = stop
                        exits.append(("exit", 1, s2))
        if len(backs) > 1:
            backs = I.merge(backs, lambda s: cells_key(s.cells), lambda s: s, lambda o, s: s)
        return backs, exits
    if it[0] == "iter" and all(x[0] == "e" for x in it[1]):
        outs, work = [], [st]
        while work:
            b, e = body(work.pop())
            outs.extend(e)
            work.extend(b)
        if not bad:
            outs = I.merge(outs, lambda o: (o[1], cells_key(o[2].cells)), lambda o: o[2], lambda o, s: ("exit", o[1], s))
    else:
        outs = I.iterate(st, body, lid, ctx.fr)
    if bad:
        return None
    res = []
    for o in outs:
        if o[0] != "exit":
            continue
        s = o[2].copy()
        s.cells.pop(ic, None)
        vals = [s.cells.pop(a, ("uninit",)) for a in acs]
        sv = s.cells.pop(("stopv", ic), None)
        res.append((s, vals, sv))
    return res


def drain(I, st, ctx, src, stepf=None):
    """all items of an iterator as a sequence -> [(st, items)]"""
    r0 = opt_iter(I, st, src)
    if r0 is None:
        v = I.deref(st, src)
        return [(st, (("unknown", I.freeze(st, v)),))]
    out = []
    for s, it in r0:
        if not it[2] and stepf is None:
            out.append((s, it[1]))
            continue

        def step(I, s, x, acs):
            if stepf is None:
                res = [(s, (("e", x),))]
            else:
                res = stepf(I, s, x)
                if res is None:
                    res = [(s, (("unknown", I.freeze(s, x)),))]
            o = []
            for s2, items in res:
                s2 = s2.copy()
                cur = s2.cells[acs[0]]
                s2.cells[acs[0]] = ("seq", cur[1] + tuple(items))
                o.append((s2, None))
            return o
        r = ploop(I, s, ctx, it, [("seq", ())], step)
        if r is None:
            out.append((s, (("unknown", I.freeze(s, it)),)))
            continue
        for s2, vals, _ in r:
            v = vals[0]
            out.append((s2, v[1] if v[0] == "seq" else (("unknown", v),)))
    return out


def consume(I, st, ctx, ref):
    """iterator argument by value or by &mut -> (iter value, state with it exhausted)"""
    l = I.loc_of(st, ref) if ref[0] == "ref" else None
    v = I.deref(st, ref)
    if l is not None and v[0] == "iter":
        st = st.copy()
        I.store(st, l[0], l[1], ("iter", (), ()))
    return v, st


# ------------------------------------------------------------------ vectors
@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "<alloc::vec::Vec<T> as core::default::Default>::default",
       "alloc::vec::Vec::<T, A>::with_capacity_in")
def _(I, st, ctx, a):
    return [(st, ("seq", ()))]


def container(I, st, ref):
    l = I.loc_of(st, ref)
    if l is None:
        return None, None
    items = I.items(st, I.load(st, l[0], l[1]))
    return l, items


@model("alloc::vec::Vec::<T, A>::push", "alloc::vec::Vec::<T>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
def _(I, st, ctx, a):
    l, items = container(I, st, a[0])
    if items is None:
        return None
    st = st.copy()
    I.store(st, l[0], l[1], ("seq", items + (("e", a[1]),)))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::insert")
def _(I, st, ctx, a):
    l, items = container(I, st, a[0])
    if items is None:
        return None
    st = st.copy()
    if I.deref(st, a[1]) != ("int", 0):
        if not any(x[0] == "open" for x in items):
            return None
        I.store(st, l[0], l[1], ("seq", (("cut", "insert", items), ("e", a[2]))))
        return [(st, UNIT)]
    I.store(st, l[0], l[1], ("seq", (("e", a[2]),) + items))
    return [(st, UNIT)]


CUTS = ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
        "sort_unstable_by_key", "sort_by_cached_key", "reverse", "rotate_left", "rotate_right", "swap")


def m_cut(I, st, ctx, a):
    """a list is thinned out or put into another order in place"""
    n = ctx.path.split("::")[-1]
    l, items = container(I, st, a[0])
    if items is None:
        return None
    if any(x[0] == "open" for x in items):
        st = st.copy()          # what earlier rounds of a loop have collected
        I.store(st, l[0], l[1], ("seq", (("cut", n, items),)))
        return [(st, UNIT)]
    if n in ("sort_by_key", "sort_by_cached_key") and any(I.p.ty(t)["s"] in ("bool", "u8", "usize", "u32", "i32") for t in ctx.targs):
        # a stable sort by a small key: those of each key in their order
        def step(I, s, x, acs):
            o = []
            for s1, k in call(I, s, ctx, a[1], [x]):
                k = I.deref(s1, k)
                if k[0] == "int" and isinstance(k[1], int):
                    rs = [(k[1], s1)]
                else:
                    rs = [(int(tr), s2) for tr, s2 in I.truth(s1, k)] if any(I.p.ty(t)["s"] == "bool" for t in ctx.targs) else [(None, s1)]
                for j, s2 in rs:
                    if j is None or not 0 <= j < 4:
                        return None
                    s2 = s2.copy()
                    s2.cells[acs[j]] = ("seq", s2.cells[acs[j]][1] + (("e", x),))
                    o.append((s2, None))
            return o
        try:
            r = ploop(I, st, ctx, ("iter", items, ()), [("seq", ())] * 4, step)
        except TypeError:
            r = None
        if r is not None:
            out = []
            for s, v, _ in r:
                s = s.copy()
                I.store(s, l[0], l[1], ("seq", sum((x[1] for x in v), ())))
                out.append((s, UNIT))
            return out
    if n in ("retain", "reverse"):
        r = m_adapt(I, st, ctx, "filter" if n == "retain" else "rev", ("iter", items, ()), a)
    elif len(items) <= 1 and all(x[0] == "e" for x in items):
        return [(st, UNIT)]
    elif n == "truncate":
        r = m_adapt(I, st, ctx, "take", ("iter", items, ()), a)
    else:
        r = part_of(I, st, ctx, ("iter", items, ()), (n,) + tuple(I.freeze(st, I.deref(st, x)) for x in a[1:]))
    if r is None:
        return None
    out = []
    for s, it in r:
        for s2, rest in drain(I, s, ctx, it):
            s2 = s2.copy()
            I.store(s2, l[0], l[1], ("seq", rest))
            out.append((s2, UNIT))
    return out


for _p in CUTS:
    M["alloc::vec::Vec::<T, A>::" + _p] = M["alloc::slice::<impl [T]>::" + _p] = M["core::slice::<impl [T]>::" + _p] = m_cut


@model("alloc::vec::Vec::<T, A>::append", "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend",
       "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend", "alloc::vec::Vec::<T, A>::extend_from_slice")
def _(I, st, ctx, a):
    out = []
    src = I.deref(st, a[1])
    for s, it in drain(I, st, ctx, a[1]):
        l, items = container(I, s, a[0])
        if items is None:
            return None
        s = s.copy()
        I.store(s, l[0], l[1], ("seq", items + it))
        if ctx.path.endswith("append"):
            l2 = I.loc_of(s, a[1])
            if l2 is not None:
                I.store(s, l2[0], l2[1], ("seq", ()))
        out.append((s, UNIT))
    return out


def seq_first(I, st, items, which):
    """first / last element of items -> [(st, value | None)]"""
    if not items:
        return [(st, None)]
    if which == "last":
        h = items[-1]
        if h[0] == "e":
            return [(st, h[1])]
        if h[0] == "star":
            _, src, cases, sep = h
            if len(items) == 1 and len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0][0] == "e":
                out = []
                for tr, s in I.test(st, exists_key(I, src, FULL), (1,)):
                    if not tr:
                        out.append((s, None))
                        continue
                    for one, s2 in I.test(s, ("len", src), (1,)):
                        to = ("first", src, gid(src, FULL)) if one else ("last", src)
                        out.append((s2, subst(cases[0][1][0][1], {("elem", src): to})))
                return out
        return None
    h = items[0]
    if h[0] == "e":
        return [(st, h[1])]
    if h[0] in ("star",):
        out = []
        for s, v, rest in star_first(I, st, h):
            if v is None:
                r = seq_first(I, s, items[1:], which)
                if r is None:
                    return None
                out.extend(r)
            else:
                out.append((s, v))
        return out
    return None


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "syn::punctuated::Punctuated::<T, P>::first", "syn::punctuated::Punctuated::<T, P>::last",
       "alloc::collections::vec_deque::VecDeque::<T, A>::front")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    if items is None:
        return None
    r = seq_first(I, st, items, "last" if ctx.path.endswith("last") else "first")
    if r is None and len(items) == 1 and items[0][0] == "open" and I.p.ty(ctx.rt)["k"] == "adt":
        # what an earlier round of a loop has collected
        which = ctx.path.split("::")[-1]
        ty = I.p.ty(ctx.rt)["args"][0]
        ty = I.p.ty(ty)["to"] if I.p.ty(ty)["k"] == "ref" else ty
        t = I.p.ty(ty)
        if t["k"] == "adt" and t["path"].split("::")[0] not in ("core", "alloc", "std", "proc_macro2", "syn"):
            return [(s, none(I, ctx.rt) if empty else some(I, ctx.rt, ("sym", ("endof", which, items), ty)))
                    for empty, s in I.test(st, ("b", "seqempty", items), (1,))]
    if r is None:
        return None
    return [(s, none(I, ctx.rt) if v is None else some(I, ctx.rt, v)) for s, v in r]


@model("core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut", "syn::punctuated::Punctuated::<T, P>::first_mut",
       "syn::punctuated::Punctuated::<T, P>::last_mut")
def _(I, st, ctx, a):
    """a mutable reference to one end of a list: the list becomes one of which only a part is changed"""
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    v = I.load(st, l[0], l[1])
    items = I.items(st, v)
    if items is None and is_sym(v) and v[2] is not None and I.p.ty(v[2])["k"] == "adt" and "Punctuated" in I.p.ty(v[2])["path"]:
        ety = I.p.ty(v[2])["args"][0]
        items = (("star", v[1], ((EMPTY, (("e", ("sym", ("elem", v[1]), ety)),)),), None),)
    if items is None:
        return None
    which = "last" if ctx.path.endswith("last_mut") else "first"
    if all(x[0] == "e" for x in items):
        if not items:
            return [(st, none(I, ctx.rt))]
        return [(st, some(I, ctx.rt, ("ref", l[0], l[1] + (("i", len(items) - 1 if which == "last" else 0),))))]
    if len(items) == 1 and items[0][0] == "open":
        # one of the elements that earlier rounds of a loop have collected is changed
        out = []
        for empty, s in I.test(st, ("b", "seqempty", items), (1,)):
            if empty:
                out.append((s, none(I, ctx.rt)))
                continue
            s = s.copy()
            ty = I.p.ty(ctx.rt)["args"][0]
            ty = I.p.ty(ty)["to"] if I.p.ty(ty)["k"] == "ref" else ty
            cell = ("adj", items, which)
            s.cells[cell] = ("sym", ("endof", which, items), ty)
            I.store(s, l[0], l[1], ("seq", (("cut", which, items),)))
            out.append((s, some(I, ctx.rt, ("ref", cell, ()))))
        return out
    r = seq_first(I, st, items, which)
    if r is None:
        return None
    out = []
    for s, e in r:
        if e is None:
            out.append((s, none(I, ctx.rt)))
            continue
        s = s.copy()
        cell = ("part", items, which)
        s.cells[cell] = e
        I.store(s, l[0], l[1], ("seq", (("part", cell, items, which),)))
        out.append((s, some(I, ctx.rt, ("ref", cell, ()))))
    return out


@model("core::slice::<impl [T]>::get")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    k = I.deref(st, a[1])
    if items is None:
        return None
    if k[0] == "int" and all(x[0] == "e" for x in items[:k[1] + 1]):
        return [(st, some(I, ctx.rt, items[k[1]][1]) if k[1] < len(items) else none(I, ctx.rt))]
    if k[0] == "phi" and k[1][0] == "enum":
        k = ("sym", ("ix", ("elem", k[1][1])), None)
    if is_sym(k) and k[1][:1] == ("ix",):
        r = indexed(I, st, items, k)
        return None if r is None else [(s, some(I, ctx.rt, v)) for s, v in r]
    if k[0] == "int" and k[1] > 0 and len(items) == 1 and items[0][0] == "star":
        out, work = [], [(st, items[0])]
        for i in range(k[1] + 1):
            nxt = []
            for s, x in work:
                for s2, v, rest in star_first(I, s, x):
                    if v is None:
                        out.append((s2, none(I, ctx.rt)))
                    elif i == k[1]:
                        out.append((s2, some(I, ctx.rt, v)))
                    else:
                        nxt.append((s2, rest))
            work = nxt
        return out
    if k != ("int", 0):
        return None
    r = seq_first(I, st, items, "first")
    if r is None:
        return None
    return [(s, none(I, ctx.rt) if v is None else some(I, ctx.rt, v)) for s, v in r]


@model("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove", "alloc::vec::Vec::<T, A>::pop",
       "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "core::slice::index::<impl core::ops::index::Index<I> for [T]>::index")
def _(I, st, ctx, a):
    n = ctx.path.split("::")[-1]
    items = I.items(st, a[0])
    if items is None:
        return None
    if n == "pop":
        r = seq_first(I, st, items, "last")
        if r is None:
            return None
        out = []
        for s, v in r:
            if v is None:
                out.append((s, none(I, ctx.rt)))
                continue
            s = s.copy()
            l, _ = container(I, s, a[0])
            if l is not None:
                I.store(s, l[0], l[1], ("seq", items[:-1] if items[-1][0] == "e" else (("unknown", items),)))
            out.append((s, some(I, ctx.rt, v)))
        return out
    i = I.deref(st, a[1])
    if i[0] != "int":
        r = I.deref(st, i)
        t = vty(I, r)
        if n == "index" and r[0] == "adt" and vpath(I, r) and vpath(I, r).endswith("RangeFull"):
            return [(st, a[0])]
        if n == "index" and r[0] == "phi" and r[1][0] == "enum":
            r = ("sym", ("ix", ("elem", r[1][1])), None)
        if n == "index" and is_sym(r) and r[1][:1] == ("ix",):
            return indexed(I, st, items, r)
        if n == "index" and r[0] == "adt":
            return ranged(I, st, ctx, items, r)
        return None
    k = i[1]
    if k < len(items) and all(x[0] == "e" for x in items[:k + 1]):
        v = items[k][1]
        if n == "remove":
            st = st.copy()
            l, _ = container(I, st, a[0])
            if l is not None:
                I.store(st, l[0], l[1], ("seq", items[:k] + items[k + 1:]))
        return [(st, v)]
    if all(x[0] == "e" for x in items):
        I.stop("panic", "index out of bounds", st, ctx.fr, ctx.at)
        return []
    if k == 0:
        r = seq_first(I, st, items, "first")
        if r is None:
            return None
        out = []
        for s, v in r:
            ln = I.length(s, I.deref(s, a[0]))
            if v is None:
                # is an empty sequence possible here?
                if ln[0] == "len":
                    if not I.assume(s, ("len", ln[1]), (0,)) or nonempty_known(I, s, a[0]):
                        continue
                I.stop("panic", "index 0 of a possibly empty sequence", s, ctx.fr, ctx.at)
                continue
            s2 = s
            if n in ("remove", "swap_remove"):
                if ln[0] == "len":
                    ss = I.assume(s2, ("len", ln[1]), (1, 2, 3, 4))
                    if not ss:
                        continue
                    s2 = ss[0]
                s2 = s2.copy()
                l, _ = container(I, s2, a[0])
                if l is not None:
                    I.store(s2, l[0], l[1], ("sym", ("removed0", items), None))
            out.append((s2, v))
        return out
    return None


def indexed(I, st, items, r):
    """the element at the position of a generic element of the same source"""
    if len(items) != 1 or items[0][0] != "star" or ("elem", items[0][1]) != r[1][1] or not one_to_one(items[0]):
        return None
    out = []
    for g, es in items[0][2]:
        out.extend((s, es[0][1]) for s in assume_all(I, st, g))
    return out


def ranged(I, st, ctx, items, r):
    """v[a..b]"""
    k = (vpath(I, r) or "").split("::")[-1]
    fs = [I.deref(st, x) for x in r[3]]
    if any(x[0] not in ("int", "len") for x in fs):
        return None
    lo, hi = {"RangeFrom": (fs[:1], None), "RangeTo": ([("int", 0)], fs[0]), "Range": (fs[:1], fs[-1])}.get(k, (None, None))
    if lo is None or lo[0][0] != "int":
        return None
    lo = lo[0][1]
    out = [(st, items)]
    for _ in range(lo):
        nxt = []
        for s, its in out:
            if its and its[0][0] == "e":
                nxt.append((s, its[1:]))
                continue
            if not its:
                I.stop("panic", "range start of a slice out of bounds", s, ctx.fr, ctx.at)
                continue
            if its[0][0] != "star" or len(its) != 1:
                return None
            for s2, v, rest in star_first(I, s, its[0]):
                if v is None:
                    I.stop("panic", "range start of a slice out of bounds", s2, ctx.fr, ctx.at)
                else:
                    nxt.append((s2, (rest,)))
        out = nxt
    if hi is None:
        return [(s, ("seq", its)) for s, its in out]
    res = []
    for s, its in out:
        if hi[0] == "len" and hi[2] == 0 and len(items) == 1 and items[0][0] == "star" and hi[1] == items[0][1]:
            res.append((s, ("seq", its)))
        elif hi[0] == "int" and all(x[0] == "e" for x in items) and lo <= hi[1]:
            if hi[1] > len(items):
                I.stop("panic", "range end of a slice out of bounds", s, ctx.fr, ctx.at)
                continue
            res.append((s, ("seq", its[:hi[1] - lo])))
        else:
            return None
    return res


@model("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "core::slice::<impl [T]>::as_ref", "core::array::<impl [T; N]>::as_slice")
def _(I, st, ctx, a):
    return [(st, a[0])]


@model("alloc::vec::<impl core::convert::TryFrom<alloc::vec::Vec<T, A>> for [T; N]>::try_from")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    rt = I.p.ty(ctx.rt)
    at = I.p.ty(rt["args"][0]) if rt.get("args") else {}
    m = re.search(r"; (\d+)\]$", at.get("s", ""))
    if items is None or not m:
        return None
    N = int(m.group(1))
    if all(x[0] == "e" for x in items):
        return [(st, ok(I, ctx.rt, ("seq", items)) if len(items) == N else err(I, ctx.rt, ("seq", items)))]
    if N != 1 or len(items) != 1 or items[0][0] != "star" or not one_to_one(items[0]):
        return None
    out = []
    for tr, s in I.test(st, ("len", items[0][1]), (1,)):
        if not tr:
            out.append((s, err(I, ctx.rt, ("seq", items))))
            continue
        r = seq_first(I, s, items, "first")
        if r is None:
            return None
        out.extend((s2, ok(I, ctx.rt, ("seq", (("e", v),)))) for s2, v in r if v is not None)
    return out


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    if items is None or not (all(x[0] == "e" for x in items) or ctx.path.endswith("first") and len(items) == 1):
        return None
    if not items:
        return [(st, none(I, ctx.rt))]
    if items[0][0] == "e":
        v, rest = (items[0][1], items[1:]) if ctx.path.endswith("first") else (items[-1][1], items[:-1])
        return [(st, some(I, ctx.rt, ("tup", (v, ("seq", rest)))))]
    if items[0][0] != "star":
        return None
    return [(s, none(I, ctx.rt) if v is None else some(I, ctx.rt, ("tup", (v, ("seq", (rest,)))))) for s, v, rest in star_first(I, st, items[0])]


def nonempty_known(I, st, ref):
    """containers whose non-emptiness is an invariant proven where they are built"""
    v = I.deref(st, ref)
    if v[0] != "sym":
        return False
    I.items(st, v)
    return v[1] in I.ne


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::iter::traits::exact_size::ExactSizeIterator::len", "syn::punctuated::Punctuated::<T, P>::len")
def _(I, st, ctx, a):
    return [(st, I.length(st, I.deref(st, a[0])))]


SUF.append((lambda p: p.endswith("ExactSizeIterator>::len"), lambda I, st, ctx, a: [(st, I.length(st, I.deref(st, a[0])))]))


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "syn::punctuated::Punctuated::<T, P>::is_empty")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    items = I.items(st, v)
    if items is None:
        return None
    if not items:
        return [(st, TRUE)]
    if any(x[0] == "e" for x in items):
        return [(st, FALSE)]
    if len(items) == 1 and items[0][0] == "star":
        k = exists_key(I, items[0][1], yields(items[0]))
        return [(st, ("in", k, frozenset((0,))))]
    if all(x[0] == "star" for x in items):
        out, work = [], [st]
        for x in items:
            k = exists_key(I, x[1], yields(x))
            nxt = []
            for s in work:
                for tr, s2 in I.test(s, k, (1,)):
                    if tr:
                        out.append((s2, FALSE))
                    else:
                        nxt.append(s2)
            work = nxt
        return out + [(s, TRUE) for s in work]
    return [(st, ("in", ("b", "seqempty", items), frozenset((1,))))]


@model("alloc::slice::<impl [T]>::join", "alloc::slice::<impl [V]>::join", "alloc::slice::<impl [T]>::concat")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    if items is None:
        return None
    sep = const_str(atoms(I, st, a[1])) if len(a) > 1 else ""
    if sep is None:
        return None
    return [(st, ("str", str_join(I, st, items, sep)))]


def str_join(I, st, items, sep):
    if len(items) == 2 and items[0][0] == "e" and items[1][0] == "star" and items[1][1][:1] == ("parts",) and one_to_one(items[1]):
        _, at, c = items[1][1]
        x = ("str", (("op", "before", at, (c,)),))
        if items[0][1] == x and items[1][2] == ((EMPTY, (("e", part_elem(items[1][1])),)),):
            return (("op", "replace", at, (c, sep)),)
    out = []
    first = True
    for x in items:
        if x[0] == "e":
            if not first and sep:
                out.append(sep)
            out.extend(atoms(I, st, x[1]))
        elif x[0] == "star" and len(items) == 1:
            cs = tuple((g, tuple(y for i, z in enumerate(its) for y in ((sep,) if i and sep else ()) + tuple(
                atoms(I, st, z[1]) if z[0] == "e" else (("opaque", z),)))) for g, its in x[2] if its)
            out.append(("star", x[1], cs, (sep,) if sep else None))
        else:
            out.append(("opaque", x, sep))
        first = False
    return norm_str(tuple(out))


def part_elem(src):
    return ("str", (("sym", ("elem", src), None),))


@model("core::str::<impl str>::split")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    from .m_tok import char_arg
    c = char_arg(I, st, a[1])
    if not c:
        return None
    k = const_str(at)
    if k is not None:
        return [(st, ("iter", tuple(("e", ("str", (x,) if x else ())) for x in k.split(c)), ()))]
    src = ("parts", at, c)
    return [(st, ("iter", (("e", ("str", (("op", "before", at, (c,)),))), ("star", src, ((EMPTY, (("e", part_elem(src)),)),), None)), ()))]


@model("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    from .m_tok import char_arg
    c = char_arg(I, st, a[1])
    if not c:
        return None
    last = ctx.path.endswith("rsplit_once")
    out = []
    for tr, s in I.test(st, ("b", "strpred", "contains", at, c), (1,)):
        if not tr:
            out.append((s, none(I, ctx.rt)))
            continue
        k = const_str(at)
        if k is not None:
            x, y = (("str", (z,) if z else ()) for z in (k.rsplit(c, 1) if last else k.split(c, 1)))
        else:
            x, y = (("str", (("op", n, at, (c,)),)) for n in (("before last", "after last") if last else ("before", "after")))
        out.append((s, some(I, ctx.rt, ("tup", (x, y)))))
    return out


@model("core::slice::<impl [T]>::binary_search")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    at = atoms(I, st, a[1])
    if items is None or not all(x[0] == "e" for x in items):
        return None
    xs = [const_str(atoms(I, st, x[1])) for x in items]
    if any(x is None for x in xs):
        return None
    enc = [x.encode() for x in xs]

    def finds(s):
        lo, hi = 0, len(enc)
        s = s.encode()
        # the search of the standard library, and any other bisection, agree on sorted tables only
        while lo < hi:
            mid = (lo + hi) // 2
            if enc[mid] == s:
                return True
            if enc[mid] < s:
                lo = mid + 1
            else:
                hi = mid
        return False
    found = frozenset(x for x in xs if finds(x))
    I.tables = getattr(I, "tables", {})
    I.tables[tuple(xs)] = enc == sorted(enc)
    out = []
    for tr, s in I.test(st, ("str", at), found):
        v = ("sym", ("bsidx", at), None)
        out.append((s, ok(I, ctx.rt, v) if tr else err(I, ctx.rt, v)))
    return out


@model("core::slice::<impl [T]>::contains")
def _(I, st, ctx, a):
    items = I.items(st, a[0])
    if items is None:
        return None
    v = I.deref(st, a[1])
    if v[0] == "int" and 0 < v[1] < 128 and items and all(x[0] == "e" and x[1][0] == "int" or x[0] == "star" and x[1][:1] == ("chars",)
            and one_to_one(x) and len(x[2]) == 1 for x in items):
        # one character among those of a string
        at = norm_str(tuple(chr(x[1][1]) if x[0] == "e" else x[1][1] for x in items))
        return [(st, ("in", ("b", "strpred", "contains", at, chr(v[1])), frozenset((1,))))]
    if items and all(x[0] in ("e", "open") for x in items) and any(x[0] == "open" for x in items) and v[0] != "int":
        # among what earlier rounds of a loop have collected
        key = norm_str(atoms(I, st, v)) if v[0] in ("ident", "str") else I.freeze(st, v)
        return [(st, ("in", ("b", "inset", items, key), frozenset((1,))))]
    if not all(x[0] == "e" for x in items):
        return None
    xs = [I.deref(st, x[1]) for x in items]
    if xs and all(x[0] == "int" for x in xs):
        if v[0] == "int":
            return [(st, TRUE if v in xs else FALSE)]
        return None
    cs = [const_str(atoms(I, st, x)) for x in xs]
    if any(c is None for c in cs):
        return None
    return [(st, ("in", ("str", atoms(I, st, v)), frozenset(cs)))]


@model("alloc::boxed::Box::<T>::new", "alloc::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new")
def _(I, st, ctx, a):
    st = st.copy()
    c = st.alloc(a[0])
    return [(st, ("ref", c, ()))]


@model("alloc::boxed::Box::<T>::new_uninit")
def _(I, st, ctx, a):
    st = st.copy()
    c = st.alloc(("uninit",))
    return [(st, ("ref", c, ()))]


SUF.append((lambda p: p in ("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec", "alloc::slice::hack::into_vec",
                            "alloc::slice::<impl [T]>::to_vec", "alloc::vec::from_elem"), lambda I, st, ctx, a: m_into_vec(I, st, ctx, a)))


def m_into_vec(I, st, ctx, a):
    v = I.deref(st, a[0])
    n = 0
    while v[0] in ("tup", "adt") and len(v) > 1 and n < 8:
        fs = v[3] if v[0] == "adt" else v[1]
        fs = [f for f in fs if f != ("uninit",)]
        if len(fs) != 1:
            break
        v = I.deref(st, fs[0])
        n += 1
    if v[0] == "seq":
        return [(st, v)]
    return None


SUF.append((lambda p: p.startswith("<alloc::vec::Vec<T") and "core::convert::From<" in p and p.endswith("::from"), lambda I, st, ctx, a: m_vec_from(I, st, ctx, a)))


def m_vec_from(I, st, ctx, a):
    items = I.items(st, a[0])
    return None if items is None else [(st, ("seq", items))]


# ------------------------------------------------------------------ iterator constructors
def m_iter(I, st, ctx, a):
    r = opt_iter(I, st, a[0])
    return r


for _p in ("core::slice::<impl [T]>::iter", "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
           "alloc::vec::Vec::<T, A>::drain", "core::option::Option::<T>::iter", "<core::option::Option<T> as core::iter::traits::collect::IntoIterator>::into_iter",
           "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
           "<&'a [T] as core::iter::traits::collect::IntoIterator>::into_iter", "core::iter::sources::once::once", "core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter"):
    M[_p] = m_iter
SUF.append((lambda p: p.endswith("IntoIterator>::into_iter") or p.endswith("::into_iter") and "IntoIterator for" in p, m_iter))


@model("core::iter::sources::once::once")
def _(I, st, ctx, a):
    return [(st, ("iter", (("e", a[0]),), ()))]


@model("core::iter::sources::empty::empty")
def _(I, st, ctx, a):
    return [(st, ("iter", (), ()))]


SUF.append((lambda p: "RepIteratorExt" in p or "RepAsIteratorExt" in p or "RepToTokensExt" in p, lambda I, st, ctx, a: m_quote_iter(I, st, ctx, a)))


def m_quote_iter(I, st, ctx, a):
    r = opt_iter(I, st, a[0])
    if r is None:
        return None
    if ctx.rt is not None and I.p.ty(ctx.rt)["k"] == "tuple":
        hty = I.p.ty(ctx.rt)["f"][1]
        return [(s, ("tup", (it, ("adt", hty, 0, ())))) for s, it in r]
    return r


def m_iter_mut(I, st, ctx, a):
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    v = I.load(st, l[0], l[1])
    pl = l[1]
    items = I.items(st, v)
    if items is None and is_sym(v) and v[2] is not None and I.p.ty(v[2])["k"] == "adt" and "Punctuated" in I.p.ty(v[2])["path"]:
        ety = I.p.ty(v[2])["args"][0]
        items = (("star", v[1], ((EMPTY, (("e", ("sym", ("elem", v[1]), ety)),)),), None),)
    if items is None:
        return None
    if all(x[0] == "e" for x in items):
        segs = tuple(("e", ("ref", l[0], l[1] + (("i", i),))) for i in range(len(items)))
        return [(st, ("iter", segs, ()))]
    if len(items) == 1 and items[0][0] == "star" and not items[0][3] and len(items[0][2]) == 1 and not items[0][2][0][0]:
        src = items[0][1]
        cell = ("mut", src)
        st = st.copy()
        I.store(st, l[0], l[1], ("seq", (("openmut", src, cell),)))
        st.cells[cell] = ("uninit",)
        return [(st, ("iter", (("mutstar", src, cell, items[0][2][0][1][0][1]),), ()))]
    # being built by an enclosing loop: only `find` understands this
    return [(st, ("itermut", l, items))]


M["core::slice::<impl [T]>::iter_mut"] = m_iter_mut
M["syn::punctuated::Punctuated::<T, P>::iter_mut"] = m_iter_mut
SUF.insert(0, (lambda p: p.startswith("<&'a mut ") and p.endswith("IntoIterator>::into_iter"), m_iter_mut))


# ------------------------------------------------------------------ adaptors
ADAPT = {"map", "filter", "filter_map", "inspect"}
NAMES_LAZY = {"enumerate", "skip", "take", "chain", "zip", "rev", "copied", "cloned", "peekable", "by_ref", "fuse", "flatten",
              "flat_map", "step_by", "take_while", "skip_while", "map_while", "scan", "cycle", "intersperse"}


def iter_method(p):
    if p.startswith("core::iter::traits::iterator::Iterator::") or p.startswith("core::iter::traits::double_ended::DoubleEndedIterator::"):
        return p.split("::")[-1]
    if p.endswith("<'a, T>>::by_ref"):
        return "by_ref"
    if p.startswith("core::iter::range::<impl core::iter::traits::iterator::Iterator for"):
        return p.split("::")[-1]
    if ("Iterator>::" in p) and p.startswith("<"):
        return p.split("Iterator>::")[-1]
    return None


def m_iterator(I, st, ctx, a):
    n = iter_method(ctx.path)
    if n is None:
        return None
    if n == "next":
        return m_next(I, st, ctx, a)
    if n in ("by_ref", "into_iter", "fuse"):
        return [(st, a[0])]
    if n == "size_hint":
        return None
    if n in ("find",) and I.deref(st, a[0])[0] == "itermut":
        return m_find_mut(I, st, ctx, a)
    v, st1 = consume(I, st, ctx, a[0])
    r0 = opt_iter(I, st1, v)
    if r0 is None:
        return None
    out = []
    for s, it in r0:
        if any(x[0] in ("mutstar",) for x in it[1]) and n not in ("for_each", "map"):
            pass
        r = m_adapt(I, s, ctx, n, it, a)
        if r is None:
            return None
        out.extend(r)
    return out


def m_adapt(I, st, ctx, n, it, a):
    segs, ops = it[1], it[2]
    if n in ADAPT:
        return [(st, ("iter", segs, ops + ((n, a[1]),)))]
    if n in ("copied", "cloned"):
        return [(st, it)]
    if n == "enumerate":
        return [(st, ("iter", segs, ops + (("enumerate", 0),)))]
    if n == "peekable":
        if any(o[0] in ADAPT for o in ops):
            return [(s, ("iter", items, ())) for s, items in drain(I, st, ctx, it)]
        return [(st, it)]
    if n == "skip":
        k = I.deref(st, a[1])
        if k[0] == "int" and all(x[0] == "e" for x in segs) and not ops:
            return [(st, ("iter", segs[k[1]:], ()))]
        if k[0] == "int" and (ops or k[1] != 1 or len(segs) != 1 or segs[0][0] != "star"):
            return part_of(I, st, ctx, it, ("skip", k[1]))
        if k == ("int", 1) and not ops and segs and segs[0][0] == "star":
            out = []
            for s, v, rest in star_first(I, st, segs[0]):
                if v is None:
                    if len(segs) == 1:
                        out.append((s, ("iter", (), ())))
                    else:
                        return None
                else:
                    out.append((s, ("iter", (rest,) + segs[1:], ())))
            return out
        return None
    if n == "take":
        k = I.deref(st, a[1])
        if k[0] == "int" and all(x[0] == "e" for x in segs) and not ops:
            return [(st, ("iter", segs[:k[1]], ()))]
        if k == ("int", 1):
            out = []
            for s, items in drain(I, st, ctx, it):
                r = seq_first(I, s, items, "first")
                if r is None:
                    return None
                out.extend((s2, ("iter", (("e", v),) if v is not None else (), ())) for s2, v in r)
            return out
        if k[0] == "int":
            return part_of(I, st, ctx, it, ("take", k[1]))
        return None
    if n in ("skip_while", "take_while", "step_by", "map_while"):
        return part_of(I, st, ctx, it, (n, I.freeze(st, I.deref(st, a[1]))))
    if n == "rev":
        out = []
        for s, items in drain(I, st, ctx, it):
            rs = []
            for x in reversed(items):
                if x[0] == "e":
                    rs.append(x)
                elif x[0] == "star":
                    src2 = x[1][1] if x[1][0] == "rev" else ("rev", x[1])
                    rs.append(("star", src2, subst(x[2], {("elem", x[1]): ("elem", src2)}), x[3]))
                else:
                    rs.append(("unknown", x))
            out.append((s, ("iter", tuple(rs), ())))
        return out
    if n == "chain":
        out = []
        for s, i1 in drain(I, st, ctx, it):
            for s2, i2 in drain(I, s, ctx, a[1]):
                out.append((s2, ("iter", i1 + i2, ())))
        return out
    if n in ("flat_map", "flatten"):
        it2 = it if n == "flatten" else ("iter", segs, ops + (("map", a[1]),))

        def stepf(I, s, x):
            return drain(I, s, ctx, x)
        return [(s, ("iter", items, ())) for s, items in drain(I, st, ctx, it2, stepf)]
    if n == "zip":
        out = []
        for s, i1 in drain(I, st, ctx, it):
            for s2, i2 in drain(I, s, ctx, a[1]):
                if all(x[0] == "e" for x in i1 + i2):
                    out.append((s2, ("iter", tuple(("e", ("tup", (x[1], y[1]))) for x, y in zip(i1, i2)), ())))
                    continue
                z = zipped(i1, i2)
                if z is None:
                    return None
                out.append((s2, ("iter", (z,), ())))
        return out
    if n == "reduce":
        out = []
        for s, items in drain(I, st, ctx, it):
            if not items:
                out.append((s, none(I, ctx.rt)))
                continue
            if items[0][0] == "e":
                starts = [(s, items[0][1], items[1:])]
            elif items[0][0] == "star":
                starts = [(s2, v, (rest,) + items[1:] if v is not None else items[1:]) for s2, v, rest in star_first(I, s, items[0])]
            else:
                return None
            for s2, v, rest in starts:
                if v is None:
                    if rest:
                        return None
                    out.append((s2, none(I, ctx.rt)))
                    continue

                def step(I, s, x, acs):
                    o = []
                    for s2, v in call(I, s, ctx, a[1], [s.cells[acs[0]], x]):
                        s2 = s2.copy()
                        s2.cells[acs[0]] = v
                        o.append((s2, None))
                    return o
                r = ploop(I, s2, ctx, ("iter", rest, ()), [v], step)
                if r is None:
                    return None
                out.extend((s3, some(I, ctx.rt, vs[0])) for s3, vs, _ in r)
        return out
    # ---- consumers
    if n == "for_each":
        def step(I, s, x, acs):
            return [(s2, None) for s2, _ in call(I, s, ctx, a[1], [x])]
        r = ploop(I, st, ctx, it, [], step)
        return None if r is None else [(s, UNIT) for s, _, _ in r]
    if n == "fold":
        def step(I, s, x, acs):
            o = []
            for s2, v in call(I, s, ctx, a[2], [s.cells[acs[0]], x]):
                s2 = s2.copy()
                s2.cells[acs[0]] = v
                o.append((s2, None))
            return o
        r = ploop(I, st, ctx, it, [a[1]], step)
        return None if r is None else [(s, v[0]) for s, v, _ in r]
    if n in ("collect", "from_iter"):
        return m_collect(I, st, ctx, it, ctx.rt)
    if n == "partition":
        def step(I, s, x, acs):
            o = []
            for tr, s2 in bools(I, s, ctx, a[1], [x]):
                s2 = s2.copy()
                c = acs[0 if tr else 1]
                s2.cells[c] = ("seq", s2.cells[c][1] + (("e", x),))
                o.append((s2, None))
            return o
        r = ploop(I, st, ctx, it, [("seq", ()), ("seq", ())], step)
        return None if r is None else [(s, ("tup", tuple(v))) for s, v, _ in r]
    if n == "unzip":
        def step(I, s, x, acs):
            s = s.copy()
            x = I.deref(s, x)
            for j in (0, 1):
                e = x[1][j] if x[0] == "tup" else ("sym", ("unzip", x, j), None)
                s.cells[acs[j]] = ("seq", s.cells[acs[j]][1] + (("e", e),))
            return [(s, None)]
        r = ploop(I, st, ctx, it, [("seq", ()), ("seq", ())], step)
        return None if r is None else [(s, ("tup", tuple(v))) for s, v, _ in r]
    if n in ("any", "all", "find", "position", "find_map"):
        return m_search(I, st, ctx, n, it, a)
    if n == "count":
        out = []
        for s, items in drain(I, st, ctx, it):
            out.append((s, I.length(s, ("seq", items))))
        return out
    if n in ("last", "nth"):
        if n == "nth" and I.deref(st, a[1]) != ("int", 0):
            return None
        out = []
        for s, items in drain(I, st, ctx, it):
            r = seq_first(I, s, items, "last" if n == "last" else "first")
            if r is None:
                return None
            out.extend((s2, none(I, ctx.rt) if v is None else some(I, ctx.rt, v)) for s2, v in r)
        return out
    return None


def zipped(i1, i2):
    """two lists over the same source, element by element"""
    if len(i1) != 1 or len(i2) != 1 or i1[0][0] != "star" or i2[0][0] != "star":
        return None
    x, y = i1[0], i2[0]
    if x[1] != y[1] or x[3] is not None or y[3] is not None:
        return None
    c1, c2 = (tuple((g, e) for g, e in z[2] if e) for z in (x, y))
    if any(len(e) != 1 or e[0][0] != "e" for _, e in c1 + c2):
        return None
    if len(c1) == len(c2) and {g for g, _ in c1} == {g for g, _ in c2}:
        m = dict(c2)
        return ("star", x[1], tuple((g, (("e", ("tup", (e[0][1], m[g][0][1]))),)) for g, e in c1), None)
    if not one_to_one(x) or not one_to_one(y):
        return None
    cases = {}
    for g1, e1 in x[2]:
        for g2, e2 in y[2]:
            g = both(g1, g2)
            if g is not None:
                cases[g] = (("e", ("tup", (e1[0][1], e2[0][1]))),)
    return ("star", x[1], tuple(cases.items()), None)


def both(g1, g2):
    """the conjunction of two sets of facts, None if they contradict each other"""
    d = dict(g1)
    for k, (pol, S) in g2:
        if k not in d:
            d[k] = (pol, S)
            continue
        p0, S0 = d[k]
        if p0 and pol:
            r = (True, S0 & S)
        elif p0:
            r = (True, S0 - S)
        elif pol:
            r = (True, S - S0)
        else:
            r = (False, S0 | S)
        if r == (True, frozenset()):
            return None
        d[k] = r
    return frozenset(d.items())


def part_of(I, st, ctx, it, what):
    """some of the elements of an iterator, as a list of its own"""
    out = []
    for s, items in drain(I, st, ctx, it):
        if any(x[0] not in ("e", "star") for x in items):
            return None
        rs = []
        for x in items:
            src2 = ("part", what, x[1] if x[0] == "star" else ("one", len(rs)))
            if x[0] == "star":
                rs.append(("star", src2, subst(x[2], {("elem", x[1]): ("elem", src2)}), x[3]))
            else:
                rs.append(("star", src2, ((frozenset(), (x,)),), None))
        out.append((s, ("iter", tuple(rs), ())))
    return out


def m_collect(I, st, ctx, it, rt):
    p = tpath(I, rt)
    if p in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::collections::vec_deque::VecDeque"):
        return [(s, ("seq", items)) for s, items in drain(I, st, ctx, it)]
    if p == "proc_macro2::TokenStream":
        from .m_tok import ts_step, whole
        return [(s, ("ts", whole(items))) for s, items in drain(I, st, ctx, it, ts_step)]
    if p == "alloc::string::String":
        out = []
        for s, items in drain(I, st, ctx, it):
            out.append((s, ("str", str_join(I, s, items, ""))))
        return out
    return None


def of_tuples(I, ctx):
    """does the iterator of this call run over pairs?"""
    def has(ty, n=0):
        t = I.p.ty(ty)
        if t["k"] == "tuple":
            return bool(t["f"])
        if t["k"] == "ref":
            return has(t["to"], n + 1)
        return n < 6 and any(has(x, n + 1) for x in t.get("args", ()) if isinstance(x, int))
    return not ctx.argtys or has(ctx.argtys[0])


def tuple_of(I, ctx):
    """the pair an iterator runs over"""
    def find(ty, n=0):
        t = I.p.ty(ty)
        if t["k"] == "tuple":
            return t if t["f"] else None
        if t["k"] == "ref":
            return find(t["to"], n + 1)
        if n < 6:
            for x in t.get("args", ()):
                r = find(x, n + 1) if isinstance(x, int) else None
                if r is not None:
                    return r
        return None
    return (find(ctx.argtys[0]) if ctx.argtys else None) or {"k": "?"}


def m_search(I, st, ctx, n, it, a):
    """any / all / find: the first element for which the predicate holds"""
    if it[2]:
        out = []
        for s, items in drain(I, st, ctx, it):
            r = m_search(I, s, ctx, n, ("iter", items, ()), a)
            if r is None:
                return None
            out.extend(r)
        return out
    segs = it[1]
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(segs):
            if n == "any":
                out.append((s, FALSE))
            elif n == "all":
                out.append((s, TRUE))
            else:
                out.append((s, none(I, ctx.rt)))
            continue
        x = segs[i]
        if x[0] == "e":
            if n == "find_map":
                for s2, v in call(I, s, ctx, a[1], [x[1]]):
                    for s3, vi, f in variants(I, s2, v) or [(s2, 0, (("sym", ("fm", v), None),))]:
                        if f:
                            out.append((s3, some(I, ctx.rt, f[0])))
                        else:
                            work.append((s3, i + 1))
                continue
            for tr, s2 in bools(I, s, ctx, a[1], [x[1]]):
                hit = tr if n != "all" else not tr
                if not hit:
                    work.append((s2, i + 1))
                elif n == "find":
                    out.append((s2, some(I, ctx.rt, x[1])))
                elif n == "position":
                    out.append((s2, some(I, ctx.rt, ("int", i) if all(y[0] == "e" for y in segs[:i]) else ("sym", ("pos",), None))))
                else:
                    out.append((s2, TRUE if n == "any" else FALSE))
            continue
        if x[0] == "open" and n == "position" and len(segs) == 1 and of_tuples(I, ctx):
            r = group_key(I, s, ctx, segs, tuple_of(I, ctx), a[1])
            if r is None:
                return None
            for tr, s2 in I.test(s, r[1], (1,)):
                out.append((s2, some(I, ctx.rt, ("sym", ("grpidx", r[0], r[2]), None)) if tr else none(I, ctx.rt)))
            continue
        if x[0] == "open" and n in ("any", "all") and not of_tuples(I, ctx):
            # something about the elements that earlier iterations of the enclosing loop collected
            for tr, s2 in I.test(s, ("b", "prior", n, x, I.freeze(s, I.deref(s, a[1]))), (1,)):
                if tr == (n == "any"):
                    out.append((s2, TRUE if n == "any" else FALSE))
                else:
                    work.append((s2, i + 1))
            continue
        if x[0] != "star":
            return None
        _, src, cases, sep = x
        if n == "find_map":
            r = drain(I, s, ctx, ("iter", (x,), (("filter_map", a[1]),)))
            for s2, items in r:
                rf = seq_first(I, s2, items, "first")
                if rf is None:
                    return None
                for s3, v in rf:
                    if v is None:
                        work.append((s3, i + 1))
                    else:
                        out.append((s3, some(I, ctx.rt, v)))
            continue
        gs = set()
        n0 = len(I.stops)
        for g, items in cases:
            if not items:
                continue
            if len(items) != 1 or items[0][0] != "e":
                return None
            for s1 in assume_all(I, s, g):
                for tr, s2 in bools(I, s1, ctx, a[1], [items[0][1]]):
                    if s2.cells.get(DIAG) != s.cells.get(DIAG):
                        return None
                    if tr == (n != "all"):
                        gs.add((I.guard_delta(s, s2), items[0][1]))
        if not gs:
            work.append((s, i + 1))
            continue
        # join the guards that differ in one fact
        gl = [[dict(g), v] for g, v in gs]
        ch = True
        while ch:
            ch = False
            for p1 in range(len(gl)):
                for p2 in range(p1 + 1, len(gl)):
                    if gl[p1][1] == gl[p2][1]:
                        m = I.join_facts(gl[p1][0], gl[p2][0])
                        if m is not None:
                            gl[p1][0] = m
                            gl.pop(p2)
                            ch = True
                            break
                if ch:
                    break
        gset = frozenset(frozenset(g.items()) for g, _ in gl)
        key = exists_key(I, src, gset)
        for tr, s2 in I.test(s, key, (1,)):
            if not tr:
                work.append((s2, i + 1))
            elif n == "any":
                out.append((s2, TRUE))
            elif n == "all":
                out.append((s2, FALSE))
            elif n == "position":
                out.append((s2, some(I, ctx.rt, ("sym", ("pos", src, gid(src, gset)), None))))
            else:
                m = {("elem", src): ("first", src, gid(src, gset))}
                for g, v in gl:
                    for s3 in assume_all(I, s2, subst(frozenset(g.items()), m)):
                        out.append((s3, some(I, ctx.rt, subst(v, m))))
    return out


def m_find_mut(I, st, ctx, a):
    """find on the elements pushed by earlier iterations of the enclosing loop (grouping)"""
    it = I.deref(st, a[0])
    _, l, items = it
    ety = I.p.ty(I.p.ty(ctx.rt)["args"][0])
    while ety["k"] == "ref":
        ety = I.p.ty(ety["to"])
    r = group_key(I, st, ctx, items, ety, a[1])
    if r is None:
        return None
    mark, key, first = r
    out = []
    for tr, s in I.test(st, key, (1,)):
        if tr:
            s = s.copy()
            out.append((s, some(I, ctx.rt, ("ref", group_cell(I, s, l, items, mark, first), ()))))
        else:
            out.append((s, none(I, ctx.rt)))
    return out


def group_cell(I, s, l, items, mark, first):
    """the group that was found, to be changed in place"""
    cell = ("grp", mark)
    s.cells[cell] = ("tup", (first, ("seq", (("open", (mark, "g")),))))
    I.store(s, l[0], l[1], ("seq", items + (("upd", cell),)))
    return cell


@model("<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut")
def _(I, st, ctx, a):
    l, items = container(I, st, a[0])
    i = I.deref(st, a[1])
    if items is None:
        return None
    if i[0] == "int" and all(x[0] == "e" for x in items) and i[1] < len(items):
        return [(st, ("ref", l[0], l[1] + (("i", i[1]),)))]
    if is_sym(i) and i[1][:1] == ("grpidx",) and len(items) == 1 and items[0][0] == "open" and items[0][1] == i[1][1]:
        st = st.copy()
        return [(st, ("ref", group_cell(I, st, l, items, i[1][1], i[1][2]), ()))]
    return None


def group_key(I, st, ctx, items, ety, f):
    """which of the groups collected so far is looked for? -> (mark, fact, name)"""
    opens = [x for x in items if x[0] == "open"]
    if len(items) != 1 or len(opens) != 1:
        return None
    mark = opens[0][1]
    if ety["k"] != "tuple":
        return None
    s0 = st.copy()
    g = ("gelem", mark)
    first = ("sym", (g, ("f", 0)), ety["f"][0])
    # which key is looked for?
    res = bools(I, s0, ctx, f, [("ref", s0.alloc(("tup", (first, ("sym", (g, ("f", 1)), ety["f"][1])))), ())])
    hits = [s for tr, s in res if tr]
    if len(hits) != 1:
        return None
    delta = I.guard_delta(s0, hits[0])
    if len(delta) != 1:
        return None
    (dk, df), = delta
    if dk[0] != "b" or dk[1] != "streq" or df != (True, frozenset((1,))):
        return None
    tx = (text((g, ("f", 0))),)
    mine = [x for x in dk[2] if contains(x, lambda y: y == tx[0])]
    other = [x for x in dk[2] if x not in mine]
    if len(other) != 1:
        return None
    return mark, ("b", "found", mark, other[0]), first


def m_next(I, st, ctx, a):
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    it = I.load(st, l[0], l[1])
    if it[0] == "iter" and it[1] and it[1][0][0] == "star" and any(o[0] in ADAPT for o in it[2]):
        # closures of adaptors run once, over a generic element, before the consuming loop
        out = []
        for s, items in drain(I, st, ctx, it):
            s = s.copy()
            I.store(s, l[0], l[1], ("iter", items, ()))
            r = m_next(I, s, ctx, a)
            if r is None:
                return None
            out.extend(r)
        return out
    r = nexts(I, st, ctx, l[0], l[1])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v is None:
            out.append((s, none(I, ctx.rt)))
        elif v != ("dropped",):
            out.append((s, some(I, ctx.rt, v)))
    return out


@model("core::iter::adapters::peekable::Peekable::<I>::peek", "core::iter::adapters::peekable::Peekable::<I>::peek_mut")
def _(I, st, ctx, a):
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    it = I.load(st, l[0], l[1])
    if it[0] != "iter":
        return None
    if any(o[0] in ADAPT for o in it[2]):
        return None
    segs = it[1]
    if segs and segs[0][0] == "starx":
        src = segs[0][1]
        out = []
        for tr, s in I.test(st, ("b", "more", src), (1,)):
            out.append((s, some(I, ctx.rt, ("sym", ("peeked", src), None)) if tr else none(I, ctx.rt)))
        return out
    r = seq_first(I, st, segs, "first")
    if r is None:
        return None
    return [(s, none(I, ctx.rt) if v is None else some(I, ctx.rt, v)) for s, v in r]


SUF.append((lambda p: iter_method(p) is not None, m_iterator))


# ------------------------------------------------------------------ nondeterministic containers
def is_hash(p):
    return "std::collections::hash" in p or "hashbrown" in p or "std::hash::random" in p


def m_hash(I, st, ctx, a):
    I.hash_calls = getattr(I, "hash_calls", {})
    I.hash_calls.setdefault(ctx.path, []).append((ctx.fr.key, ctx.at))
    return None


SUF.append((is_hash, m_hash))


SUF.append((lambda p: re.match(r"<core::ops::range::Range(Inclusive|From|To|ToInclusive)?<.*> as core::ops::range::RangeBounds<.*>>::contains$", p) or
            re.match(r"core::ops::range::Range(Inclusive|From|To|ToInclusive)?::<.*>::contains$", p), lambda I, st, ctx, a: m_range_contains(I, st, ctx, a)))


def m_range_contains(I, st, ctx, a):
    kind = re.search(r"range::Range(\w*)", ctx.path).group(1)
    r, x = I.deref(st, a[0]), I.deref(st, a[1])
    if r[0] != "adt":
        return None
    ns = [I.deref(st, v) for v in r[3][:2]]
    out = TRUE
    lo = ns[0] if kind in ("", "Inclusive", "From") else None
    hi = None if kind == "From" else ns[-1] if kind in ("To", "ToInclusive") else ns[1]
    for v, op in ((lo, "Ge"), (hi, "Le" if "Inclusive" in kind else "Lt")):
        if v is None:
            continue
        if v[0] != "int":
            return None
        c = I.binop(st, op, x, v)
        out = c if out == TRUE else ("and", out, c)
    return [(st, out)]
