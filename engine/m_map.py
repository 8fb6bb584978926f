"""Maps of the standard library, as lists of pairs.  A map that is filled in a loop is a grouping by key, like a list of
pairs that is searched for the key; its elements come out in an order that is not that of the input."""
import re
from .core import UNIT, subst
from .util import *
from .m_iter import call
from .m_tok import atoms, vpath

M = {}
SUF = []
MAP = re.compile(r"(alloc::collections::btree::map|std::collections::hash::map)::(BTreeMap|HashMap|Entry|entry::Entry|entry::OccupiedEntry|entry::VacantEntry)")


def is_text(I, v):
    return v[0] in ("ident", "str") or v[0] == "sym" and vpath(I, v) in ("proc_macro2::Ident", "alloc::string::String", "str")


def lookup(I, st, l, k):
    """[(st, reference to the pair | None)]"""
    items = I.items(st, I.load(st, l[0], l[1]))
    k = I.deref(st, k)
    if items is None or not is_text(I, k):
        return None
    if not items:
        return [(st, None)]
    if len(items) != 1 or items[0][0] != "open":
        return None
    mark = items[0][1]
    g = ("gelem", mark)
    cell = ("grp", mark)
    out = []
    ty = k[2] if k[0] == "sym" else None
    for tr, s in I.test(st, ("b", "found", mark, atoms(I, st, k)), (1,)):
        if tr:
            s = s.copy()
            s.cells[cell] = ("tup", (("sym", (g, ("f", 0)), ty), ("seq", (("open", (mark, "g")),))))
            I.store(s, l[0], l[1], ("seq", items + (("upd", cell),)))
            out.append((s, ("ref", cell, ())))
        else:
            out.append((s, None))
    return out


def m_new(I, st, ctx, a):
    return [(st, ("seq", ()))]


def m_entry(I, st, ctx, a):
    l = I.loc_of(st, a[0])
    r = None if l is None else lookup(I, st, l, a[1])
    return None if r is None else [(s, ("mapentry", l, a[1], x)) for s, x in r]


def m_or(I, st, ctx, a):
    e = a[0]
    n = ctx.path.split("::")[-1]
    if e[0] != "mapentry":
        return None
    _, l, k, x = e
    if x is not None:
        return [(st, ("ref", x[1], x[2] + (("f", 1),)))]
    if n == "or_default":
        rt = I.p.ty(ctx.rt)
        t = I.p.ty(rt["to"]) if rt["k"] == "ref" else None
        if t is None or t["k"] != "adt" or not t["path"].startswith("alloc::vec::Vec"):
            return None
        vs = [(st, ("seq", ()))]
    elif n == "or_insert":
        vs = [(st, a[1])]
    else:
        vs = call(I, st, ctx, a[1], [])
    out = []
    for s, v in vs or ():
        s = s.copy()
        items = I.items(s, I.load(s, l[0], l[1]))
        I.store(s, l[0], l[1], ("seq", items + (("e", ("tup", (k, v))),)))
        out.append((s, ("ref", l[0], l[1] + (("it", len(items)), ("f", 1)))))
    return out


def m_get_mut(I, st, ctx, a):
    l = I.loc_of(st, a[0])
    r = None if l is None else lookup(I, st, l, a[1])
    return None if r is None else [(s, none(I, ctx.rt) if x is None else some(I, ctx.rt, ("ref", x[1], x[2] + (("f", 1),)))) for s, x in r]


def m_insert(I, st, ctx, a):
    """only of a key that is known not to be there"""
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    items = I.items(st, I.load(st, l[0], l[1]))
    k = I.deref(st, a[1])
    if items is None or not is_text(I, k):
        return None
    if items:
        if len(items) != 1 or items[0][0] != "open":
            return None
        f = st.facts.get(("b", "found", items[0][1], atoms(I, st, k)))
        if f != (True, frozenset((0,))):
            return None
    st = st.copy()
    I.store(st, l[0], l[1], ("seq", items + (("e", ("tup", (k, a[2]))),)))
    return [(st, none(I, ctx.rt))]


def unordered(x):
    """the elements, in an order that is not that of the source"""
    if x[0] == "star":
        src = ("misordered", x[1])
        return ("star", src, subst(x[2], {("elem", x[1]): ("elem", src)}), x[3])
    return x


def m_iter(I, st, ctx, a):
    n = ctx.path.split("::")[-1]
    v = I.deref(st, a[0])
    if v[0] != "seq" or any(x[0] not in ("e", "star") for x in v[1]):
        return None
    if len(v[1]) > 1:
        return None
    items = tuple(unordered(x) for x in v[1])
    if n in ("into_iter", "iter", "drain"):
        return [(st, ("iter", items, ()))]
    i = 0 if n in ("keys", "into_keys") else 1
    out = []
    for x in items:
        if x[0] == "e":
            if x[1][0] != "tup":
                return None
            out.append(("e", x[1][1][i]))
        else:
            cases = []
            for g, es in x[2]:
                if any(y[0] != "e" or y[1][0] != "tup" for y in es):
                    return None
                cases.append((g, tuple(("e", y[1][1][i]) for y in es)))
            out.append(("star", x[1], tuple(cases), x[3]))
    return [(st, ("iter", tuple(out), ()))]


def last(p):
    return p.split("::")[-1]


for names, f in ((("new", "with_capacity", "default"), m_new), (("entry",), m_entry), (("or_default", "or_insert", "or_insert_with"), m_or),
                 (("get_mut",), m_get_mut), (("insert",), m_insert),
                 (("into_iter", "iter", "keys", "values", "into_keys", "into_values"), m_iter)):
    SUF.append((lambda p, names=names: MAP.search(p) is not None and last(p) in names, f))


SET = re.compile(r"(alloc::collections::btree::set|std::collections::hash::set)::(BTreeSet|HashSet)\b")


def m_set(I, st, ctx, a):
    """a set, as the list of what was added to it"""
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    items = I.items(st, I.load(st, l[0], l[1]))
    if items is None:
        return None
    k = I.deref(st, a[1])
    add = last(ctx.path) == "insert"
    key = atoms(I, st, k) if is_text(I, k) else I.freeze(st, k)
    out = []
    for tr, s in I.test(st, ("b", "inset", items, key), (1,)) if items else ((False, st),):
        if add and not tr:
            s = s.copy()
            I.store(s, l[0], l[1], ("seq", items + (("e", k),)))
        out.append((s, ("int", int(tr != add))))
    return out


for names, f in ((("new", "with_capacity", "default"), m_new), (("insert", "contains"), m_set)):
    SUF.append((lambda p, names=names: SET.search(p) is not None and last(p) in names, f))
