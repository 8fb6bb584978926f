"""Shared helpers of the library models."""
from .core import UNIT, TRUE, FALSE, EMPTY, norm_str, const_str

DIAG = "diag"          # cell holding the diagnostics emitted so far
CS = ("span", "cs")    # Span::call_site()


def tpath(I, ty):
    """path of an adt type, looking through references"""
    if ty is None:
        return None
    t = I.p.ty(ty)
    while t["k"] == "ref":
        t = I.p.ty(t["to"])
    if t["k"] == "adt":
        return t["path"]
    return t["s"]


def vty(I, v):
    if v[0] == "sym":
        return v[2]
    if v[0] == "adt":
        return v[1]
    return None


def vpath(I, v):
    return tpath(I, vty(I, v))


def opt_ty(I, ctx_ty):
    return ctx_ty


def find_adt(I, suffix, pred=None):
    c = I.__dict__.setdefault("_adtcache", {})
    if suffix not in c:
        c[suffix] = I.p.adt(suffix)
    return c[suffix]


def some(I, ty, v):
    t = I.p.ty(ty)
    return ("adt", ty, vidx(t, "Some"), (v,))


def none(I, ty):
    t = I.p.ty(ty)
    return ("adt", ty, vidx(t, "None"), ())


def ok(I, ty, v):
    return ("adt", ty, vidx(I.p.ty(ty), "Ok"), (v,))


def err(I, ty, v):
    return ("adt", ty, vidx(I.p.ty(ty), "Err"), (v,))


def vidx(t, name):
    for i, v in enumerate(t["variants"]):
        if v["n"] == name:
            return i
    raise KeyError(name)


def variants(I, st, v):
    """split an enum value: [(st, variant index, payload values)]"""
    v = I.deref(st, v)
    if v[0] == "adt":
        return [(st, v[2], v[3])]
    if v[0] == "sym" and v[2] is not None and I.p.ty(v[2])["k"] == "adt" and I.p.ty(v[2])["enum"]:
        t = I.p.ty(v[2])
        out = []
        for i in range(len(t["variants"])):
            for s in I.assume(st, ("var", v[1], v[2]), (i,)):
                x = I.expand_variant(v, i)
                out.append((s, i, x[3]))
        return out
    return None


def key_of(v):
    """hashable identity of a symbol"""
    return v[1] if v[0] == "sym" else v


def text(key):
    return ("sym", ("text", key), None)


def atoms(I, st, v):
    """string value -> tuple of atoms"""
    v = I.deref(st, v)
    k = v[0]
    if k == "str":
        return v[1]
    if k == "ident":
        return v[1]
    if k == "int":
        return (chr(v[1]),) if v[1] > 9 else (str(v[1]),)
    if k == "sym":
        p = vpath(I, v)
        if p == "proc_macro2::Ident":
            return (text(v[1]),)
        return (("sym", v[1], None),)
    if k == "adt" and len(v[3]) == 1:
        return atoms(I, st, v[3][0])
    if k == "char":
        return (v,)
    if k == "chr":
        return v[1]
    return (("sym", ("opaque", v), None),)


def mkstr(a):
    return ("str", norm_str(tuple(a)))


def idt(I, atoms, span):
    """the token of an identifier; where it points to is kept when that is what is looked at"""
    return ("id", atoms, span) if I.spans else ("id", atoms)


def tokens_of(I, st, v, ty=None):
    """[(st, items)] token items of a value used as `#v`; None if unknown"""
    v0 = v
    v = I.deref(st, v)
    k = v[0]
    if k == "ts":
        return [(st, v[1])]
    if k == "str":
        return [(st, (("lit", v[1]),))]
    if k == "ident":
        return [(st, (idt(I, v[1], v[2] if len(v) > 2 else CS),))]
    if k == "int":
        t = I.p.ty(ty) if ty is not None else None
        while t is not None and t["k"] == "ref":
            t = I.p.ty(t["to"])
        if t is not None and t["s"] == "bool":
            return [(st, (("id", ("true" if v[1] else "false",)),))]
        return [(st, (("num", v[1]),))]
    if k == "litstr":
        return [(st, (("lit", v[1], v[2]) if I.spans else ("lit", v[1]),))]
    if k == "tok":           # explicit token value
        return [(st, (v[1],))]
    if k == "sym":
        p = vpath(I, v)
        if v[1][:1] == ("parsed",):
            return [(st, v[1][1])]
        if v[1][:1] == ("rec",):
            return [(st, (v[1],))]
        if p == "proc_macro2::Ident":
            return [(st, (idt(I, (text(v[1]),), ("span", v[1])),))]
        if p in ("alloc::string::String", "str"):
            return [(st, (("lit", (("sym", v[1], None),)),))]
        if p == "syn::lit::LitStr":
            return [(st, (("lit", (("sym", ("litval", v[1]), None),)),))]
        if p == "bool":
            out = []
            for tr, s in I.truth(st, v):
                out.append((s, (("id", ("true" if tr else "false",)),)))
            return out
        if p is not None and p.startswith("syn::token::"):
            g = TOKS.get(p[len("syn::token::"):])
            if g is not None:
                return [(st, tuple(("p", c) for c in g))]
        if p == "core::option::Option":
            out = []
            for s, i, f in variants(I, st, v):
                if f:
                    r = tokens_of(I, s, f[0])
                    if r is None:
                        return None
                    out.extend(r)
                else:
                    out.append((s, ()))
            return out
        if p == "proc_macro2::TokenStream" or (p is not None and (p.startswith("syn::") or p.startswith("proc_macro2::"))):
            return [(st, (("u", v[1]),))]
        return None
    if k == "adt":
        p = vpath(I, v)
        if p == "core::option::Option":
            return tokens_of(I, st, v[3][0]) if v[3] else [(st, ())]
        if p == "quote::__private::RepInterp" or p.endswith("Box") or p.endswith("Rc"):
            return tokens_of(I, st, v[3][0])
        if p.startswith("syn::token::"):
            g = TOKS.get(p[len("syn::token::"):])
            if g is not None:
                return [(st, tuple(("p", c) for c in g))]
        if p == "syn::lit::Lit" and v[3]:
            return tokens_of(I, st, v[3][0])
        if p.startswith("syn::"):
            return [(st, (("uv", I.freeze(st, v)),))]
    return None


TOKS = {"Or": "|", "OrOr": "||", "Dot": ".", "DotDot": "..", "Pound": "#", "Eq": "=", "Minus": "-", "Semi": ";",
        "Colon": ":", "PathSep": "::", "Comma": ",", "Lt": "<", "Gt": ">", "And": "&", "Not": "!", "Underscore": "_",
        "Star": "*", "Plus": "+", "Question": "?", "Dollar": "$"}
TOKS = {k: tuple(v) for k, v in TOKS.items()}


def append(I, st, ref, items):
    """append token items to the stream behind a &mut TokenStream"""
    l = I.loc_of(st, ref)
    if l is None:
        return st
    st = st.copy()
    cur = I.load(st, l[0], l[1])
    if cur[0] == "ts":
        nv = ("ts", cur[1] + tuple(items))
    elif cur[0] == "sym":
        nv = ("ts", (("u", cur[1]),) + tuple(items))
    else:
        nv = ("ts", (("unknown", cur),) + tuple(items))
    I.store(st, l[0], l[1], nv)
    return st


def emit(st, d):
    st = st.copy()
    cur = st.cells.get(DIAG, ("seq", ()))
    st.cells[DIAG] = ("seq", cur[1] + (("e", d),))
    return st


def ident_of(I, st, v):
    """(atoms) of an identifier value"""
    return atoms(I, st, v)
