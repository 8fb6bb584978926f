"""Models: proc_macro2 / quote / strings / diagnostics."""
import re
from .core import UNIT, TRUE, FALSE, EMPTY, norm_str, const_str, neg, State, first_char
from .util import *

M = {}          # exact path -> fn(I, st, ctx, args)
SUF = []        # (predicate on path, fn)


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


def pure(*paths):
    """model without control flow: fn(I, st, ctx, args) -> value"""
    def deco(f):
        def g(I, st, ctx, args):
            v = f(I, st, ctx, args)
            return None if v is None else [(st, v)]
        for p in paths:
            M[p] = g
        return f
    return deco


# ------------------------------------------------------------------ token streams
@pure("proc_macro2::TokenStream::new", "<proc_macro2::TokenStream as core::default::Default>::default")
def _(I, st, ctx, a):
    return ("ts", ())


def ts_items(I, st, v):
    v = I.deref(st, v)
    if v[0] == "ts":
        return v[1]
    if v[0] == "sym":
        return (v[1],) if v[1][:1] == ("rec",) else (("u", v[1]),)
    return None


@model("proc_macro2::TokenStream::is_empty")
def _(I, st, ctx, a):
    it = ts_items(I, st, a[0])
    if it is None:
        return None
    it = [x for x in it]
    if not it:
        return [(st, TRUE)]
    if any(x[0] in ("id", "p", "lit", "g", "num") for x in it):
        return [(st, FALSE)]
    if len(it) == 1 and it[0][0] == "u":
        return [(st, ("in", ("b", "tsempty", it[0][1]), frozenset((1,))))]
    return [(st, ("in", ("b", "tsempty", tuple(it)), frozenset((1,))))]


QP = "quote::__private::push_"
PUNCT = {
    "colon2": "::", "comma": ",", "dot": ".", "and": "&", "eq": "=", "gt": ">", "lt": "<", "or_or": "||",
    "pound": "#", "semi": ";", "underscore": "_", "bang": "!", "colon": ":", "or": "|", "add": "+", "sub": "-",
    "star": "*", "question": "?", "rarrow": "->", "fat_arrow": "=>", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=",
    "eq_eq": "==", "ne": "!=", "le": "<=", "ge": ">=", "and_and": "&&", "add_eq": "+=", "at": "@", "div": "/",
    "rem": "%", "caret": "^", "shl": "<<", "shr": ">>", "dollar": "$",
}
DELIM = {"Parenthesis": "(", "Brace": "{", "Bracket": "[", "None": ""}


def quote_push(I, st, ctx, a):
    n = ctx.path[len(QP):]
    sp = CS
    if n.endswith("_spanned"):
        n = n[:-len("_spanned")]
        sp = span_of(I, st, a[1])
        a = [a[0]] + a[2:]
    if n == "ident" or n == "lifetime":
        return [(append(I, st, a[0], (idt(I, I.deref(st, a[1])[1], sp),)), UNIT)]
    if n == "group":
        d = I.deref(st, a[1])
        if d[0] != "adt":
            return None
        dn = I.p.ty(d[1])["variants"][d[2]]["n"]
        inner = I.deref(st, a[2])
        items = ts_items(I, st, inner)
        if items is None:
            items = (("unknown", inner),)
        return [(append(I, st, a[0], (("g", DELIM[dn], items),)), UNIT)]
    if n == "underscore":
        return [(append(I, st, a[0], (("id", ("_",)),)), UNIT)]
    if n in PUNCT:
        return [(append(I, st, a[0], tuple(("p", c) for c in PUNCT[n])), UNIT)]
    return None


SUF.append((lambda p: p.startswith(QP), quote_push))


@pure("quote::__private::get_span", "quote::__private::get_span::GetSpan::<proc_macro2::Span>::__into_span",
      "quote::__private::get_span::GetSpan::<T>::__into_span", "quote::__private::get_span::GetSpanInner::<proc_macro2::extra::DelimSpan>::__into_span")
def _(I, st, ctx, a):
    return span_of(I, st, a[0])


SUF.append((lambda p: p.endswith("::__into_span"), lambda I, st, ctx, a: [(st, span_of(I, st, a[0]))]))


@model("quote::__private::parse", "quote::__private::parse_spanned")
def _(I, st, ctx, a):
    s = const_str(I.deref(st, a[-1])[1])
    return [(append(I, st, a[0], (("raw", s),)), UNIT)]


@pure("quote::__private::CheckHasIterator::check", "quote::__private::HasIterator::check")
def _(I, st, ctx, a):
    return UNIT


SUF.append((lambda p: "quote::__private::HasIterator" in p and p.endswith("::bitor"),
            lambda I, st, ctx, a: [(st, ("adt", ctx.rt, 0, ()) if ctx.rt is not None else UNIT)]))
SUF.append((lambda p: "CheckHasIterator" in p, lambda I, st, ctx, a: [(st, UNIT)]))


# ------------------------------------------------------------------ ToTokens
def local_to_tokens(I, ty):
    """instance of a local `ToTokens for T`"""
    c = I.__dict__.setdefault("_totok", None)
    if c is None:
        c = {}
        for k, f in I.p.fns.items():
            if f["local"] and "body" in f and (f.get("trait") or "").endswith("ToTokens") and f["path"].endswith("::to_tokens"):
                c[f.get("self")] = k
        I._totok = c
    t = I.p.ty(ty)
    while t["k"] == "ref":
        t = I.p.ty(t["to"])
    if t["k"] != "adt":
        return None
    if t["path"] in ("quote::__private::RepInterp", "alloc::boxed::Box") and t["args"]:
        return local_to_tokens(I, t["args"][0])
    return c.get(t["path"])


def to_tokens_into(I, st, ctx, v, ref, ty):
    """<T as ToTokens>::to_tokens(v, ref) for any T -> [(st, UNIT)]"""
    v = I.deref(st, v)
    t = vty(I, v)
    inst = None
    if t is not None:
        tt = I.p.ty(t)
        if tt["k"] == "adt" and tt["path"] == "quote::__private::RepInterp" and v[0] == "adt":
            return to_tokens_into(I, st, ctx, v[3][0], ref, tt["args"][0])
        if tt["k"] == "adt" and tt["path"] == "core::option::Option":
            out = []
            for s, i, f in variants(I, st, v):
                if f:
                    out.extend(to_tokens_into(I, s, ctx, f[0], ref, tt["args"][0]))
                else:
                    out.append((s, UNIT))
            return out
        inst = local_to_tokens(I, t)
    if inst is not None:
        return call_inst(I, st, ctx, inst, [v, ref])
    r = tokens_of(I, st, v, t if t is not None else ty)
    if r is None:
        return [(append(I, st, ref, (("unknown", I.freeze(st, v)),)), UNIT)]
    return [(append(I, s, ref, items), UNIT) for s, items in r]


def call_inst(I, st, ctx, inst, args):
    from .core import Ctx
    fn = I.p.fns[inst]
    unit = next((i for i, t in enumerate(I.p.types) if t["k"] == "tuple" and not t["f"]), None)
    c2 = Ctx(fn["path"], inst, fn.get("targs", []), unit, ctx.at, [], ctx.fr, fn.get("trait"))
    return I.invoke(st, c2, args)


def arg_ty(ctx, i=0):
    return ctx.argtys[i] if i < len(ctx.argtys) else None


def m_to_tokens(I, st, ctx, a):
    return to_tokens_into(I, st, ctx, a[0], a[1], arg_ty(ctx))


SUF.append((lambda p: p.endswith("to_tokens::ToTokens>::to_tokens") or
            (p.endswith("::to_tokens") and "ToTokens for" in p), m_to_tokens))


def m_into_ts(I, st, ctx, a):
    st = st.copy()
    c = st.alloc(("ts", ()))
    out = []
    for s, _ in to_tokens_into(I, st, ctx, a[0], ("ref", c, ()), arg_ty(ctx)):
        s = s.copy()
        v = s.cells.pop(c)
        out.append((s, v))
    return out


SUF.append((lambda p: p.endswith("::into_token_stream") or p.endswith("::to_token_stream"), m_into_ts))


def m_ts_extend(I, st, ctx, a):
    from .m_iter import drain
    src = I.deref(st, a[1])
    l = I.loc_of(st, a[0])
    if l is None:
        return None
    it = as_ts_source(I, st, src)
    if it is not None:
        return [(append(I, s, a[0], items), UNIT) for s, items in it]
    out = []
    for s, items in whole_all(drain(I, st, ctx, a[1], ts_step)):
        out.append((append(I, s, a[0], items), UNIT))
    return out


def as_ts_source(I, st, src):
    """Option<TokenStream> / TokenStream used as an `extend` source"""
    if src[0] == "ts":
        return [(st, src[1])]
    if src[0] == "sym":
        p = vpath(I, src)
        if p == "proc_macro2::TokenStream":
            return [(st, (("u", src[1]),) if src[1][:1] != ("rec",) else (src[1],))]
        if p == "core::option::Option":
            out = []
            for s, i, f in variants(I, st, src):
                out.append((s, ts_items(I, s, f[0]) if f else ()))
            return out
    if src[0] == "adt" and vpath(I, src) == "core::option::Option":
        if not src[3]:
            return [(st, ())]
        r = ts_items(I, st, src[3][0])
        return [(st, r)] if r is not None else None
    return None


def whole(items):
    """all the token trees of some tokens are those tokens"""
    out = []
    for x in items:
        if x[0] == "star" and x[1][0] == "trees" and not x[3] and x[2] == ((frozenset(), (("u", ("elem", x[1])),)),):
            x = ("u", x[1][1])
        out.append(x)
    return tuple(out)


def whole_all(r):
    return [(s, whole(items)) for s, items in r]


def ts_step(I, st, x):
    """token items contributed by one iterated element"""
    x = I.deref(st, x)
    r = ts_items(I, st, x)
    if r is None:
        rr = tokens_of(I, st, x)
        return rr
    return [(st, r)]


SUF.append((lambda p: p.startswith("<proc_macro2::TokenStream as core::iter::traits::collect::Extend"), m_ts_extend))


@model("<proc_macro2::TokenStream as quote::ext::TokenStreamExt>::append")
def _(I, st, ctx, a):
    v = I.deref(st, a[1])
    r = tokens_of(I, st, v, arg_ty(ctx, 1))
    if r is None:
        r = [(st, (("unknown", v),))]
    return [(append(I, s, a[0], it), UNIT) for s, it in r]


@model("<proc_macro2::TokenStream as quote::ext::TokenStreamExt>::append_all",
       "<proc_macro2::TokenStream as quote::ext::TokenStreamExt>::append_separated",
       "<proc_macro2::TokenStream as quote::ext::TokenStreamExt>::append_terminated")
def _(I, st, ctx, a):
    from .m_iter import drain
    out = []
    if ctx.path.endswith("append_all"):
        for s, items in whole_all(drain(I, st, ctx, a[1], ts_step)):
            out.append((append(I, s, a[0], items), UNIT))
        return out
    return None


# ------------------------------------------------------------------ spans
def span_of(I, st, v):
    v = I.deref(st, v)
    if v[0] == "span":
        return v
    if v[0] in ("ident", "punctsp"):
        return v[2] if len(v) > 2 else CS
    if v[0] == "punct":
        return CS
    if v[0] == "litstr":
        return v[2]
    if v[0] == "synerr":
        return v[1]
    if v[0] == "sym":
        if v[1][:1] == ("rec",):
            return ("span", "gen")
        return ("span", v[1])
    if v[0] == "ts":
        for x in v[1]:
            if x[0] == "u":
                return ("span", x[1])
        return ("span", ("of", v[1]))
    if v[0] == "adt":
        # the span of a value built from parts: any part
        for f in v[3]:
            r = span_of(I, st, f)
            if r[1] not in ("gen", "cs"):
                return r
    return ("span", "gen")


@pure("proc_macro2::Span::call_site", "proc_macro2::Span::mixed_site", "proc_macro::Span::call_site")
def _(I, st, ctx, a):
    return CS


@model("proc_macro2::Span::join")
def _(I, st, ctx, a):
    s = span_of(I, st, a[0])
    out = []
    for tr, s2 in I.test(st, ("b", "spanjoin"), (1,)):
        out.append((s2, some(I, ctx.rt, s) if tr else none(I, ctx.rt)))
    return out


@pure("proc_macro2::Span::resolved_at", "proc_macro2::Span::located_at")
def _(I, st, ctx, a):
    """the location of one span with the hygiene of another"""
    loc, hyg = (span_of(I, st, x) for x in (a if ctx.path.endswith("resolved_at") else reversed(a[:2])))
    if hyg[1] != "cs" or loc[1] in ("cs", "gen") or loc[1][:1] == ("resolved",):
        return loc
    return ("span", ("resolved", loc[1]))


@pure("proc_macro2::extra::DelimSpan::join", "proc_macro2::extra::DelimSpan::open", "proc_macro2::extra::DelimSpan::close",
      "proc_macro2::Ident::span", "proc_macro2::Punct::span", "syn::lit::LitStr::span", "syn::lit::LitInt::span",
      "syn::lit::value::<impl syn::lit::Lit>::span", "proc_macro2::Literal::span", "proc_macro2::Group::span",
      "proc_macro2::TokenTree::span",
      "proc_macro2::Group::delim_span", "syn::error::Error::span")
def _(I, st, ctx, a):
    return span_of(I, st, a[0])


SUF.append((lambda p: p.endswith("spanned::Spanned>::span"), lambda I, st, ctx, a: [(st, span_of(I, st, a[0]))]))
SUF.append((lambda p: "as syn::span::IntoSpans" in p or "syn::span::IntoSpans<" in p, lambda I, st, ctx, a: [(st, span_of(I, st, a[0]))]))


# ------------------------------------------------------------------ identifiers
def bad_ident(I, st, ctx, atoms_, raw):
    """`Ident::new` panics if the text is no identifier: the states in which it does not"""
    at = norm_str(atoms_)
    if at and isinstance(at[0], str) and at[0].startswith("r#"):
        raw, at = True, norm_str((at[0][2:],) + at[1:])
    c = const_str(at)
    if c is not None:
        if re.fullmatch(r"[^\W\d]\w*", c) and not (raw and c in NOT_RAW):
            return [st]
        I.stop("panic", "%r is not a valid identifier" % c, st, ctx.fr, ctx.at)
        return []
    out = [st]
    bad = []
    if raw and len(at) == 1:
        bad.append((("str", at), NOT_RAW))
    for x in at:
        if isinstance(x, tuple) and x[0] == "sym" and (x[1] in I.ne_str or x[1][:1] == ("repr",)):
            bad.append((("b", "strpred", "contains", (x,), "-"), (1,)))
        if isinstance(x, tuple) and x[0] == "sym" and x[1][:1] == ("litval",):
            I.stop("panic", "the value of a literal is not always an identifier", st, ctx.fr, ctx.at)
            return []
    for key, vals in bad:
        for s in [s for o in out for s in I.assume(o, key, vals)]:
            I.stop("panic", "not a valid identifier", s, ctx.fr, ctx.at)
        out = [s for o in out for t, s in I.test(o, key, vals) if not t]
    return out


NOT_RAW = ("_", "self", "Self", "super", "crate", "$crate")


@model("proc_macro2::Ident::new", "syn::ident::Ident::new")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    return [(s, ("ident", at, span_of(I, s, a[1]))) for s in bad_ident(I, st, ctx, at, False)]


@model("proc_macro2::Ident::new_raw")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    return [(s, ("ident", norm_str(("r#",) + at), span_of(I, s, a[1]))) for s in bad_ident(I, st, ctx, at, True)]


@model("proc_macro2::Ident::set_span")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    st = st.copy()
    I.set_through(st, a[0], ("ident", atoms(I, st, v), span_of(I, st, a[1])))
    return [(st, UNIT)]


@pure("<proc_macro2::Ident as syn::ext::IdentExt>::unraw")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    return ("ident", unraw(atoms(I, st, v)), span_of(I, st, v))


def unraw(at):
    if at and isinstance(at[0], str):
        if at[0].startswith("r#"):
            return norm_str((at[0][2:],) + at[1:])
        return at
    if len(at) == 1 and isinstance(at[0], tuple) and at[0][0] == "op" and at[0][1] == "unraw":
        return at
    return (("op", "unraw", at, ()),)


def str_eq(I, st, a, b):
    if a == b:
        return TRUE
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    if cb is not None:
        return ("in", ("str", a), frozenset((cb,)))
    if ca is not None:
        return ("in", ("str", b), frozenset((ca,)))
    return ("in", ("b", "streq", frozenset((a, b))), frozenset((1,)))


def m_streq(I, st, ctx, a):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    r = str_eq(I, st, atoms(I, st, x), atoms(I, st, y))
    if ctx.path.endswith("::ne"):
        r = neg(r)
    return [(st, r)]


def is_streq(p):
    if not (p.endswith("::eq") or p.endswith("::ne")):
        return False
    return ("PartialEq" in p) and ("proc_macro2::Ident as" in p or "alloc::string::String as" in p or
                                   "<str as core::cmp" in p or "PartialEq for str>" in p or "PartialEq<str>" in p or
                                   "PartialEq<&str>" in p or "PartialEq<alloc::string::String>" in p or
                                   "alloc::string::<impl core::cmp::PartialEq" in p)


SUF.append((is_streq, m_streq))


@model("core::str::<impl str>::eq_ignore_ascii_case", "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case")
def _(I, st, ctx, a):
    def low(v):
        at = atoms(I, st, I.deref(st, v))
        c = const_str(at)
        return (c.lower(),) if c is not None else (("op", "lower", at, ()),)
    return [(st, str_eq(I, st, low(a[0]), low(a[1])))]


@model("quote::__private::RepInterp::<T>::next")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    return [(st, some(I, ctx.rt, v[3][0]))] if v[0] == "adt" and v[3] else None


# ------------------------------------------------------------------ strings
def same_str(I, st, ctx, a):
    return [(st, ("str", atoms(I, st, a[0])))]


SUF.append((lambda p: p.endswith("as alloc::string::ToString>::to_string") or p.endswith("alloc::borrow::ToOwned>::to_owned")
            or p.endswith("alloc::borrow::ToOwned for str>::to_owned"), lambda I, st, ctx, a: m_to_string(I, st, ctx, a)))


def m_to_string(I, st, ctx, a):
    v = I.deref(st, a[0])
    p = vpath(I, v)
    if p == "syn::lit::LitInt" and v[0] == "sym":
        return [(st, ("str", (("sym", ("text", v[1]), None),)))]
    if p == "syn::error::Error":
        return [(st, ("str", (("sym", ("msg", key_of(v)), None),)))]
    if p in ("proc_macro2::TokenStream",) or v[0] == "ts":
        return [(st, ("str", (("sym", ("tstext", I.freeze(st, v)), None),)))]
    if p is not None and p.endswith("clone::Clone"):
        return [(st, v)]
    return [(st, ("str", atoms(I, st, v)))]


for _p in ("<alloc::string::String as core::clone::Clone>::clone", "<alloc::string::String as core::ops::deref::Deref>::deref",
           "<alloc::string::String as core::convert::AsRef<str>>::as_ref", "alloc::string::String::as_str",
           "alloc::str::<impl str>::into_string", "alloc::string::String::into_boxed_str",
           "<alloc::string::String as core::borrow::Borrow<str>>::borrow", "<str as core::convert::AsRef<str>>::as_ref",
           "<alloc::string::String as core::convert::From<&str>>::from", "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned",
           "<alloc::string::String as core::convert::From<&mut str>>::from"):
    M[_p] = same_str


@pure("alloc::string::String::new", "alloc::string::String::with_capacity", "<alloc::string::String as core::default::Default>::default")
def _(I, st, ctx, a):
    return ("str", ())


def str_push(I, st, ref, at):
    st = st.copy()
    cur = atoms(I, st, ref)
    I.set_through(st, ref, ("str", norm_str(cur + at)))
    return [(st, UNIT)]


@model("alloc::string::String::push")
def _(I, st, ctx, a):
    c = I.deref(st, a[1])
    if c[0] == "int":
        at = (chr(c[1]),)
    elif c[0] == "chr":
        at = c[1]
    else:
        at = (("chr", c),)
    return str_push(I, st, a[0], at)


@model("alloc::string::String::push_str", "<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign",
       "<alloc::string::String as core::fmt::Write>::write_str")
def _(I, st, ctx, a):
    return str_push(I, st, a[0], atoms(I, st, a[1]))


@pure("<alloc::string::String as core::ops::arith::Add<&str>>::add")
def _(I, st, ctx, a):
    return ("str", norm_str(atoms(I, st, a[0]) + atoms(I, st, a[1])))


@model("alloc::string::String::insert_str", "alloc::string::String::insert")
def _(I, st, ctx, a):
    n = I.deref(st, a[1])
    if n != ("int", 0):
        return None
    x = I.deref(st, a[2])
    at = (chr(x[1]),) if x[0] == "int" else atoms(I, st, x)
    cur = atoms(I, st, a[0])
    st = st.copy()
    I.set_through(st, a[0], ("str", norm_str(at + cur)))
    return [(st, UNIT)]


@model("alloc::string::String::pop", "alloc::string::String::truncate", "alloc::string::String::remove", "alloc::string::String::retain")
def _(I, st, ctx, a):
    """a part of a string is taken off"""
    n = ctx.path.split("::")[-1]
    at = norm_str(atoms(I, st, a[0]))
    if any(isinstance(x, tuple) and x[0] == "open" for x in at):
        return None
    c = const_str(at)
    if n == "pop" and at and isinstance(at[-1], str):
        r = [(st, at[:-1] + (at[-1][:-1],), ("int", ord(at[-1][-1])))]
    elif n == "pop" and not at:
        r = [(st, at, None)]
    elif n == "pop" and len(at) == 1 and at[0][0] == "star" and not at[0][3] and at[0][2] and \
            len({x[1][-1][-1] if x[1] and isinstance(x[1][-1], str) else None for x in at[0][2]}) == 1 and isinstance(at[0][2][0][1][-1], str):
        # a separator behind every element, the last of which is taken off again
        x = at[0]
        cases = tuple((g, norm_str(its[:-1] + (its[-1][:-1],))) for g, its in x[2])
        sep = x[2][0][1][-1][-1]
        r = [(st, (("star", x[1], cases, (sep,)),), ("int", ord(sep)))]
    elif c == "":
        return None
    else:
        r = [(st, (("op", n, at, tuple(I.freeze(st, I.deref(st, x)) for x in a[1:])),), ("chr", ("part", n, at)))]
    out = []
    for s, rest, v in r:
        s = s.copy()
        I.set_through(s, a[0], ("str", norm_str(rest)))
        if n in ("truncate", "retain"):
            out.append((s, UNIT))
        elif n == "remove":
            out.append((s, v))
        else:
            out.append((s, none(I, ctx.rt) if v is None else some(I, ctx.rt, v)))
    return out


@pure("syn::lit::LitStr::token")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    return ("sym", ("token", v[1]), ctx.rt) if v[0] == "sym" else None


def char_arg(I, st, v):
    v = I.deref(st, v)
    if v[0] == "int":
        return chr(v[1])
    if v[0] == "str":
        return const_str(v[1])
    return None


def str_pred(name):
    def f(I, st, ctx, a):
        at = atoms(I, st, a[0])
        if name == "is_empty":
            return [(st, ("in", ("b", "strpred", "is_empty", at, None), frozenset((1,))))]
        c = I.deref(st, a[1])
        arg = char_arg(I, st, c)
        nm = name
        if arg is None:
            cs = char_class(I, st, ctx, c)
            if cs is not None and name == "starts_with":
                return [(st, ("in", ("b", "strpred", "starts_in", at, cs), frozenset((1,))))]
            if cs is not None and len(cs) == 1:
                return [(st, ("in", ("b", "strpred", name, at, cs), frozenset((1,))))]
            nm2 = closure_charpred(I, st, ctx, c)
            if nm2 is None:
                return None
            nm, arg = nm + ":" + nm2, None
        return [(st, ("in", ("b", "strpred", nm, at, arg), frozenset((1,))))]
    return f


def char_class(I, st, ctx, c):
    """the ASCII characters a closure accepts, if it accepts no others"""
    from .core import Ctx
    k = ("charclass", c)
    if k in I.chars:
        return I.chars[k]
    I.chars[k] = None
    if c[0] == "fn":
        n = I.p.ty(c[1]).get("path", "").split("::")[-1]
        if n not in CHARPREDS:
            return None

        def test(i):
            return charpred(n, chr(i))
    elif c[0] == "clo":
        def test(i):
            n0 = len(I.stops)
            r = I.call_value(st.copy(), c, [("int", i)], Ctx("", None, [], None, ctx.at, [], ctx.fr, None))
            del I.stops[n0:]
            v = r[0][1] if len(r) == 1 else None
            return {TRUE: True, FALSE: False}.get(v)
    else:
        return None
    try:
        if test(65) is None or any(test(i) is not False for i in (0xc9, 0xe9, 0x101, 0x3a3, 0x4e2d, 0x663, 0x2160)):
            return None
        out = [test(i) for i in range(128)]
    except Exception:
        return None
    if None in out:
        return None
    I.chars[k] = "".join(chr(i) for i in range(128) if out[i])
    return I.chars[k]


def closure_charpred(I, st, ctx, c):
    """name of the character class a closure `|c: char| ...` tests"""
    from .core import Ctx
    if c[0] == "fn":
        n = I.p.ty(c[1]).get("path", "")
        n = n.split("::")[-1]
        return n if n in CHARPREDS else None
    if c[0] != "clo":
        return None
    try:
        n0 = len(I.stops)
        x = ("sym", ("anychar",), None)
        r = I.call_value(st.copy(), c, [x], Ctx("", None, [], None, ctx.at, [], ctx.fr, None))
        del I.stops[n0:]
    except Exception:
        return None
    if len(r) == 1:
        v = r[0][1]
        if v[0] == "in" and v[1][0] == "b" and v[1][1] == "charpred" and v[1][3] == x:
            return v[1][2] if v[2] == frozenset((1,)) else None
    # several outcomes: evaluate the set of ascii characters
    return None


CHARPREDS = {"is_ascii_uppercase", "is_uppercase", "is_lowercase", "is_ascii_lowercase", "is_alphabetic", "is_ascii_alphabetic",
             "is_numeric", "is_ascii_digit", "is_alphanumeric", "is_ascii_alphanumeric", "is_whitespace", "is_ascii_punctuation"}


def m_charpred(I, st, ctx, a):
    n = ctx.path.split("::")[-1]
    c = I.deref(st, a[0])
    if c[0] == "int":
        return [(st, TRUE if charpred(n, chr(c[1])) else FALSE)]
    if c[0] == "sym" and first_char(c[1]) is not None and not any(charpred(n, chr(i)) for i in (0xc9, 0xe9, 0x101, 0x3a3, 0x4e2d, 0x663, 0x2160)):
        return [(st, ("in", ("int", c[1]), frozenset(i for i in range(128) if charpred(n, chr(i)))))]
    return [(st, ("in", ("b", "charpred", n, c), frozenset((1,))))]


def charpred(n, ch):
    asc = ch.isascii()
    return {"is_ascii_uppercase": asc and ch.isupper(), "is_uppercase": ch.isupper(), "is_lowercase": ch.islower(),
            "is_ascii_lowercase": asc and ch.islower(), "is_alphabetic": ch.isalpha(),
            "is_ascii_alphabetic": asc and ch.isalpha(), "is_numeric": ch.isnumeric(),
            "is_ascii_digit": asc and ch.isdigit(), "is_alphanumeric": ch.isalnum(),
            "is_ascii_alphanumeric": asc and ch.isalnum(), "is_whitespace": ch.isspace(),
            "is_ascii_punctuation": asc and not ch.isalnum() and ch.isprintable() and ch != " "}[n]


SUF.append((lambda p: p.startswith(("core::char::methods::<impl char>::is_", "core::num::<impl u8>::is_ascii_")) and p.split("::")[-1] in CHARPREDS, m_charpred))


@pure("core::char::methods::<impl char>::to_ascii_lowercase", "core::char::methods::<impl char>::to_ascii_uppercase")
def _(I, st, ctx, a):
    c = I.deref(st, a[0])
    low = ctx.path.endswith("lowercase")
    if c[0] == "int":
        ch = chr(c[1])
        return ("int", ord(ch.lower() if low else ch.upper())) if ch.isascii() else c
    return ("chr", (("op", "lower" if low else "upper", (("chr", c),), ()),))


for _n in ("contains", "starts_with", "ends_with"):
    M["core::str::<impl str>::" + _n] = str_pred(_n)
M["core::str::<impl str>::is_empty"] = str_pred("is_empty")
M["alloc::string::String::is_empty"] = str_pred("is_empty")


@pure("alloc::str::<impl str>::replace")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    x, y = char_arg(I, st, a[1]), char_arg(I, st, a[2])
    if x is None or y is None:
        return None
    c = const_str(at)
    if c is not None:
        return mkstr((c.replace(x, y),))
    return ("str", (("op", "replace", at, (x, y)),))


@pure("alloc::str::<impl str>::replacen", "syn::lit::LitInt::base10_digits", "syn::lit::LitInt::suffix", "syn::lit::LitFloat::base10_digits")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    k = atoms(I, st, v) if v[0] in ("str", "ident") else v[1]
    return ("str", (("sym", (ctx.path.split("::")[-1], k, tuple(I.freeze(st, x) for x in a[1:])), None),))


@pure("alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_uppercase",
      "alloc::str::<impl str>::to_ascii_uppercase", "core::str::<impl str>::trim")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    n = "lower" if "lower" in ctx.path else "upper" if "upper" in ctx.path else "trim"
    c = const_str(at)
    from .core import str_fn
    if c is not None:
        return mkstr((str_fn(n, ())(c),))
    return ("str", (("op", n, at, ()),))


def word_first(items):
    """an identifier: it is not empty and no space is in it"""
    x = items[0] if items else None
    return isinstance(x, tuple) and (x[0] == "sym" and isinstance(x[1], tuple) and x[1][:1] in (("text",), ("elem",))
                                     or x[0] == "op" and word_first(x[2]) and x[1] in ("unraw", "raw", "lower", "upper"))


@model("core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    c = const_str(at) if at is not None else None
    start = ctx.path.endswith("start")
    if c is not None:
        return [(st, mkstr((c.lstrip() if start else c.rstrip(),)))]
    if at is not None and len(at) == 1 and isinstance(at[0], tuple) and at[0][0] == "star" and len(at[0]) == 4 and at[0][3] is None:
        cs = []
        sep = None
        for g, its in at[0][2]:
            x = its if start else its[::-1]
            if len(x) < 2 or not isinstance(x[0], str) or x[0].strip() or sep not in (None, x[0]) or not word_first(its[1:] if start else its[-2:-1]):
                break
            sep = x[0]
            cs.append((g, its[1:] if start else its[:-1]))
        else:
            if sep is not None:
                return [(st, ("str", (("star", at[0][1], tuple(cs), (sep,)),)))]
    return None


@pure("core::str::<impl str>::len", "alloc::string::String::len")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    c = const_str(at)
    if c is not None:
        return ("int", len(c.encode()))
    return ("sym", ("strlen", at), None)


@model("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def _(I, st, ctx, a):
    out = []
    at = atoms(I, st, a[0])
    arg = char_arg(I, st, a[1])
    if arg is None:
        return None
    for tr, s in I.test(st, ("b", "strpred", "contains", at, arg), (1,)):
        out.append((s, some(I, ctx.rt, ("sym", (ctx.path.split("::")[-1], at, arg), None)) if tr else none(I, ctx.rt)))
    return out


@pure("core::str::<impl str>::chars", "core::str::<impl str>::char_indices", "core::str::<impl str>::bytes", "core::str::<impl str>::as_bytes",
      "alloc::string::String::as_bytes")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    segs = []
    for x in at:
        if isinstance(x, str):
            segs.extend(("e", ("int", ord(c))) for c in x)
        else:
            src = ("chars", x)
            segs.append(("star", src, ((EMPTY, (("e", ("sym", ("elem", src), None)),)),), None))
    if ctx.path.endswith("char_indices"):
        return ("iter", tuple(segs), (("enumerate", 0),))
    return ("seq" if ctx.path.endswith("as_bytes") else "iter", tuple(segs), ())[:2 if ctx.path.endswith("as_bytes") else 3]


@model("<alloc::string::String as core::iter::traits::collect::Extend<char>>::extend")
def _(I, st, ctx, a):
    v = I.deref(st, a[1])
    if v[0] != "iter" or v[2]:
        return None
    out = []
    for x in v[1]:
        if x[0] == "e" and x[1][0] == "int":
            out.append(chr(x[1][1]))
        elif x[0] == "star" and x[1][:1] == ("chars",) and x[2] == ((EMPTY, (("e", ("sym", ("elem", x[1]), None)),)),) and x[3] is None:
            out.append(x[1][1])
        else:
            return None
    return str_push(I, st, a[0], norm_str(tuple(out)))


SUF.append((lambda p: p in ("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix"), lambda I, st, ctx, a: m_strip(I, st, ctx, a)))


def m_strip(I, st, ctx, a):
    at = atoms(I, st, a[0])
    arg = char_arg(I, st, a[1])
    if arg is None:
        return None
    pre = ctx.path.endswith("prefix")
    key = ("b", "strpred", "starts_with" if pre else "ends_with", at, arg)
    out = []
    for tr, s in I.test(st, key, (1,)):
        if tr:
            c = const_str(at)
            if c is not None:
                v = mkstr(((c[len(arg):] if pre else c[:-len(arg)]),))
            elif pre and isinstance(at[0], str) and at[0].startswith(arg):
                v = mkstr((at[0][len(arg):],) + at[1:])
            elif pre and arg == "r#":
                v = ("str", unraw(at))
            else:
                v = ("str", (("op", "strip_" + ("prefix" if pre else "suffix"), at, (arg,)),))
            out.append((s, some(I, ctx.rt, v)))
        else:
            out.append((s, none(I, ctx.rt)))
    return out


@model("core::str::<impl str>::parse", "<proc_macro2::TokenStream as core::str::traits::FromStr>::from_str")
def _(I, st, ctx, a):
    """tokens from text: what was written as text before comes back without its spans"""
    rt = I.p.ty(ctx.rt)
    if "TokenStream" not in rt["s"]:
        return None
    at = atoms(I, st, a[0])
    if len(at) != 1 or isinstance(at[0], str) or at[0][0] != "sym":
        return None
    k = at[0][1]
    if k[:1] == ("tstext",):
        v = k[1]
        if v[0] == "sym":
            items = (("u", ("retext", v[1])),)
        elif v[0] == "ts":
            items = tuple(retext(I, x) for x in v[1])
        else:
            return None
    elif k[:1] == ("text",):
        items = (idt(I, at, CS),)
    else:
        return None
    return [(st, ok(I, ctx.rt, ("ts", items)))]


def retext(I, x):
    if x[0] in ("u", "uv"):
        return ("u", ("retext", x[1]))
    if x[0] == "id":
        return idt(I, x[1], CS)
    if x[0] == "g":
        return x[:2] + (tuple(retext(I, y) for y in x[2]),) + x[3:]
    return x


# ------------------------------------------------------------------ literals
@pure("syn::lit::LitStr::new")
def _(I, st, ctx, a):
    return ("litstr", atoms(I, st, a[0]), span_of(I, st, a[1]))


@model("syn::lit::LitBool::new")
def _(I, st, ctx, a):
    sp = span_of(I, st, a[1])
    return [(s, ("sym", ("parsed", (idt(I, ("true" if tr else "false",), sp),)), ctx.rt)) for tr, s in I.truth(st, a[0])]


@pure("syn::lit::LitStr::value")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    if v[0] == "litstr":
        return ("str", v[1])
    return ("str", (("sym", ("litval", key_of(v)), None),))


@pure("proc_macro2::Literal::string")
def _(I, st, ctx, a):
    return ("litstr", atoms(I, st, a[0]), CS)


SUF.append((lambda p: p.startswith("<syn::token::") and p.endswith("as core::default::Default>::default"), lambda I, st, ctx, a: m_token_default(I, st, ctx, a)))


def m_token_default(I, st, ctx, a):
    """a token of its own, at the call site of the macro"""
    return [(st, ("sym", ("token", ctx.path[len("<syn::token::"):].split(" ")[0]), ctx.rt))]


@pure("proc_macro2::Punct::new")
def _(I, st, ctx, a):
    c = I.deref(st, a[0])
    return ("punct", c)


@model("proc_macro2::Punct::as_char", "proc_macro2::Punct::spacing")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    c = ctx.path.endswith("as_char")
    if v[0] in ("punct", "punctsp"):
        return [(st, v[1])] if c else None
    if v[0] == "sym":
        return [(st, ("sym", ("punctchar" if c else "spacing", v[1]), ctx.rt))]
    return None


def m_ts_iter(I, st, ctx, a):
    """the token trees of the user's tokens"""
    it = ts_items(I, st, a[0])
    t = next((i for i, x in enumerate(I.p.types) if x["k"] == "adt" and x["path"] == "proc_macro2::TokenTree"), None)
    if it is None or t is None or any(x[0] != "u" for x in it):
        return None
    return [(st, ("iter", tuple(("star", ("trees", x[1]), ((frozenset(), (("e", ("sym", ("elem", ("trees", x[1])), t)),)),), None) for x in it), ()))]


for _p in ("proc_macro2::token_stream::<impl core::iter::traits::collect::IntoIterator for proc_macro2::TokenStream>::into_iter",
           "<proc_macro2::TokenStream as core::iter::traits::collect::IntoIterator>::into_iter"):
    M[_p] = m_ts_iter


@model("proc_macro2::Punct::set_span")
def _(I, st, ctx, a):
    st = st.copy()
    I.set_through(st, a[0], ("punctsp", I.deref(st, a[0])[1], span_of(I, st, a[1])))
    return [(st, UNIT)]


# ------------------------------------------------------------------ formatting
FMT = "core::fmt::"


@pure("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'_>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, st, ctx, a):
    return ("fmt", (("lit", const_str(I.deref(st, a[0])[1]) or ""),), ())


def m_fmt_new(I, st, ctx, a):
    tmpl = I.deref(st, a[0])
    args = I.deref(st, a[1]) if len(a) > 1 else ("seq", ())
    items = I.items(st, args)
    vals = []
    for x in items or ():
        vals.append(I.deref(st, x[1]) if x[0] == "e" else ("unknown",))
    return [(st, ("fmt", decode_template(I, st, tmpl), tuple(vals)))]


def decode_template(I, st, t):
    """the byte template of rustc's format_args lowering: literal runs and argument markers"""
    items = I.items(st, t)
    if t[0] == "str":
        bs = const_str(t[1])
        bs = bs.encode("latin-1", "replace") if bs is not None else None
    elif items is not None and all(x[0] == "e" and x[1][0] == "int" for x in items):
        bs = bytes(x[1][1] & 255 for x in items)
    else:
        return None
    out = []
    i, arg = 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bs[i + 1:i + 1 + b].decode("utf8", "replace")))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(("lit", bs[i + 3:i + 3 + n].decode("utf8", "replace")))
            i += 3 + n
        elif b == 0xC0:
            out.append(("arg", arg))
            arg += 1
            i += 1
        elif b > 0xC0:
            i += 1
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("arg", arg))
            arg += 1
        else:
            return None
    return tuple(out)


SUF.append((lambda p: p.startswith("core::fmt::Arguments::<") and p.split("::")[-1] in ("new", "new_v1", "new_const"), m_fmt_new))
SUF.append((lambda p: p.startswith("core::fmt::rt::Argument::<") and "::new_" in p, lambda I, st, ctx, a: [(st, ("fmtarg", freeze_str(I, st, a[0])))]))


def adapted(I, st, v):
    """what an argument of `format_ident!` wraps"""
    while v[0] == "adt" and vpath(I, v) == "quote::__private::IdentFragmentAdapter" and v[3]:
        v = I.deref(st, v[3][0])
    return v


def m_fragment_span(I, st, ctx, a):
    v = adapted(I, st, I.deref(st, a[0]))
    if v[0] == "ident" or v[0] == "sym" and vpath(I, v) == "proc_macro2::Ident":
        return [(st, some(I, ctx.rt, span_of(I, st, v)))]
    return [(st, none(I, ctx.rt))]


SUF.append((lambda p: p.startswith("quote::__private::IdentFragmentAdapter::<") and p.endswith("::span"), m_fragment_span))


@model("quote::__private::mk_ident")
def _(I, st, ctx, a):
    at = atoms(I, st, a[0])
    out = []
    for s, i, pl in variants(I, st, a[1]) or [(st, None, ())]:
        sp = span_of(I, s, pl[0]) if pl else CS
        out += [(t, ("ident", at, sp)) for t in bad_ident(I, s, ctx, at, False)]
    return out


def freeze_str(I, st, v):
    v = I.deref(st, v)
    w = adapted(I, st, v)
    if w is not v:
        x = freeze_str(I, st, w)
        return ("str", unraw(x[1])) if x[0] == "ident" or w[0] == "sym" and vpath(I, w) == "proc_macro2::Ident" else x
    if v[0] in ("str", "ident"):
        return v
    if v[0] == "litstr":
        return ("opaque", v)
    p = vpath(I, v)
    if v[0] == "sym" and p in ("proc_macro2::Ident", "alloc::string::String", "str"):
        return ("str", atoms(I, st, v))
    if v[0] == "sym" and p == "syn::error::Error":
        return ("str", (("sym", ("msg", v[1]), None),))
    if v[0] in ("int",):
        return ("opaque", v)
    return ("opaque", I.freeze(st, v))


@pure("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(I, st, ctx, a):
    f = I.deref(st, a[0])
    if f[0] != "fmt" or f[1] is None:
        return ("str", (("sym", ("fmt", I.freeze(st, f)), None),))
    at = []
    for k, x in f[1]:
        if k == "lit":
            at.append(x)
        else:
            v = f[2][x] if x < len(f[2]) else ("unknown",)
            v = v[1] if v[0] == "fmtarg" else v
            if v[0] in ("str", "ident"):
                at.extend(v[1])
            else:
                at.append(("sym", ("fmtval", v), None))
    return mkstr(at)


@pure("core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def _(I, st, ctx, a):
    return a[0]


# ------------------------------------------------------------------ diagnostics
def level_of(I, v):
    if v[0] == "adt":
        return I.p.ty(v[1])["variants"][v[2]]["n"]
    return "?"


SUF.append((lambda p: "FIRST_ARG_MUST_EITHER_BE_Span" in p, lambda I, st, ctx, a: [(st, span_of(I, st, a[0]))]))


@pure("<proc_macro_error2::diagnostic::Diagnostic as proc_macro_error2::diagnostic::DiagnosticExt>::spanned_range",
      "proc_macro_error2::diagnostic::Diagnostic::spanned")
def _(I, st, ctx, a):
    return ("diag", level_of(I, I.deref(st, a[1])), atoms(I, st, a[2]), span_of(I, st, a[0]))


@pure("proc_macro_error2::diagnostic::Diagnostic::new")
def _(I, st, ctx, a):
    return ("diag", level_of(I, I.deref(st, a[0])), atoms(I, st, a[1]), CS)


SUF.append((lambda p: p.startswith("proc_macro_error2::diagnostic::Diagnostic::") and p.split("::")[-1] in (
    "help", "note", "suggestion", "span_help", "span_note", "span_suggestion", "span_error", "span_range_help", "span_range_note"),
    lambda I, st, ctx, a: [(st, I.deref(st, a[0]))]))


@model("proc_macro_error2::diagnostic::Diagnostic::emit")
def _(I, st, ctx, a):
    d = I.deref(st, a[0])
    return [(emit(st, d + (fn_at(ctx),) if d[0] == "diag" else ("diag", "?", (), ("span", "gen"), fn_at(ctx))), UNIT)]


def fn_at(ctx):
    return ctx.fr.key if ctx.fr else ""


@model("proc_macro_error2::diagnostic::Diagnostic::abort")
def _(I, st, ctx, a):
    d = I.deref(st, a[0])
    I.stop("abort", d, emit(st, d + (fn_at(ctx),) if d[0] == "diag" else ("diag", "?", (), ("span", "gen"), fn_at(ctx))), ctx.fr, ctx.at)
    return []


@model("proc_macro_error2::abort_now")
def _(I, st, ctx, a):
    I.stop("abort", ("now",), st, ctx.fr, ctx.at)
    return []


@model("proc_macro_error2::dummy::set_dummy", "proc_macro_error2::set_dummy")
def _(I, st, ctx, a):
    st = st.copy()
    st.cells["dummy"] = ("ts", ts_items(I, st, a[0]) or ())
    return [(st, UNIT)]


# ------------------------------------------------------------------ misc
def ident_fn(I, st, ctx, a):
    return [(st, a[0])]


SUF.append((lambda p: p == "<T as core::convert::From<T>>::from" or p == "<I as core::iter::traits::collect::IntoIterator>::into_iter"
            or p == "core::mem::drop" or p == "<T as core::convert::Into<T>>::into", ident_fn))


def clone_model(I, st, ctx, a):
    return [(st, I.deref(st, a[0]))]


def is_clone(p):
    return p.endswith("as core::clone::Clone>::clone") or (p.endswith("::clone") and "core::clone::Clone for" in p) or \
        p.endswith("as alloc::borrow::ToOwned>::to_owned")


SUF.append((is_clone, clone_model))


def deref_model(I, st, ctx, a):
    v = a[0]
    return [(st, v)]


SUF.append((lambda p: p.endswith("as core::ops::deref::Deref>::deref") or p.endswith("as core::ops::deref::DerefMut>::deref_mut")
            or p.endswith("as core::convert::AsRef<T>>::as_ref") or p.endswith("as core::borrow::Borrow<T>>::borrow"), deref_model))


def panic_model(I, st, ctx, a):
    I.stop("panic", ctx.path, st, ctx.fr, ctx.at)
    return []


SUF.append((lambda p: p.startswith("core::panicking::") or p in (
    "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
    "core::result::unwrap_failed::unwrap_failed_inner", "std::process::abort", "core::hint::unreachable_unchecked"), panic_model))
