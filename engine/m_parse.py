"""Models: syn's parse buffers.

A parse buffer is a value ("stream", base, k): the k-th character-level token after `base`.
`base` is symbolic: ("input",) for the argument of the analysed function, ("in", b, k) the
content of the group at (b, k), ("after", T, b, k) what follows a non-terminal T parsed at
(b, k), ("toks", items) for streams written in the macro's own source (parse_quote!).
The class of the token at a position is a fact ("tok", base, k) over CLASSES.
"""
import re
from .core import UNIT, TRUE, FALSE, CLASSES
from .util import *
from .m_tok import atoms as _a, span_of

M = {}
SUF = []

LITS = ("STR", "INT", "LITO", "BOOL")
IDANY = ("IDENT", "KW", "BOOL", "UNDER")
PUNCT1 = {"Colon": "COLON", "Eq": "EQ", "Semi": "SEMI", "Dot": "DOT", "Pound": "POUND", "Lt": "LT", "Or": "OR",
          "Minus": "MINUS"}
PUNCT2 = {"PathSep": ("COLON", "COLON"), "DotDot": ("DOT", "DOT"), "OrOr": ("OR", "OR"), "DotDotDot": ("DOT", "DOT", "DOT"),
          "DotDotEq": ("DOT", "DOT", "EQ"), "EqEq": ("EQ", "EQ"), "RArrow": ("MINUS", "Gt"), "LArrow": ("LT", "MINUS"), "FatArrow": ("EQ", "Gt"),
          "Le": ("LT", "EQ"), "Ge": ("Gt", "EQ"), "Ne": ("Not", "EQ"), "Shl": ("LT", "LT"), "Shr": ("Gt", "Gt"), "AndAnd": ("And", "And"),
          "MinusEq": ("MINUS", "EQ"), "PlusEq": ("Plus", "EQ"), "StarEq": ("Star", "EQ"), "SlashEq": ("Slash", "EQ"), "OrEq": ("OR", "EQ"),
          "AndEq": ("And", "EQ"), "CaretEq": ("Caret", "EQ"), "PercentEq": ("Percent", "EQ"), "ShlEq": ("LT", "LT", "EQ"), "ShrEq": ("Gt", "Gt", "EQ")}
SINGLE = ("Comma", "And", "Not", "Gt", "Star", "Plus", "Question", "Dollar", "At", "Slash", "Tilde", "Caret", "Percent")
DELIM = {"Brace": "BRACE", "Bracket": "BRACKET", "Paren": "PAREN"}
CH = {":": "COLON", "=": "EQ", ";": "SEMI", ".": "DOT", "#": "POUND", "<": "LT", "|": "OR", "-": "MINUS"}


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


# ------------------------------------------------------------------ streams
def stream(I, st, ref):
    """-> (ref to the buffer cell, stream value) or None"""
    n = 0
    v = ref
    while v[0] == "ref" and n < 8:
        w = I.load(st, v[1], v[2])
        if w[0] == "stream":
            return v, w
        if w[0] != "ref":
            return None
        v = w
        n += 1
    if v[0] == "stream":
        return None, v
    return None


def put(I, st, ref, s):
    st = st.copy()
    I.store(st, ref[1], ref[2], s)
    return st


def tok_class(I, st, s, i, T):
    """[(bool, st)]: class of the token i after the position of s is in T"""
    base, k = s[1], s[2] + i
    if base[0] == "toks":
        c = conc_class(base[1], k)
        return [(c in T, st)]
    if base[0] == "eof":
        return [("EOF" in T, st)]
    # nothing follows the end
    for j in range(k):
        f = st.facts.get(("tok", base, j))
        if f is not None and f[0] and f[1] == frozenset(("EOF",)):
            return [("EOF" in T, st)]
    return I.test(st, ("tok", base, k), T)


def conc_class(items, k):
    if k >= len(items):
        return "EOF"
    x = items[k]
    if x[0] == "id":
        if x[1] in (("true",), ("false",)):
            return "BOOL"
        if x[1] == ("_",):
            return "UNDER"
        return "IDENT"
    if x[0] == "p":
        return CH.get(x[1], "PUNCT")
    if x[0] == "lit":
        return "STR"
    if x[0] == "num":
        return "INT"
    if x[0] == "g":
        return {"{": "BRACE", "[": "BRACKET", "(": "PAREN"}.get(x[1], "PUNCT")
    return "?"


def joint(I, st, s, i):
    if s[1][0] in ("toks",):
        return [(True, st)]
    return I.test(st, ("b", "joint", ("at", s[1], s[2] + i)), (1,))


def adv(s, n):
    return ("stream", s[1], s[2] + n)


def at(s, i=0):
    return ("at", s[1], s[2] + i)


def value_at(I, s, i, ty):
    if s[1][0] == "toks":
        x = s[1][1][s[2] + i]
        if x[0] == "id":
            return ("ident", x[1], CS)
        if x[0] == "lit":
            return ("litstr", x[1], CS)
    return ("sym", at(s, i), ty)


def synerr(s, msg=(("syn",),)):
    return ("synerr", ("span", at(s)), tuple(msg))


def seqs(I, st, s, tests):
    """conjunction of tests: [(bool, st)]"""
    out = []
    todo = [(st, 0)]
    while todo:
        x, i = todo.pop()
        if i == len(tests):
            out.append((True, x))
            continue
        for tr, y in tests[i](x):
            if tr:
                todo.append((y, i + 1))
            else:
                out.append((False, y))
    return out


# ------------------------------------------------------------------ peeking
def peek_name(I, ctx):
    if not ctx.targs:
        return None
    for t in ctx.targs:
        s = I.p.ty(t)["s"] if isinstance(t, int) else str(t)
        if "PeekFn" in s:
            return "PeekFn"
        m = re.search(r"-> ([\w:]+)", s)
        if m:
            return m.group(1)
    return None


def peek_at(I, st, s, i, name, custom=None):
    """[(bool, st)] or None"""
    if name == "PeekFn":
        return tok_class(I, st, s, i, IDANY)
    last = name.split("::")[-1]
    if name.startswith("syn::token::"):
        if last in DELIM:
            return tok_class(I, st, s, i, (DELIM[last],))
        if last in PUNCT1:
            return tok_class(I, st, s, i, (PUNCT1[last],))
        if last in PUNCT2:
            fs = []
            for n, c in enumerate(PUNCT2[last]):
                if c in SINGLE:
                    fs.append(lambda x, n=n: tok_class(I, x, s, i + n, ("PUNCT",)))
                    fs.append(lambda x, n=n, c=c: I.test(x, ("b", "punct", at(s, i + n), c), (1,)))
                else:
                    fs.append(lambda x, n=n, c=c: tok_class(I, x, s, i + n, (c,)))
            fs += [lambda x, n=n: joint(I, x, s, i + n) for n in range(len(PUNCT2[last]) - 1)]
            return seqs(I, st, s, fs)
        if last == "Underscore":
            return tok_class(I, st, s, i, ("UNDER",))
        if last in SINGLE:
            return seqs(I, st, s, [lambda x: tok_class(I, x, s, i, ("PUNCT",)),
                                   lambda x: I.test(x, ("b", "punct", at(s, i), last), (1,))])
        if last and last[0].isupper():
            return seqs(I, st, s, [lambda x: tok_class(I, x, s, i, ("KW",)),
                                   lambda x: I.test(x, ("b", "kw", at(s, i), last), (1,))])
        return None
    if name in ("proc_macro2::Ident", "syn::ident::Ident"):
        return tok_class(I, st, s, i, ("IDENT",))
    if name == "syn::lit::Lit":
        out = []
        for tr, x in tok_class(I, st, s, i, LITS):
            if tr:
                out.append((True, x))
            else:
                out.extend(seqs(I, x, s, [lambda y: tok_class(I, y, s, i, ("MINUS",)), lambda y: tok_class(I, y, s, i + 1, ("INT", "LITO"))]))
        return out
    if name == "syn::lit::LitStr":
        return tok_class(I, st, s, i, ("STR",))
    if name == "syn::lit::LitBool":
        return tok_class(I, st, s, i, ("BOOL",))
    if name == "syn::lit::LitInt":
        out = []
        for tr, x in tok_class(I, st, s, i, ("INT",)):
            if tr:
                out.append((True, x))
            else:
                out.extend(seqs(I, x, s, [lambda y: tok_class(I, y, s, i, ("MINUS",)), lambda y: tok_class(I, y, s, i + 1, ("INT",))]))
        return out
    w = keyword(I, name)
    if w is not None:
        def word(x):
            v = value_at(I, s, i, None)
            if v[0] == "ident":
                return [(v[1] == (w,), x)]
            return I.test(x, ("str", (text(v[1]),)), (w,))
        return seqs(I, st, s, [lambda x: tok_class(I, x, s, i, ("IDENT",)), word])
    return None


def keyword(I, tyname):
    """word of a `custom_keyword!` type"""
    c = I.__dict__.get("_kws")
    if c is None:
        c = I._kws = {f["self"]: f["self"].split("::")[-1] for f in I.p.fns.values()
                      if (f.get("trait") or "").endswith("token::private::CustomToken")}
    w = c.get(tyname)
    return w[2:] if w and w.startswith("r#") else w


def m_peek(off):
    def f(I, st, ctx, a):
        r = stream(I, st, a[0])
        name = peek_name(I, ctx)
        if r is None or name is None:
            return None
        s = r[1]
        out = peek_at(I, st, s, off, name)
        if out is None:
            return None
        return [(x, TRUE if tr else FALSE) for tr, x in out]
    return f


for _n, _o in (("peek", 0), ("peek2", 1), ("peek3", 2)):
    M["syn::parse::ParseBuffer::<'a>::" + _n] = m_peek(_o)


@model("syn::parse::ParseBuffer::<'a>::is_empty")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    if r is None:
        return None
    return [(x, TRUE if tr else FALSE) for tr, x in tok_class(I, st, r[1], 0, ("EOF",))]


@model("syn::parse::ParseBuffer::<'a>::fork")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    return None if r is None else [(st, r[1])]


def m_advance(I, st, ctx, a):
    r, q = stream(I, st, a[0]), stream(I, st, a[1])
    if r is None or q is None or r[0] is None:
        return None
    return [(put(I, st, r[0], q[1]), UNIT)]


SUF.append((lambda p: p.endswith("Speculative>::advance_to"), m_advance))


@model("syn::parse::ParseBuffer::<'a>::span")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    return None if r is None else [(st, ("span", at(r[1])))]


@model("syn::parse::ParseBuffer::<'a>::error")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    if r is None:
        return None
    return [(st, ("synerr", ("span", at(r[1])), _a(I, st, a[1])))]


@model("syn::error::Error::new", "syn::error::Error::new_spanned")
def _(I, st, ctx, a):
    return [(st, ("synerr", span_of(I, st, a[0]), _a(I, st, a[1])))]


@model("syn::error::Error::to_compile_error", "syn::error::Error::into_compile_error")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    return [(st, ("ts", (("cerr", v if v[0] == "synerr" else ("synerr", span_of(I, st, v), (v,))),)))]


@model("syn::parse::ParseBuffer::<'a>::lookahead1", "syn::parse::ParseBuffer::<'a>::cursor")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    return None if r is None else [(st, r[1])]


M["syn::lookahead::Lookahead1::<'a>::peek"] = m_peek(0)
M["syn::buffer::Cursor::<'a>::eof"] = M["syn::parse::ParseBuffer::<'a>::is_empty"]
M["syn::buffer::Cursor::<'a>::span"] = M["syn::parse::ParseBuffer::<'a>::span"]


@model("syn::lookahead::Lookahead1::<'a>::error")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    return None if r is None else [(st, synerr(r[1]))]


# ------------------------------------------------------------------ parsing
def res(I, ctx, out):
    """[(st, value or ("synerr",..))] -> Result values"""
    r = []
    for st, v in out:
        if v[0] == "synerr" or (v[0] == "sym" and v[1][:1] == ("perr",)):
            r.append((st, err(I, ctx.rt, v)))
        else:
            r.append((st, ok(I, ctx.rt, v)))
    return r


def ok_ty(I, rt):
    t = I.p.ty(rt)
    return t["variants"][vidx(t, "Ok")]["f"][0][1]


def field_adt(I, ty, byname):
    t = I.p.ty(ty)
    return ("adt", ty, 0, tuple(byname(n, ft) for n, ft in t["variants"][0]["f"]))


def one(I, st, ref, s, classes, n, mk):
    out = []
    for tr, x in tok_class(I, st, s, 0, classes):
        if tr:
            out.append((put(I, x, ref, adv(s, n)), mk(x)))
        else:
            out.append((x, synerr(s)))
    return out


def lit_variants(I, ty):
    t = I.p.ty(ty)
    return {v["n"]: (i, v["f"]) for i, v in enumerate(t["variants"])}


def parse_lit(I, st, ref, s, ty):
    vs = lit_variants(I, ty)
    out = []
    for tr, x in tok_class(I, st, s, 0, LITS):
        if not tr:
            # a negative number
            for t2, y in seqs(I, x, s, [lambda z: tok_class(I, z, s, 0, ("MINUS",)), lambda z: tok_class(I, z, s, 1, ("INT", "LITO"))]):
                if t2:
                    y = put(I, y, ref, adv(s, 2))
                    key = ("var", at(s), ty)
                    for b, z in I.test(y, key, (vs["Int"][0], vs["Float"][0])):
                        if b:
                            out.append((z, ("sym", at(s), ty)))
                else:
                    out.append((y, synerr(s)))
            continue
        for b, y in tok_class(I, x, s, 0, ("STR",)):
            if b:
                y = put(I, y, ref, adv(s, 1))
                i, f = vs["Str"]
                out.append((y, ("adt", ty, i, (value_at(I, s, 0, f[0][1]),))))
                continue
            for b2, z in tok_class(I, y, s, 0, ("BOOL",)):
                z = put(I, z, ref, adv(s, 1))
                if b2:
                    i, f = vs["Bool"]
                    if s[1][0] == "toks":
                        lb = ("tok", s[1][1][s[2]])
                    else:
                        lb = ("sym", at(s), f[0][1])
                    out.append((z, ("adt", ty, i, (lb,))))
                    continue
                for b3, w in tok_class(I, z, s, 0, ("INT",)):
                    if b3:
                        i, f = vs["Int"]
                        out.append((w, ("adt", ty, i, (("sym", at(s), f[0][1]),))))
                    else:
                        rest = [vs[n][0] for n in vs if n not in ("Str", "Bool", "Int")]
                        for b4, q in I.test(w, ("var", at(s), ty), rest):
                            if b4:
                                out.append((q, ("sym", at(s), ty)))
    return out


def parse_foreign(I, st, ref, s, name, ty):
    """parse a foreign type: [(st, value | synerr)] or None"""
    last = name.split("::")[-1]
    if name in ("proc_macro2::Ident", "syn::ident::Ident"):
        return one(I, st, ref, s, ("IDENT",), 1, lambda x: value_at(I, s, 0, ty))
    if name == "any ident":
        return one(I, st, ref, s, IDANY, 1, lambda x: value_at(I, s, 0, ty))
    if name == "syn::lit::Lit":
        return parse_lit(I, st, ref, s, ty)
    if name == "syn::lit::LitStr":
        return one(I, st, ref, s, ("STR",), 1, lambda x: value_at(I, s, 0, ty))
    if name == "syn::lit::LitBool":
        return one(I, st, ref, s, ("BOOL",), 1, lambda x: value_at(I, s, 0, ty))
    if name == "syn::lit::LitInt":
        out = []
        for st2, v in one(I, st, ref, s, ("INT",), 1, lambda x: value_at(I, s, 0, ty)):
            if v[0] != "synerr":
                out.append((st2, v))
                continue
            for t2, y in seqs(I, st2, s, [lambda z: tok_class(I, z, s, 0, ("MINUS",)), lambda z: tok_class(I, z, s, 1, ("INT",))]):
                out.append((put(I, y, ref, adv(s, 2)), ("sym", at(s), ty)) if t2 else (y, v))
        return out
    if name == "proc_macro2::TokenStream":
        out = []
        for e, x in tok_class(I, st, s, 0, ("EOF",)):
            if e:
                out.append((x, ("ts", ())))
            elif s[1][0] == "toks":
                out.append((put(I, x, ref, ("stream", ("eof", s[1]), 0)), ("ts", s[1][1][s[2]:])))
            else:
                out.append((put(I, x, ref, ("stream", ("eof", s[1]), 0)), ("ts", (("u", ("rest", s[1], s[2])),))))
        return out
    if name == "proc_macro2::TokenTree":
        out = []
        for e, x in tok_class(I, st, s, 0, ("EOF",)):
            out.append((x, synerr(s)) if e else (put(I, x, ref, adv(s, 1)), ("sym", at(s), ty)))
        return out
    if name == "proc_macro2::Group":
        return one(I, st, ref, s, ("BRACE", "BRACKET", "PAREN"), 1, lambda x: ("sym", at(s), ty))
    if name == "proc_macro2::Punct":
        return one(I, st, ref, s, tuple(sorted(set(PUNCT1.values()))) + ("PUNCT",), 1, lambda x: ("sym", at(s), ty))
    if name == "proc_macro2::Literal":
        return one(I, st, ref, s, ("STR", "INT", "LITO"), 1, lambda x: ("sym", at(s), ty))
    if name == "syn::path::Path":
        out = []
        for tr, x in tok_class(I, st, s, 0, ("IDENT", "KW", "COLON")):
            if not tr:
                out.append((x, synerr(s)))
                continue
            for t2, y in I.test(x, ("b", "parses", ("path", s[1], s[2])), (1,)):
                if t2:
                    out.append((put(I, y, ref, ("stream", ("after", "Path", s[1], s[2]), 0)), ("sym", ("path", s[1], s[2]), ty)))
                else:
                    z = put(I, y, ref, ("stream", ("errpos", "Path", s[1], s[2]), 0))
                    out.append((z, synerr(("stream", ("errpos", "Path", s[1], s[2]), 0))))
        return out
    if name.startswith("syn::token::") and last not in DELIM:
        pk = peek_at(I, st, s, 0, name)
        if pk is None:
            return None
        n = len(PUNCT2[last]) if last in PUNCT2 else 1
        return [(put(I, x, ref, adv(s, n)), ("sym", at(s), ty)) if tr else (x, synerr(s)) for tr, x in pk]
    if keyword(I, name) is not None:
        pk = peek_at(I, st, s, 0, name)
        return [(put(I, x, ref, adv(s, 1)), ("sym", at(s), ty)) if tr else (x, synerr(s)) for tr, x in pk]
    if name.startswith("syn::"):
        # some other grammar of syn
        out = []
        for t2, y in I.test(st, ("b", "parses", (last, s[1], s[2])), (1,)):
            if t2:
                out.append((put(I, y, ref, ("stream", ("after", last, s[1], s[2]), 0)), ("sym", ("parse", last, s[1], s[2]), ty)))
            else:
                z = put(I, y, ref, ("stream", ("errpos", last, s[1], s[2]), 0))
                out.append((z, synerr(("stream", ("errpos", last, s[1], s[2]), 0))))
        return out
    return None


def self_name(p):
    m = re.match(r"<(.+) as syn::parse::Parse>::parse$", p) or re.search(r"<impl syn::parse::Parse for (.+)>::parse$", p)
    return m.group(1) if m else None


def m_parse_impl(I, st, ctx, a):
    name = self_name(ctx.path)
    if name and I.p.fns.get(ctx.inst, {}).get("local") and keyword(I, name) is None:
        return None
    if ctx.path.endswith("ext::IdentExt>::parse_any"):
        name = "any ident"
    r = stream(I, st, a[0]) if name else None
    if r is None or r[0] is None:
        return None
    ty = ok_ty(I, ctx.rt)
    if name == "T" or re.match(r"alloc::boxed::Box|core::option::Option", name):
        return None
    out = parse_foreign(I, st, r[0], r[1], name, ty)
    return None if out is None else res(I, ctx, out)


SUF.append((lambda p: p.endswith("syn::parse::Parse>::parse") or
            ("<impl syn::parse::Parse for " in p and p.endswith(">::parse")) or p.endswith("ext::IdentExt>::parse_any"), m_parse_impl))


def parse_ty(I, st, ctx, ty, ref):
    """<T as Parse>::parse(ref): local implementations are analysed, foreign ones modelled"""
    t = I.p.ty(ty)
    inst = None
    if keyword(I, t.get("path") or t["s"]) is None:
        c = I.__dict__.setdefault("_pimpl", {})
        if not c:
            for k, f in I.p.fns.items():
                if f.get("local") and f.get("trait") == "syn::parse::Parse" and f["path"].endswith("::parse") and "body" in f:
                    c[f["self"]] = k
        inst = c.get(t["s"])
    if inst is not None:
        from .core import Ctx
        f = I.p.fns[inst]
        return I.invoke(st, Ctx(f["path"], inst, [], ctx.rt, ctx.at, [], ctx.fr, "syn::parse::Parse::parse"), [ref])
    r = stream(I, st, ref)
    if r is None or r[0] is None:
        return None
    out = parse_foreign(I, st, r[0], r[1], t.get("path") or t["s"], ty)
    return None if out is None else res(I, ctx, out)


@model("syn::parse::ParseBuffer::<'a>::parse")
def _(I, st, ctx, a):
    r = stream(I, st, a[0])
    if r is None or r[0] is None:
        return None
    ty = ok_ty(I, ctx.rt)
    t = I.p.ty(ty)
    if t.get("path") == "core::option::Option":
        # an optional token
        inner = t["args"][0]
        name = I.p.ty(inner).get("path") or I.p.ty(inner)["s"]
        pk = peek_at(I, st, r[1], 0, name)
        if pk is None:
            return None
        out = []
        for tr, x in pk:
            if not tr:
                out.append((x, none(I, ty)))
                continue
            vs = parse_foreign(I, x, r[0], r[1], name, inner)
            if vs is None:
                return None
            out += [(y, v if v[0] == "synerr" else some(I, ty, v)) for y, v in vs]
        return res(I, ctx, out)
    return parse_ty(I, st, ctx, ty, r[0])


@model("syn::parse::ParseBuffer::<'a>::call")
def _(I, st, ctx, a):
    return I.call_value(st, a[1], [a[0]], ctx)


def m_group(delim):
    def f(I, st, ctx, a):
        r = stream(I, st, a[0])
        if r is None or r[0] is None:
            return None
        ref, s = r
        gt = ok_ty(I, ctx.rt)

        def mk(x):
            def fld(n, ft):
                if "ParseBuffer" in I.p.ty(ft)["s"]:
                    if s[1][0] == "toks":
                        return ("stream", ("toks", s[1][1][s[2]][2]), 0)
                    return ("stream", ("in", s[1], s[2]), 0)
                return ("sym", at(s), ft)
            return field_adt(I, gt, fld)
        return res(I, ctx, one(I, st, ref, s, (DELIM[delim],), 1, mk))
    return f


M["syn::group::parse_braces"] = m_group("Brace")
M["syn::group::parse_brackets"] = m_group("Bracket")
M["syn::group::parse_parens"] = m_group("Paren")


@model("syn::parse_quote::parse")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    if v[0] != "ts" or any(x[0] not in ("id", "p", "lit", "num", "g", "raw") for x in v[1]):
        return None
    t = I.p.ty(ctx.rt)
    name = t.get("path") or t["s"]
    last = name.split("::")[-1]
    if name.split("::")[0] in ("syn", "proc_macro2") and not name.startswith("syn::token::") and last not in ("Ident", "LitStr"):
        # whatever it is parsed as, it becomes the same tokens again
        return [(st, ("sym", ("parsed", v[1]), ctx.rt))]
    if name.startswith("syn::token::") and (last in PUNCT1 or last in PUNCT2):
        return [(st, ("tok1", last, v[1]))] if False else [(st, ("sym", ("quoted", last), ctx.rt))]
    st = st.copy()
    cid = st.alloc(("stream", ("toks", v[1]), 0))
    ref = ("ref", cid, ())
    rty = result_of(I, ctx.rt)
    if rty is None:
        return None
    from .core import Ctx
    c2 = Ctx(ctx.path, ctx.inst, ctx.targs, rty, ctx.at, ctx.argtys, ctx.fr, ctx.trait)
    r = parse_ty(I, st, c2, ctx.rt, ref)
    if r is None:
        return None
    out = []
    for s, x in r:
        for s2, i, f in variants(I, s, x):
            if I.p.ty(rty)["variants"][i]["n"] == "Ok":
                out.append((s2, f[0]))
            else:
                I.stop("panic", "parse_quote! of tokens that do not parse", s2, ctx.fr, ctx.at)
    return out


def result_of(I, ty):
    """the type Result<ty, syn::Error>"""
    for i, t in enumerate(I.p.types):
        if t["k"] == "adt" and t["path"] == "core::result::Result" and len(t["args"]) == 2 and t["args"][0] == ty \
                and I.p.ty(t["args"][1])["s"] == "syn::error::Error":
            return i
    return None


# ------------------------------------------------------------------ pieces of syntax
for _n in ("Brace", "Bracket", "Paren"):
    # a delimiter token made from a span
    M["syn::token::" + _n] = lambda I, st, ctx, a: [(st, ("sym", ("tokof", I.freeze(st, a[0])), ctx.rt))]


@model("syn::path::Path::get_ident")
def _(I, st, ctx, a):
    v = I.deref(st, a[0])
    if v[0] != "sym":
        return None
    t = I.p.ty(ctx.rt)
    out = []
    for tr, s in I.test(st, ("b", "get_ident", v[1]), (1,)):
        if tr:
            f = t["variants"][vidx(t, "Some")]["f"][0][1]
            to = I.p.ty(f)
            out.append((s, some(I, ctx.rt, I.const_ref(("sym", ("pathident", v[1]), to.get("to", f))))))
        else:
            out.append((s, none(I, ctx.rt)))
    return out


def m_path_from(I, st, ctx, a):
    v = I.deref(st, a[0])
    k = v[1] if v[0] == "sym" else v
    return [(st, ("sym", ("pathof", k), ctx.rt))]


SUF.append((lambda p: p.startswith("<syn::path::Path as core::convert::From"), m_path_from))


@model("syn::parse2")
def _(I, st, ctx, a):
    """the result of parsing the whole input is unknown here (the parsers are analysed on their own)"""
    return [(st, ("sym", ("call", "syn::parse2", tuple(I.freeze(st, x) for x in a)), ctx.rt))]
