"""The grammar of the macro, as specified.

Every rule is a decision procedure over the tokens at a position: it asks a `World` for the
class of tokens, for what a name says, and whether a nested construct parses, and returns

    ("ok", value, position behind)     with `self.bad` set if an error has to be reported as well
    ("err",)                           the input is not this construct
    ("abort",)                         reported at once

Values are patterns over the syntax tree, positions are (stream, index).
"""
from engine.core import norm_str
from engine.m_parse import tok_class, LITS, IDANY
from engine.m_tok import unraw
from engine.util import text
from .world import Fork, Undecided
from .spec_expand import NOT_RAW
from .tags import SVG, MATHML

# constructs that are tried: if they do not match, something else is
TRIED = {"Value", "KebabIdent", "KebabIdentOrStr", "BracedKebabIdent", "SelectorShorthand", "SelectorShorthands", "KvAttr", "SpreadAttr", "Attr", "Attrs"}

# what a deviation in a construct means
LABELS = {
    "Value": ("C26", "C18", "C17"), "KebabIdent": ("C26", "C20"), "KebabIdentOrStr": ("C26", "C20"), "BracedKebabIdent": ("C26", "C22"),
    "SelectorShorthand": ("C26", "C24"), "SelectorShorthands": ("C26", "C24", "C03"), "KvAttr": ("C26",), "SpreadAttr": ("C26", "C18"),
    "Attr": ("C26", "C03"), "Attrs": ("C26", "C03"), "Directive": ("C26", "C05", "C06"), "Tag": ("C26", "C19"),
    "Child": ("C26", "C02"), "Children": ("C26", "C02", "C03"), "Element": ("C26", "C03"),
}


class Mismatch(Exception):
    def __init__(self, labels, expected, got):
        self.labels, self.expected, self.got = labels, expected, got


class Stop(Exception):
    """nothing is specified here"""


class Spec:
    def __init__(self, w, run, rec=None, first=None):
        self.w, self.run = w, run
        self.bad = False
        self.rec = rec               # the loop whose iteration is looked at
        self.first_ = first          # is it the first iteration (None: as the world says)
        self.adopted = set()
        self.why = None

    @property
    def first(self):
        if self.first_ is None:
            return not self.w.bool("notfirst", ("loop", self.rec.lid))
        return self.first_

    # ---------------------------------------------------------------- input
    def cls(self, p, *T):
        T = tuple(x for t in T for x in ((t,) if isinstance(t, str) else t))
        r = tok_class(self.w.I, self.w.st, ("stream", p[0], p[1]), 0, T)
        if len(r) == 1:
            return r[0][0]
        raise Fork(("tok", p[0], p[1]), T)

    def joint(self, p):
        return self.w.bool("joint", ("at", p[0], p[1]))

    def double(self, p, c):
        return self.cls(p, c) and self.cls(nx(p), c) and self.joint(p)

    def word(self, p):
        return (text(("at", p[0], p[1])),)

    def inner(self, p):
        return (("in", p[0], p[1]), 0)

    def nt(self, name, p):
        """a nested construct: as the code parsed it, or else by its rule"""
        full = self.run.full.get(name)
        if full is not None:
            key = ("b", "parses", (full, p[0], p[1]))
            if key in self.w.st.facts or name in self.run.recursive:
                if self.w.is_(key, (1,)):
                    return ("ok", ("nt", full, p[0], p[1]), (("after", full, p[0], p[1]), 0))
                return ("err",)
        return getattr(self, "p_" + name)(p)

    def of(self, r, f):
        """continue behind a construct that has to be there"""
        if r[0] != "ok":
            return r
        return f(r[1], r[2])

    def error(self, why):
        self.bad = True
        self.why = why

    # ---------------------------------------------------------------- loops
    def loop(self, p, step, n=3):
        """-> (position behind, list pattern)"""
        rec = self.run.find_loop(p, self.w)
        if rec is not None:
            self.adopted.add(rec.base)
            self.run.oblige(rec, step)
            q = (rec.base, 0)
            s = Spec(self.w, self.run, rec, False)
            r = step(s, q)
            if r[0] != "stop":
                raise Mismatch(None, "the repetition goes on", "it ends")
            return q, [("star", rec, step)]
        items = []
        s = Spec(self.w, self.run, None, True)
        for _ in range(n):
            r = step(s, p)
            self.bad = self.bad or s.bad
            if r[0] == "stop":
                return p, items
            if r[0] == "push":
                items.append(("one", r[1]))
            p = r[2]
            s.first_ = False
            rec = self.run.find_loop(p, self.w)
            if rec is not None:
                q, more = self.loop(p, step)
                return q, items + more
        return p, items

    def many(self, name, p):
        def step(s, q):
            r = s.nt(name, q)
            if r[0] == "ok":
                return ("push", r[1], r[2])
            if r[0] == "abort":
                return r
            return ("stop",)
        q, items = self.loop(p, step)
        return ("ok", ("list", items), q)

    # ---------------------------------------------------------------- values
    def p_Value(self, p):
        if self.cls(p, "BRACKET"):
            return ("ok", variant("Bracket", tokens=("rest", self.inner(p)), prefixes=("none",)), nx(p))
        if self.cls(p, IDANY) and self.cls(nx(p), "BRACKET"):
            return ("ok", variant("Bracket", tokens=("rest", self.inner(nx(p))), prefixes=("some", ("tok", p))), nx(p, 2))
        if self.cls(p, "BRACE"):
            return ("ok", variant("Block", tokens=("rest", self.inner(p))), nx(p))
        if self.cls(p, LITS):
            return ("ok", ("variant", "Lit", {0: ("tok", p)}), nx(p))
        if self.cls(p, "MINUS") and self.cls(nx(p), "INT", "LITO"):
            return ("ok", ("variant", "Lit", {0: ("tok", p)}), nx(p, 2))
        return ("err",)

    def value_after_eq(self, p):
        r = self.nt("Value", p)
        if r[0] == "ok":
            return r[1], r[2]
        self.error("no value after =")
        return ("any",), p

    # ---------------------------------------------------------------- names
    def p_KebabIdent(self, p):
        if self.cls(p, IDANY):
            t = [unraw(self.word(p))]
            dash = False
        elif self.cls(p, "MINUS"):
            t = [("-",)]
            dash = True
        else:
            return ("err",)

        def step(s, q):
            out = ()
            if s.cls(q, "MINUS"):
                out = ("-",)
                q = nx(q)
            elif not (dash and s.first):
                return ("stop",)
            if s.cls(q, IDANY):
                w = s.word(q)
                if not s.w.is_(("b", "streq", frozenset((unraw(w), w))), (1,)):
                    s.error("a raw identifier inside of a name")
                return ("push", ("text", out + unraw(w)), nx(q))
            if s.cls(q, "INT"):
                return ("push", ("number", out, q), nx(q))
            if s.cls(q, "MINUS") and s.cls(nx(q), "INT"):
                return ("push", ("number", out, q), nx(q, 2))
            if not out:
                return ("stop",)
            return ("push", ("text", out), q)
        q, items = self.loop(nx(p), step)
        return ("ok", struct(repr=("string", [("one", ("text", t[0]))] + items)), q)

    def p_KebabIdentOrStr(self, p):
        if self.cls(p, "STR"):
            return ("ok", ("variant", "Str", {0: ("tok", p)}), nx(p))
        return self.of(self.nt("KebabIdent", p), lambda k, q: ("ok", ("variant", "KebabIdent", {0: k}), q))

    def p_BracedKebabIdent(self, p):
        if not self.cls(p, "BRACE"):
            return ("err",)

        def f(k, q):
            if not self.cls(q, "EOF"):
                return ("err",)
            return ("ok", struct(ident=k), nx(p))
        return self.of(self.nt("KebabIdent", self.inner(p)), f)

    def shorthand(self, b):
        """`{name}`: (the name, the value made of it)"""
        k = self.proj(b, ("ident", r"KebabIdent$"))
        at = norm_str((("op", "replace", self.kebab_text(k), ("-", "_")),))
        if self.w.is_(("str", at), NOT_RAW):
            self.error("a name that cannot be a variable")
        return k, variant("Block", tokens=("tokens", [("id", ("r#",) + at)]))

    def proj(self, v, pat):
        if v[0] == "nt":
            return ("sym", self.run.project(("sym", v, self.run.ty_of(v[1])), pat))
        if v[0] == "struct":
            return v[1][pat[0]]
        raise Undecided("part of a construct")

    def kebab_text(self, k):
        if k[0] == "nt":
            return (("sym", self.run.project(("sym", k, self.run.ty_of(k[1])), ("repr", r"String$"))[1], None),)
        if k[0] == "sym":
            return (("sym", self.run.project(k[1], ("repr", r"String$"))[1], None),)
        if k[0] == "struct":
            parts = k[1]["repr"][1]
            if all(x[0] == "one" and x[1][0] == "text" for x in parts):
                return norm_str(tuple(a for x in parts for a in x[1][1]))
        raise Undecided("text of a name")

    # ---------------------------------------------------------------- selectors, attributes
    def p_SelectorShorthand(self, p):
        for c, name, f in (("DOT", "Class", "class"), ("POUND", "Id", "id")):
            if self.cls(p, c):
                return self.of(self.nt("KebabIdent", nx(p)), lambda k, q: ("ok", ("variant", name, {(f, "KebabIdent"): k}), q))
        return ("err",)

    def p_SelectorShorthands(self, p):
        return self.many("SelectorShorthand", p)

    def p_Attrs(self, p):
        return self.many("Attr", p)

    def p_KvAttr(self, p):
        if self.cls(p, "BRACE"):
            def f(b, q):
                k, v = self.shorthand(b)
                return ("ok", struct(key=("L", ("C20", "C22"), k), value=("L", ("C22",), v)), q)
            return self.of(self.nt("BracedKebabIdent", p), f)

        def g(k, q):
            if self.cls(q, "EQ"):
                v, q = self.value_after_eq(nx(q))
                return ("ok", struct(key=("L", ("C20",), k), value=("L", ("C18", "C21"), v)), q)
            return ("ok", struct(key=("L", ("C20",), k), value=("L", ("C22",), ("true",))), q)
        return self.of(self.nt("KebabIdent", p), g)

    def p_SpreadAttr(self, p):
        if self.cls(p, "BRACE"):
            q = self.inner(p)
            if self.double(q, "DOT"):
                return ("ok", struct(rest=("L", ("C05", "C18"), ("rest", nx(q, 2)))), nx(p))
        return ("err",)

    def p_Attr(self, p):
        if self.cls(p, IDANY) and self.cls(nx(p), "COLON"):
            r = self.nt("Directive", p)
            if r[0] != "ok":
                return ("abort",)
            return ("ok", ("variant", "Directive", {0: r[1]}), r[2])
        r = self.nt("KvAttr", p)
        if r[0] == "ok":
            return ("ok", ("variant", "Kv", {0: r[1]}), r[2])
        r = self.nt("SpreadAttr", p)
        if r[0] == "ok":
            return ("ok", ("variant", "Spread", {0: r[1]}), r[2])
        return ("err",)

    def modifier(self, p):
        if self.cls(p, "COLON"):
            if self.cls(nx(p), IDANY):
                return ("some", ("tok", nx(p))), nx(p, 2)
            return None, p
        return ("none",), p

    def p_Directive(self, p):
        if not (self.cls(p, IDANY) and self.cls(nx(p), "COLON")):
            return ("err",)
        q = nx(p, 2)
        if self.cls(q, "BRACE"):
            r = self.nt("BracedKebabIdent", q)
            if r[0] != "ok":
                return r
            k, v = self.shorthand(r[1])
            key, value = ("variant", "KebabIdent", {0: k}), ("L", ("C22",), ("some", v))
            mod, q = self.modifier(r[2])
            if mod is None:
                return ("err",)
        else:
            r = self.nt("KebabIdentOrStr", q)
            if r[0] != "ok":
                return r
            key = r[1]
            mod, q = self.modifier(r[2])
            if mod is None:
                return ("err",)
            value = ("none",)
            if self.cls(q, "EQ"):
                v, q = self.value_after_eq(nx(q))
                value = ("L", ("C18",), ("some", v))
        return ("ok", struct(dir=("tok", p), key=("L", ("C20",), key), modifier=("L", ("C03",), mod), value=value), q)

    # ---------------------------------------------------------------- tags
    def p_Tag(self, p):
        if (self.double(nx(p), "COLON") or self.double(p, "COLON") or self.cls(nx(p), "LT")):
            if not self.cls(p, "IDENT", "KW", "COLON"):
                return ("err",)
            if self.w.bool("parses", ("path", p[0], p[1])):
                return ("ok", ("variant", "Component", {0: ("L", ("C25",), ("path", p))}), (("after", "Path", p[0], p[1]), 0))
            return ("err",)
        r = self.nt("KebabIdent", p)
        if r[0] != "ok":
            return r
        k, q = r[1], r[2]
        t = self.kebab_text(k)
        if self.w.bool("strpred", "starts_in", t, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
            return ("ok", ("variant", "Component", {0: ("L", ("C25", "C20"), ("pathof", self.snake(t, raw=False)))}), q)
        if self.w.is_(("str", t), tuple(sorted(SVG | {"use_"}))):
            if self.w.is_(("str", t), ("use_",)):
                return ("ok", ("variant", "Svg", {0: ("L", ("C20",), ("string", [("one", ("text", ("r#use",)))]))}), q)
            return ("ok", ("variant", "Svg", {0: ("L", ("C20",), ("string", [("one", ("text", self.snake(t)))]))}), q)
        if self.w.bool("strpred", "contains", t, "-"):
            return ("ok", ("variant", "WebComponent", {0: ("L", ("C20",), k)}), q)
        name = "Math" if self.w.is_(("str", t), tuple(sorted(MATHML))) else "Html"
        return ("ok", ("variant", name, {0: ("L", ("C20",), ("string", [("one", ("text", self.snake(t)))]))}), q)

    def snake(self, t, raw=True):
        at = norm_str((("op", "replace", t, ("-", "_")),))
        if self.w.is_(("str", at), NOT_RAW):
            self.error("a name that cannot be an identifier")
        return ("r#",) + at if raw else at

    # ---------------------------------------------------------------- children, elements
    def p_Child(self, p):
        r = self.nt("Value", p)
        if r[0] == "ok":
            v = r[1]
            lit = self.run.is_lit(self, v, p)
            if lit is False:
                self.error("a literal that is not a string")
                v = ("any",)
            return ("ok", ("variant", "Node", {0: ("variant", "Value", {0: v})}), r[2])
        if self.cls(p, "IDENT") and self.w.is_(("str", self.word(p)), ("slot",)) and self.cls(nx(p), "COLON") and not self.double(nx(p), "COLON"):
            return self.of(self.nt("Element", nx(p, 2)), lambda e, q: ("ok", ("variant", "Slot", {("", "Element$"): ("L", ("C07",), e)}), q))
        if self.cls(p, IDANY) or self.double(p, "COLON"):
            return self.of(self.nt("Element", p), lambda e, q: ("ok", ("variant", "Node", {0: ("variant", "Element", {0: e})}), q))
        return ("err",)

    def p_Children(self, p):
        def step(s, q):
            if s.cls(q, "EOF"):
                return ("stop",)
            r = s.nt("Child", q)
            if r[0] == "ok":
                return ("push", r[1], r[2])
            s.error("something that is not a child")
            return ("skip", None, None)
        q, items = self.loop(p, step)
        return ("ok", ("list", items), q)

    def block(self, p):
        """the children in braces or parentheses: (list, position) | None"""
        if self.cls(p, "BRACE", "PAREN"):
            r = self.nt("Children", self.inner(p))
            if r[0] != "ok" or not self.cls(r[2], "EOF"):
                raise Stop()                  # does not happen: the children take everything
            return r[1], nx(p)
        return None

    def p_Element(self, p):
        r = self.nt("Tag", p)
        if r[0] != "ok":
            return r
        tag = r[1]
        r = self.nt("SelectorShorthands", r[2])
        if r[0] != "ok":
            raise Stop()
        sel = r[1]
        r = self.nt("Attrs", r[2])
        if r[0] != "ok":
            raise Stop()
        attrs, q = r[1], r[2]

        def done(args, children, q):
            return ("ok", struct(tag=("L", ("C19", "C25"), tag), selectors=("L", ("C24",), sel), attrs=("L", ("C21",), attrs),
                                 children_args=("L", ("C23", "C18"), args), children=("L", ("C02",), children)), q)
        if self.cls(q, "SEMI"):
            return done(("none",), ("none",), nx(q))
        b = self.block(q)
        if b is not None:
            return done(("none",), ("some", b[0]), b[1])
        if self.cls(q, "OR"):
            def step(s, x):
                if s.cls(x, "OR", "EOF"):
                    return ("stop",)
                return ("push", ("tokens", [("u", ("at", x[0], x[1]))]), nx(x))
            x, items = self.loop(nx(q), step)
            if not self.cls(x, "OR"):
                return ("err",)
            b = self.block(nx(x))
            if b is None:
                self.error("no children behind closure arguments")
                return ("ok", ("any",), nx(x))
            return done(("some", ("stream", [("one", ("tokens", [("p", "|")]))] + items + [("one", ("tokens", [("p", "|")]))])), ("some", b[0]), b[1])
        self.error("the element is not terminated")
        return ("ok", ("any",), q)


def nx(p, n=1):
    return (p[0], p[1] + n)


FIELDS = {
    "tokens": r"TokenStream$", "prefixes": r"Option<", "repr": r"String$", "ident": r"KebabIdent$", "key": r"KebabIdent", "value": r"Value", "dir": r"proc_macro2::Ident$",
    "modifier": r"Option<proc_macro2::Ident>$", "rest": r"TokenStream$", "tag": r"::Tag$", "selectors": r"SelectorShorthands$", "attrs": r"Attrs$",
    "children_args": r"Option<proc_macro2::TokenStream>$", "children": r"Option<.*Children>$",
}


def variant(name, **kw):
    return ("variant", name, {(k, FIELDS[k]): v for k, v in kw.items()})


def struct(**kw):
    return ("struct", kw)
