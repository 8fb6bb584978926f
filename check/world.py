"""Case-splitting comparison of an extracted template with the specification.

A `World` is a set of facts about the (unknown) input.  Extracted templates and the
specification are both read as decision procedures over a world; a question whose answer
the facts do not determine splits the world (`Fork`), so that in the end every world in
which the two could differ is looked at on its own.  Only questions that the code or the
specification really ask are split on.
"""
import re
from engine.core import State, guards_of, const_str, str_base
from engine.util import text

OPEN = {"(": ")", "{": "}", "[": "]"}


class Fork(Exception):
    def __init__(self, key, T):
        self.key, self.T = key, T


class SpecError(Exception):
    """the specification demands that this input is reported"""
    def __init__(self, label, what):
        self.label, self.what = label, what


class Undecided(Exception):
    pass


class World:
    def __init__(self, I, facts):
        self.I = I
        self.st = State({"diag": ("seq", ())}, dict(facts), 10 ** 6)

    def is_(self, key, T):
        if key[0] == "b" and key[1] == "match":
            src = key[2][1]
            v = any(self.holds(sorted_guards(g)) for g in guards_of(src, key[3]))
            return (1 if v else 0) in T
        r = self.I.test(self.st, key, tuple(T))
        if len(r) == 1:
            return r[0][0]
        raise Fork(key, tuple(T))

    def bool(self, *key):
        return self.is_(("b",) + key, (1,))

    def holds(self, guards):
        """all facts of a guard hold in this world"""
        for k, (pol, S) in guards if isinstance(guards, list) else sorted_guards(guards):
            if self.is_(k, S) != pol:
                return False
        return True

    # ------------------------------------------------------------ lists
    def exists(self, src, ety, pred, name):
        """some element of the list `src` satisfies `pred`"""
        facts = self.st.facts
        for k in [k for k in facts if k[0] == "b" and k[1] == "exists" and k[2] == src] + [("len", src)]:
            if k[0] == "len":
                pol, S = self.I.fact(self.st, k)
                val = False if S == frozenset((0,)) else True if 0 not in S else None
                if not pol or val is None:
                    continue
                g = frozenset((frozenset(),))
            else:
                val = (1 in facts[k][1]) == facts[k][0]
                g = guards_of(src, k[3])
            sub, sup = relation(self.I, src, ety, pred, g)
            if sub and sup:
                return val
            if sub and not val:
                return False
            if sup and val:
                return True
        return self.is_(("b", "specexists", src, name), (1,))

    # ------------------------------------------------------------ strings
    def const(self, atom):
        """the text of an atom if the facts determine it"""
        if isinstance(atom, str):
            return atom
        for ats in ((atom,),):
            pol, S = self.I.fact(self.st, ("str", ats))
            if pol and len(S) == 1:
                return next(iter(S))
        base, fn = str_base((atom,))
        if base is not None:
            pol, S = self.I.fact(self.st, ("str", base))
            if pol and len(S) == 1:
                return fn(next(iter(S)))
        return None

    def atoms(self, at):
        out = []
        for a in at:
            c = self.const(a)
            x = a if c is None else c
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        return tuple(out)


def relation(I, src, ety, pred, guards):
    """(pred implies guards, guards imply pred) for an element of src"""
    def f(w):
        a = Acc(w, ("sym", ("elem", src), ety))
        return bool(pred(w, a)), any(w.holds(sorted_guards(g)) for g in guards)
    rs = [r for _, r in explore(I, {}, f)]
    return all(g for p, g in rs if p), all(p for p, g in rs if g)


_sg = {}


def sorted_guards(g):
    """the facts of a guard, those about outer constructs first"""
    r = _sg.get(g) if isinstance(g, frozenset) else None
    if r is None:
        r = sorted(g, key=lambda x: (len(str(x[0])), str(x[0])))
        if isinstance(g, frozenset):
            _sg[g] = r
    return r


def explore(I, facts, f, limit=20000):
    """run f in every world refining `facts` -> [(World, result)]"""
    work = [dict(facts)]
    out = []
    n = 0
    while work:
        fs = work.pop()
        n += 1
        if n > limit:
            raise Undecided("too many cases")
        w = World(I, fs)
        try:
            r = f(w)
        except Fork as e:
            for tr, s in I.test(w.st, e.key, e.T):
                work.append(s.facts)
            continue
        out.append((w, r))
    return out


# ---------------------------------------------------------------- input values
class Acc:
    """a place in the input: a symbol with its type, addressed by field and variant names"""
    def __init__(self, w, v):
        self.w, self.I = w, w.I
        st = w.st
        self.v = self.I.deref(st, v)
        n = 0
        while self.v[0] == "sym" and self.v[2] is not None and n < 6:
            t = self.I.p.ty(self.v[2])
            if t["k"] == "adt" and t["path"].endswith("boxed::Box"):
                self.v = ("sym", self.v[1], t["args"][0])
                n += 1
            else:
                break

    @property
    def key(self):
        return self.v[1]

    @property
    def ty(self):
        return self.v[2]

    def tinfo(self):
        t = self.I.p.ty(self.ty)
        return t

    def fields(self, vi=0):
        return self.tinfo()["variants"][vi]["f"]

    def field(self, name):
        """field by name, or by the last component of its type's name if the name is not found"""
        fs = self.fields()
        idx = [i for i, (n, t) in enumerate(fs) if n == name[0]]
        if not idx:
            idx = [i for i, (n, t) in enumerate(fs) if re.search(name[1], self.I.p.ty(t)["s"])]
        if len(idx) != 1:
            raise Undecided("field %s of %s not found" % (name[0], self.tinfo()["s"]))
        i = idx[0]
        return Acc(self.w, ("sym", self.key + (("f", i),), fs[i][1]))

    def variant(self):
        vs = self.tinfo()["variants"]
        live = list(range(len(vs)))
        pol, S = self.I.fact(self.w.st, ("var", self.key, self.ty))
        live = [i for i in live if (i in S) == pol]
        for i in live[:-1]:
            if self.w.is_(("var", self.key, self.ty), (i,)):
                return vs[i]["n"]
        return vs[live[-1]]["n"]

    def pay(self, name=None, j=0, pat=None):
        vs = self.tinfo()["variants"]
        if name is None:
            name = self.variant()
        for i, v in enumerate(vs):
            if v["n"] == name:
                fs = v["f"]
                if pat is not None:
                    js = [k for k, (n, t) in enumerate(fs) if n == pat[0]] or [k for k, (n, t) in enumerate(fs) if re.search(pat[1], self.I.p.ty(t)["s"])]
                    if len(js) != 1:
                        raise Undecided("field %s of %s" % (pat, v["n"]))
                    j = js[0]
                return Acc(self.w, ("sym", self.key + (("v", i), ("f", j)), fs[j][1]))
        raise Undecided("variant %s of %s not found" % (name, self.tinfo()["s"]))

    def text(self):
        """atoms of an identifier / string"""
        s = self.tinfo()["s"]
        if s == "proc_macro2::Ident":
            return (text(self.key),)
        if s == "syn::lit::LitStr":
            return (("sym", ("litval", self.key), None),)
        return (("sym", self.key, None),)

    def text_is(self, *words):
        return self.w.is_(("str", self.text()), words)

    def elems(self):
        """(source key, element type) of a Vec"""
        t = self.tinfo()
        if t["k"] == "adt" and t["path"].startswith("alloc::vec::Vec"):
            return self.key, t["args"][0]
        if t["k"] == "adt" and t["path"].endswith("Punctuated"):
            return self.key, t["args"][0]
        raise Undecided("not a list: " + t["s"])


# ---------------------------------------------------------------- templates
TOK = re.compile(r"\s*(?:(\$[a-z_0-9]+)|((?:r#)?[A-Za-z_][A-Za-z_0-9]*)|([(\[{])|([)\]}])|(.))")


def q(template, **kw):
    """token items of a piece of source; `$x` are holes"""
    stack = [("", [])]
    pos = 0
    template = template.strip()
    while pos < len(template):
        m = TOK.match(template, pos)
        pos = m.end()
        hole, ident, op, cl, p = m.groups()
        if hole:
            x = kw[hole[1:]]
            stack[-1][1].extend(x if isinstance(x, (list, tuple)) and (not x or not isinstance(x[0], str)) else [x])
        elif ident:
            stack[-1][1].append(("id", (ident,)))
        elif op:
            stack.append((op, []))
        elif cl:
            o, its = stack.pop()
            stack[-1][1].append(("g", o, tuple(its)))
        else:
            stack[-1][1].append(("p", p))
    assert len(stack) == 1
    return stack[0][1]
