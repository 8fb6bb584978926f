"""Comparison of what the code can emit with the specification of the expansion."""
from engine.core import subst, LEN0, known_pure, norm_str, vid, guards_of, term_bases
from engine.names import Namer
from engine.run import entry, analyse
from engine.util import text
from .world import World, Fork, SpecError, Undecided, Acc, explore, sorted_guards
from . import spec_expand as SP

NO_CASE = object()


class Diff:
    """a construct that differs from the specification"""
    def __init__(self, labels, where, expected, got, kind="tokens"):
        if got in ("nothing more", "nothing"):
            labels = tuple(labels) + ("C03",)
        self.labels = tuple(sorted(set(labels)))
        self.where, self.expected, self.got, self.kind = where, expected, got, kind

    def key(self):
        return (self.labels, self.where, self.expected, self.got, self.kind)


# ------------------------------------------------------------------ spec items
def flat(items, labels=()):
    """[(labels, item)] with the regions resolved"""
    out = []
    if isinstance(items, tuple) and items and isinstance(items[0], str):
        items = [items]
    for x in items:
        if isinstance(x, list):
            out.extend(flat(x, labels))
        elif x[0] == "R":
            out.extend(flat(x[2], x[1]))
        elif x[0] == "g":
            out.append((labels, ("g", x[1], flat(x[2], labels))))
        elif x[0] == "S":
            out.append((x[5], x))
        elif x[0] == "G":
            out.append((x[4], x))
        else:
            out.append((labels, x))
    return out


def is_run(x):
    return x[0] in ("S", "G")


def is_empty(facts, src):
    f = facts.get(("len", src))
    return f is not None and f[0] and f[1] <= LEN0


def misordered(x):
    """("misordered", list) subterms: the elements of a list in an order that is not its own"""
    out, todo, seen = [], [x], set()
    while todo:
        y = todo.pop()
        if not isinstance(y, (tuple, frozenset)) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "misordered" and isinstance(y[1], tuple):
            if y not in out:
                out.append(y)
        todo.extend(y)
    return sorted(out, key=lambda m: len(str(m)))


class Compare:
    def __init__(self, I, cuts):
        self.I, self.cuts = I, cuts
        self.memo = {}
        self.obl = {}            # (kind, inst, arg pattern) -> reason
        self.undecided = []
        self.worlds = 0
        self.stars = 0
        self.nspec = 0
        self.stops = []

    # -------------------------------------------------------------- element worlds
    def outer(self, facts, src):
        """facts of the context that matter for the elements of a list"""
        return {k: f for k, f in facts.items() if not (k[0] == "b" and k[1] in ("exists", "specexists", "notfirst")) and k[0] != "len"
                and not mentions_first(k)}

    def excluded(self, w, facts, src, ety):
        if is_empty(facts, src):
            return True
        for k, f in facts.items():
            if k[0] == "b" and k[2:3] == (src,) and k[1] in ("exists", "specexists") and (1 in f[1]) != f[0]:
                if k[1] == "exists":
                    for g in guards_of(src, k[3]):
                        if w.holds(sorted_guards(g)):
                            return True
        return False

    def case_items(self, w, star):
        """items a star emits for the element of this world (None: no case)"""
        for g, its in star[2]:
            if w.holds(sorted_guards(g)):
                return its
        return None

    def each(self, facts, src, ety, f):
        """[(world, f(world, element))] over the kinds of elements"""
        base = self.outer(facts, src)

        def g(w):
            if self.excluded(w, facts, src, ety):
                return None
            return f(w, Acc(w, ("sym", ("elem", src), ety)))
        rs = explore(self.I, base, g)
        self.worlds += len(rs)
        return [(w, r) for w, r in rs if r is not None]

    # -------------------------------------------------------------- normalisation of extracted items
    def norm(self, w, items):
        out = []
        for x in items:
            k = x[0]
            if k == "alt":
                its = self.case_items(w, x)
                if its is None:
                    return out + [("stuck",)]
                out.extend(self.norm(w, its))
            elif k == "star":
                out.append(x)
            elif k == "id":
                out.append(("id", w.atoms(x[1])))
            elif k == "lit":
                out.append(("lit", w.atoms(x[1])))
            else:
                out.append(x)
        return out

    def show(self, items, n=160):
        N = self.N
        try:
            s = N.items(tuple(items))
        except Exception:
            s = str(items)
        return s[:n]

    def show_spec(self, fl, n=160):
        out = []
        for lab, x in fl[:14]:
            if x[0] == "g":
                out.append(x[1] + self.show_spec(x[2], 60) + {"(": ")", "{": "}", "[": "]"}[x[1]])
            elif x[0] == "S":
                out.append("<%s>" % x[3])
            elif x[0] == "G":
                out.append("<slots>")
            elif x[0] == "N":
                out.append("<%s>" % x[1])
            elif x[0] in ("path", "joined", "lit?", "snake", "str_block"):
                out.append("<%s>" % x[0])
            else:
                out.append(self.show([x], 80))
        return " ".join(out)[:n]

    # -------------------------------------------------------------- sequences
    def seq(self, w, facts, ext, spec, where, labels):
        """diffs between extracted items and flattened spec items in world w"""
        ext = self.norm(w, ext)
        i = j = 0
        while True:
            if j < len(spec) and is_run(spec[j][1]):
                j2 = j
                while j2 < len(spec) and is_run(spec[j2][1]):
                    j2 += 1
                i2 = i
                while i2 < len(ext) and ext[i2][0] == "star":
                    i2 += 1
                d = self.runs(w, facts, ext[i:i2], spec[j:j2], where)
                if d:
                    if j2 < len(spec) and any(x.kind == "extra" for x in d):
                        for x in d:
                            x.labels = tuple(sorted(set(x.labels) | set(spec[j2][0])))
                        here = {repr(self.src_of(x[1])) for x in spec[j:j2]}
                        late = {repr(self.src_of(x[1])) for x in spec[j2:] if is_run(x[1])}
                        if any(repr(ext_src(x)) in late - here for x in ext[i:i2]):
                            # written, but not at its place
                            for x in d:
                                x.labels = tuple(sorted(set(x.labels) | {"C04"}))
                    return d
                i, j = i2, j2
                continue
            if i < len(ext) and ext[i][0] == "star" and self.star_empty(facts, ext[i]):
                i += 1
                continue
            if j == len(spec):
                if i == len(ext):
                    return []
                lab = spec[-1][0] if spec else labels
                return [Diff(lab or labels, where, "nothing more", self.show(ext[i:]))]
            lab, s = spec[j]
            lab = lab or labels
            if s[0] == "N":
                n, d = self.child(w, facts, ext, i, s, where, lab)
                if d:
                    return d
                i, j = i + n, j + 1
                continue
            if i == len(ext):
                return [Diff(lab, where, self.show_spec(spec[j:]), "nothing more")]
            e = ext[i]
            if e[0] in ("unknown", "stuck", "havoc"):
                raise Undecided("unknown part of the output in " + where)
            r = self.one(w, facts, e, s, where, lab, ext, i)
            if r is None:
                return [Diff(lab, where, self.show_spec(spec[j:]), self.show(ext[i:]))]
            n, d = r
            if d:
                return d
            i, j = i + n, j + 1

    def one(self, w, facts, e, s, where, lab, ext, i):
        """match one spec item -> (number of items used, diffs) | None"""
        k = s[0]
        if k == "g":
            if e[0] == "g" and e[1] == s[1]:
                return 1, self.seq(w, facts, e[2], s[2], where, lab)
            return None
        if k == "id":
            if e[0] == "id":
                return self.names(w, e[1], s[1], where, lab)
            return None
        if k == "lit":
            at = w.atoms(s[1])
            return (1, []) if e[0] == "lit" and norm_str(e[1]) == norm_str(at) else None
        if k == "lit?":
            key = s[1].key
            return (1, []) if e[0] == "u" and e[1] == key else None
        if k == "u":
            if e[0] == "uv" and e[1][0] == "sym":
                e = ("u", e[1][1])
            return (1, []) if e == s else None
        if k == "p":
            return (1, []) if e == s else None
        if k == "str_block":
            at = w.atoms(s[1])
            if e[0] == "lit":
                return (1, []) if norm_str(e[1]) == norm_str(at) else None
            if e[0] == "g" and e[1] == "{":
                return 1, self.str_block(w, e[2], at, where, lab)
            return None
        if k == "joined":
            if e[0] != "lit":
                return None
            return 1, self.joined(w, facts, e[1], s, where, lab)
        if k == "path":
            return self.path(w, facts, ext, i, s[1], where, lab)
        raise Undecided("spec item " + k)

    def names(self, w, got, want, where, lab):
        want = w.atoms(want)
        if any(isinstance(a, tuple) and a[0] == "snake" for a in want):
            n = want.index(next(a for a in want if isinstance(a, tuple) and a[0] == "snake"))
            if want[:n] != got[:n] or n != len(want) - 1:
                return None
            d = self.snake(w, got[n:], want[n][1], where, lab)
            return None if d is None else (1, d)
        return (1, []) if norm_str(got) == norm_str(want) else None

    def snake(self, w, at, ident, where, lab):
        if len(at) > 1 and isinstance(at[-1], tuple) and at[-1][0] == "star" and at[-1][1][:1] == ("tail",):
            # the first character by itself, then the others
            star, src = at[-1], at[-1][1][1]
            if chars_of(src) != (True, ident):
                return None
            d = self.snake_case(w, at[:-1], ("first",) + star[1][1:], True, False, where, lab)
            return d or self.snake_cases(star, ("elem", star[1]), where, lab, True)
        if len(at) != 1 or not isinstance(at[0], tuple) or at[0][0] != "star":
            return None
        star = at[0]
        src = star[1]
        if chars_of(src) != (True, ident):
            return None

        return self.snake_cases(star, ("elem", src), where, lab)

    def snake_cases(self, star, ek, where, lab, notfirst=None):
        def f(w2):
            its = None
            for g, x in star[2]:
                if w2.holds(sorted_guards(g)):
                    its = x
                    break
            up = self.capital(w2, ek)
            nf = w2.bool("notfirst", star[1]) if notfirst is None else notfirst
            return its, up, nf
        for w2, (its, up, nf) in explore(self.I, {}, f):
            d = self.snake_case(w2, its, ek, up, nf, where, lab)
            if d:
                return d
        return []

    def capital(self, w2, ek):
        for k, fc in w2.st.facts.items():
            if k[0] == "b" and k[1] == "charpred" and k[2] in ("is_ascii_uppercase", "is_uppercase") and k[3] in (ek, ("sym", ek, None)):
                return (1 in fc[1]) == fc[0]
        return w2.bool("charpred", "is_ascii_uppercase", ek)

    def snake_case(self, w2, its, ek, up, nf, where, lab):
        """what is written for one character"""
        its = list(its or ())
        if up and nf:
            if not its or its[0] != "_":
                return [Diff(lab, where, "`_` before an inner capital letter", self.show_at(its))]
            its = its[1:]
        cs = (("chr", ek), ("chr", ("sym", ek, None)))
        x = its[0] if len(its) == 1 else None
        low = False
        while isinstance(x, tuple) and x not in cs and (len(x) == 1 or x[:2] == ("op", "lower")):
            low = low or len(x) > 1
            x = x[0] if len(x) == 1 else x[2]
        ok = x in cs and (low or not up)
        if not ok:
            return [Diff(lab, where, "the character in lower case (capital: %s, first: %s)" % (up, not nf), self.show_at(its))]
        return []

    def show_at(self, at):
        from engine.run import show_str
        return show_str(at)[:120]

    def str_block(self, w, items, at, where, lab):
        """{ let x = (); "text" }: blocks that only attach spans, with the value `text`"""
        its = self.norm(w, items)
        while its and its[-1][0] != "lit":
            return [Diff(lab, where, "a string with the text of the name", self.show(items))]
        if not its or norm_str(its[-1][1]) != norm_str(at):
            return [Diff(lab, where, "a string with the text of the name", self.show(items))]
        return []

    def joined(self, w, facts, at, s, where, lab):
        _, src, sty = s
        if len(at) == 1 and isinstance(at[0], tuple) and at[0][0] == "star" and at[0][1] == src and at[0][3] == (" ",):
            star = at[0]

            def f(w2, a):
                got = None
                for g, x in star[2]:
                    if w2.holds(sorted_guards(g)):
                        got = x
                        break
                want = None
                if a.variant() == "Id":
                    want = SP.kebab_atoms(a.pay("Id", pat=("id", "KebabIdent")))
                return got, want
            for w2, (got, want) in self.each(facts, src, sty, f):
                if (got is None) != (want is None) or got is not None and norm_str(got) != norm_str(want):
                    return [Diff(lab, where, "the ids joined by spaces", self.show_at(at))]
            return []
        return [Diff(lab, where, "the ids joined by spaces", self.show_at(at))]

    # -------------------------------------------------------------- paths
    def path(self, w, facts, ext, i, acc, where, lab):
        e = ext[i]
        if e[0] == "u" and e[1] == acc.key:
            v = acc.v
        elif e[0] == "uv":
            v = e[1]
        else:
            return None
        if v[0] == "sym":
            if v[1] != acc.key:
                return None
            lead, segs = None, None
        elif v[0] == "adt":
            t = self.I.p.ty(v[1])
            if not t["path"].endswith("Path"):
                return None
            fs = [f[0] for f in t["variants"][v[2]]["f"]]
            lead, segs = v[3][fs.index("leading_colon")], v[3][fs.index("segments")]
            al = acc.field(("leading_colon", "Option<"))
            if lead != al.v:
                return 1, [Diff(lab, where, "the leading `::` of the path", self.show_v(lead))]
        else:
            return None
        asg = acc.field(("segments", "Punctuated"))
        src, sty = asg.elems()
        if segs is not None and segs[0] == "sym" and segs[1] == asg.key:
            segs = None
        if segs is None:
            star = None
        else:
            its = segs[1] if segs[0] in ("seq", "iter") else None
            if its is None:
                raise Undecided("segments of a path")
            if len(its) != 1 or its[0][0] != "star" or its[0][1] != src:
                return 1, [Diff(lab, where, "all segments of the path in order", self.show_v(segs))]
            star = its[0]

        def f(w2, a):
            if star is None:
                got = a.v
            else:
                its = self.case_items(w2, star)
                if its is None:
                    got = None
                elif len(its) == 1 and its[0][0] == "e":
                    got = its[0][1]
                else:
                    return "several"
            ar = a.field(("arguments", "PathArguments"))
            k = ar.variant()
            if k == "Parenthesized":
                return None
            if got is None:
                return "dropped"
            turbo = None
            if k == "AngleBracketed":
                turbo = ar.pay("AngleBracketed").field(("colon2_token", "Option<")).variant() == "Some"
            return self.segment(w2, got, a, ar, turbo)
        for w2, r in self.each(facts, src, sty, f):
            if r:
                return 1, [Diff(lab, where, "the path with its generics as a turbofish", r)]
        return 1, []

    def segment(self, w, got, a, ar, turbo):
        if got == a.v:
            return None if turbo is not False else "generics without `::`"
        if got[0] != "adt":
            return self.show_v(got)
        fs = [f[0] for f in self.I.p.ty(got[1])["variants"][got[2]]["f"]]
        ident, args = got[3][fs.index("ident")], got[3][fs.index("arguments")]
        ai = a.field(("ident", "Ident"))
        if ident != ai.v:
            return "another identifier: " + self.show_v(ident)
        if args == ar.v:
            return None if turbo is not False else "generics without `::`"
        if args[0] == "adt" and turbo is not None and len(args[3]) == 1:
            inner = args[3][0]
            acc = ar.pay("AngleBracketed")
            if inner == acc.v:
                return None if turbo else "generics without `::`"
            if inner[0] == "adt":
                for idx, (n, t) in enumerate(acc.fields()):
                    fv = inner[3][idx]
                    av = Acc(w, ("sym", acc.key + (("f", idx),), t)).v
                    if n == "colon2_token":
                        if fv == av:
                            if turbo is False:
                                return "generics without `::`"
                        elif not (fv[0] == "adt" and len(fv[3]) == 1):
                            return "generics without `::`"
                    elif fv != av:
                        return "%s of the generics: %s" % (n, self.show_v(fv))
                return None
        if args[0] == "adt" and turbo is None and not args[3]:
            return None
        return "other arguments: " + self.show_v(args)

    def show_v(self, v):
        try:
            return self.N.key(v)[:120]
        except Exception:
            return str(v)[:120]

    # -------------------------------------------------------------- child nodes
    def child(self, w, facts, ext, i, s, where, lab):
        """expansion of a child: a separately checked function applied to it, or written out"""
        _, kind, acc = s
        if i < len(ext):
            e = ext[i]
            m = self.hole_of(e)
            if m is not None:
                inst, vals = m
                pat = self.pattern(vals, acc)
                if pat is None:
                    return 1, [Diff(lab, where, "the expansion of " + self.show_v(acc.v), self.show([e]))]
                self.obl.setdefault((kind, inst, pat), where)
                return 1, []
        if kind == "node":
            sp = flat(SP.node(w, acc), lab)
        else:
            return 0, [Diff(lab, where, "the expansion of " + self.show_v(acc.v), self.show(ext[i:]))]
        d = self.seq_prefix(w, facts, ext, i, sp, where, lab)
        return d

    def seq_prefix(self, w, facts, ext, i, sp, where, lab):
        """an inlined expansion: as many items as the specification has"""
        n = len(sp)
        if any(is_run(x[1]) for x in sp):
            raise Undecided("inlined expansion")
        return n, self.seq(w, facts, ext[i:i + n], sp, where, lab)

    def hole_of(self, e):
        if e[0] == "hole":
            return e[1], (e[2],)
        if e[0] == "rec":
            return e[1], e[2]
        if e[0] == "u" and e[1][0] == "rec":
            return e[1][1], e[1][2]
        return None

    def pattern(self, vals, acc):
        """arguments with the child replaced by a placeholder; None: some other child"""
        out = []
        n = 0
        for v in vals:
            if v == acc.v or v[0] == "sym" and v[1] == acc.v[1]:
                out.append("CHILD")
                n += 1
            elif contains_sym(v):
                if v[0] == "ts" and not v[1] or v[0] == "span":
                    out.append(("ctx",))
                else:
                    return None
            else:
                out.append(v)
        return tuple(out) if n == 1 else None

    # -------------------------------------------------------------- repetitions
    def runs(self, w, facts, ext, spec, where):
        ext = [x for x in ext if not self.star_empty(facts, x)]
        sp = [x for lab, x in spec if not self.spec_empty(facts, x)]
        if [ext_src(x) for x in ext] == [self.src_of(x) for x in sp]:
            bad = []
            for e, s in zip(ext, sp):
                bad += self.pair(facts, (e,), (s,), where)
            if not bad:
                return []
        elif not sp and not ext:
            return []
        # compare per list, in whatever order
        srcs = []
        for x in sp:
            if self.src_of(x) not in srcs:
                srcs.append(self.src_of(x))
        for e in ext:
            if ext_src(e) not in srcs:
                srcs.append(ext_src(e))
        bad = []
        for src in srcs:
            es = tuple(e for e in ext if ext_src(e) == src)
            ss = tuple(s for s in sp if self.src_of(s) == src)
            bad += self.pair(facts, es, ss, where)
        if not bad:
            labs = {"C04"}
            a, b = [self.src_of(x) for x in sp], [ext_src(e) for e in ext]
            return [Diff(labs, where, "in this order: " + ", ".join(x[3] for x in sp), "another order of " + ", ".join(self.show_v(x)[:40] for x in b), "order")]
        return bad

    def src_of(self, s):
        if s[0] == "S":
            return s[1]
        return ("slots", s[1])

    def star_empty(self, facts, e):
        if all(not its for g, its in e[2]):
            return True
        src = e[1]
        if is_empty(facts, src):
            return True
        for k, f in facts.items():
            if k[0] == "b" and k[2:3] == (src,) and k[1] == "exists" and (1 in f[1]) != f[0]:
                break
        else:
            return False
        mk = ("star_empty", vid(e), self.ctx(facts, src))
        if mk not in self.memo:
            try:
                rs = self.each(facts, src, None, lambda w, a: bool(self.case_items(w, e)))
                self.memo[mk] = not any(r for w, r in rs)
            except Undecided:
                self.memo[mk] = False
        return self.memo[mk]

    def spec_empty(self, facts, s):
        if s[0] != "S":
            return False
        k = ("empty", s[1], s[3], self.ctx(facts, s[1]))
        if k not in self.memo:
            def f(w, a):
                try:
                    return bool(flat(s[4](w, a)))
                except SpecError:
                    return False
            self.memo[k] = not any(r for _, r in self.each(facts, s[1], s[2], f))
        return self.memo[k]

    def ctx(self, facts, src):
        return frozenset((k, f) for k, f in facts.items() if (k[0] == "b" and k[1] in ("exists", "specexists") and k[2:3] == (src,)) or k == ("len", src) or k[0] == "var" and not mentions_first(k))

    def pair(self, facts, es, ss, where):
        """diffs between the concatenation of stars and of spec repetitions over one list"""
        k = (tuple(vid(e) for e in es), tuple((s[0], s[1], s[3]) for s in ss), self.ctx(facts, (es[0][1] if es else self.src_of(ss[0]))))
        if k in self.memo:
            return self.memo[k]
        self.stars += 1
        r = self.memo[k] = self.pair_(facts, es, ss, where)
        return r

    def pair_(self, facts, es, ss, where):
        if any(s[0] == "G" for s in ss):
            return self.groups(facts, es, ss, where)
        if any(e[1][0] == "groups" for e in es):
            return [Diff(("C07",), where, "no slots", self.show(es), "extra")]
        if not ss:
            src = es[0][1]
            for e in es:
                d = ["C02"] if "children" in self.show_v(src) else ["C18"]
                return [Diff(d, where, "nothing for each element of " + self.show_v(src), self.show(es), "extra")]
        src, ety = ss[0][1], ss[0][2]
        wh = where + " / " + ", ".join(s[3] for s in ss)
        if any(e[1] != src for e in es):
            return [Diff(ss[0][5], wh, "a repetition over " + self.show_v(src), self.show(es))]

        def f(w, a):
            sp = []
            for s in ss:
                try:
                    sp += flat(s[4](w, a), s[5])
                except SpecError:
                    return []
            self.nspec += 1
            its = []
            for e in es:
                x = self.case_items(w, e)
                its += list(x or ())
                if e[3] is not None:
                    if len(es) != 1 or len(ss) != 1:
                        raise Undecided("separated repetition")
                    if x is not None:
                        its += list(e[3])
            try:
                return self.seq(w, w.st.facts, its, sp, wh, ss[0][5])
            except SpecError:
                return []
        out, seen = [], set()
        try:
            rs = self.each(facts, src, ety, f)
        except Undecided as x:
            self.undecided.append((wh, str(x)))
            return []
        for w, ds in rs:
            for d in ds:
                if d.key() not in seen:
                    seen.add(d.key())
                    d.world = w
                    out.append(d)
        if not out and es and es[0][3] is not None:
            # `a, b` is `a, b,` unless there is one of them: `(a)` is not a tuple
            f = facts.get(("len", src))
            if f is not None and (1 in f[1]) != f[0]:
                self.undecided.append((wh, "separated repetition"))
            else:
                return [Diff(ss[0][5] + ("C27",), wh, "a comma behind every element", "commas between them")]
        return out

    # -------------------------------------------------------------- slots
    def groups(self, facts, es, ss, where):
        s = ss[0]
        src, cty = s[1], s[2]
        wh = where + " / slots"
        lab = s[4]
        if len(es) != 1 or len(ss) != 1 or es[0][1][0] != "groups":
            return [Diff(lab, wh, "one setter per slot name, in source order", self.show(es) or "nothing")]
        e = es[0]
        _, gsrc, key, G = e[1]
        # which children take part
        def valid(w, a):
            if a.variant() != "Slot":
                return False
            try:
                el, ident = SP.slot_ident(w, a)
                SP.slot_method(w, ident)
            except SpecError:
                return None
            return True
        out = []
        for w, r in self.each(facts, src, cty, lambda w, a: (valid(w, a), any(w.holds(sorted_guards(g)) for g in guards_of(gsrc, G)), self.group_key(w, a, key))):
            want, got, keyok = r
            if want is None:
                continue
            if want and not got:
                # a slot whose expansion is separately known to exist
                if not self.rec_none(w):
                    out.append(Diff(lab + ("C03",), wh, "every slot is used", "some slots are left out"))
            elif got and not want:
                out.append(Diff(lab, wh, "only slots are used", "other children are taken as slots"))
            elif want and not keyok:
                out.append(Diff(lab, wh, "slots grouped by their name", "grouped by " + self.show_v(key)))
        if out:
            return dedupe(out)
        gk = ("elem", e[1])

        def f(w):
            its = self.case_items(w, e)
            if its is None:
                return None
            return self.group(w, facts, its, e, gsrc, cty, wh, lab)
        try:
            for w, ds in explore(self.I, {}, f):
                out += ds or []
        except Undecided as x:
            self.undecided.append((wh, str(x)))
        return dedupe(out)

    def rec_none(self, w):
        for k, f in w.st.facts.items():
            if k[0] == "var" and k[1][0] == "rec":
                t = self.I.p.ty(k[2])
                live = [i for i in range(len(t["variants"])) if (i in f[1]) == f[0]]
                if live and all(t["variants"][i]["n"] in ("None", "Err") for i in live):
                    inst, vals = k[1][1], k[1][2]
                    self.obl.setdefault(("slot", inst, tuple("CHILD" if contains_sym(v) and not v[0] == "span" else v for v in vals)), "slots")
                    return True
        return False

    def group_key(self, w, a, key):
        if a.variant() != "Slot":
            return True
        p = a.pay("Slot", pat=("1", "Element"))
        tag = SP.f_tag(p)
        if tag.variant() != "Component":
            return True
        path = tag.pay("Component")
        k = key
        while isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], tuple):
            k = k[0]
        t = ("text", ("pathident", path.key))
        return k == t or k == ("op", "unraw", (t,), ()) or k in (("sym", ("pathident", path.key), None), ("sym", t, None))

    def group(self, w, facts, its, star, gsrc, cty, wh, lab):
        """the setter of one slot name"""
        gel = ("elem", star[1])
        its = self.norm(w, its)
        members = None
        for x in walk(its):
            if x[0] == "star" and x[1][0] == "members":
                members = x[1]
        # .name ( arg )
        if len(its) != 3 or its[0] != ("p", ".") or its[1][0] != "id" or its[2][0] != "g" or its[2][1] != "(":
            return [Diff(lab, wh, ". slot_name ( ... )", self.show(its))]
        name = its[1][1]
        for k, f in w.st.facts.items():
            if k[0] == "str" and f[0] and f[1] <= frozenset(SP.NOT_RAW):
                return []           # reported: not a name
        if name[:1] != ("r#",):
            return [Diff(lab + ("C20",), wh, "a raw identifier", self.show([its[1]]))]
        st = name[1] if len(name) == 2 else None
        ident = None
        if isinstance(st, tuple) and st[0] == "star":
            c = chars_of(st[1])
            ident = c[1] if c else None
        elif st is None and isinstance(name[-1], tuple) and name[-1][0] == "star" and name[-1][1][:1] == ("tail",):
            c = chars_of(name[-1][1][1])
            ident = c[1] if c else None
        okid = ident is not None and ident[0] == "text" and any(x[:2] == gel for x in subterms(ident))
        if not okid:
            return [Diff(lab + ("C20",), wh, "the slot's name in snake case", self.show([its[1]]))]
        d = self.snake(w, name[1:], ident, wh, ("C20", "C07"))
        if d is None:
            return [Diff(lab + ("C20",), wh, "the slot's name in snake case", self.show([its[1]]))]
        if d:
            return d
        arg = self.norm(w, its[2][2])
        # one or several members
        live = set((0, 1, 2, 3, 4))
        seen = False
        for k, f in w.st.facts.items():
            if k[0] == "len" and any(x == gel or x[:1] == ("members",) for x in subterms(k)):
                seen = True
                live = {n for n in live if (n in f[1]) == f[0]}
        if not seen:
            raise Undecided("number of slots with the same name")
        live.discard(0)
        out = []
        for n in sorted(live):
            out += self.members(w, arg, n, star, cty, wh, lab)
        return out

    def members(self, w, arg, n, star, cty, wh, lab):
        if n == 1:
            if len(arg) == 1 and arg[0][0] == "star":
                return self.member_star(arg[0], False, star, cty, wh, lab)
            if len(arg) == 1 and self.hole_of(arg[0]):
                inst, vals = self.hole_of(arg[0])
                self.obl.setdefault(("slot", inst, tuple("CHILD" if contains_sym(v) and v[0] != "span" else v for v in vals)), wh)
                return []
            return [Diff(lab, wh, ". name ( slot ) for a slot given once", self.show(arg))]
        pre = [("p", "<"), ("g", "[", (("id", ("_",)),)), ("p", ">")] + list(self.toks(":: into_vec"))
        got = list(arg)
        if got[:len(pre)] == pre and len(got) == len(pre) + 1 and got[-1][0] == "g" and got[-1][1] == "(":
            box = list(got[-1][2])
            pre2 = list(self.toks(":: std :: boxed :: Box :: new"))
            if box[:len(pre2)] == pre2 and len(box) == len(pre2) + 1 and box[-1][0] == "g" and len(box[-1][2]) == 1 and box[-1][2][0][0] == "g" and box[-1][2][0][1] == "[":
                inner = box[-1][2][0][2]
                if len(inner) == 1 and inner[0][0] == "star":
                    return self.member_star(inner[0], True, star, cty, wh, lab)
        vm = list(self.toks(":: std :: vec !"))
        if got[:len(vm)] == vm and len(got) == len(vm) + 1 and got[-1][0] == "g" and len(got[-1][2]) == 1 and got[-1][2][0][0] == "star":
            return self.member_star(got[-1][2][0], True, star, cty, wh, lab)
        return [Diff(lab, wh, ". name ( vec of the slots ) for a slot given several times", self.show(arg))]

    def toks(self, s):
        from .world import q
        return q(s)

    def member_star(self, st, sep, star, cty, wh, lab):
        if st[1][:2] != ("members", star[1]):
            return [Diff(lab, wh, "all slots of the same name, in order", self.show([st]))]
        out = []
        commas = set()
        for g, its in st[2]:
            its = list(its)
            c = (its[:1] == [("p", ",")], its[-1:] == [("p", ",")] and len(its) > 1)
            if c[0]:
                its = its[1:]
            if c[1]:
                its = its[:-1]
            commas.add(c)
            h = self.hole_of(its[0]) if len(its) == 1 else None
            if h is None:
                out.append(Diff(lab, wh, "the expansion of the slot", self.show(its)))
                continue
            want = [Acc(World(self.I, {}), ("sym", ("elem", st[1]), cty)).pay("Slot", pat=("1", "Element"))]
            pat = self.pattern(h[1], want[0])
            if pat is None:
                out.append(Diff(lab, wh, "the expansion of the slot", self.show(its)))
                continue
            self.obl.setdefault(("slot", h[0], pat), wh)
        if sep and st[3] is not None:
            ok = st[3] == (("p", ","),)
        elif sep:
            ok = commas in ({(True, False), (False, False)}, {(False, True)}, {(False, True), (False, False)})
        else:
            # a list of one
            ok = commas <= {(False, False)} and st[3] in (None, (("p", ","),))
        if not ok:
            out.append(Diff(lab, wh, "slots separated by commas" if sep else "a single slot", "separators %s %s" % (sorted(commas), st[3])))
        return dedupe(out)

    # -------------------------------------------------------------- functions
    def outcome_items(self, s, v, oc):
        """token items produced by a function: list | None (nothing: None / Err)"""
        if oc is not None and s.cells[oc][0] == "ts" and v == ("tup", ()):
            return s.cells[oc][1]
        if v[0] == "ts":
            return v[1]
        if v[0] == "adt" and self.I.p.ty(v[1])["enum"]:
            n = self.I.p.ty(v[1])["variants"][v[2]]["n"]
            if n in ("None", "Err"):
                return None
            if len(v[3]) == 1:
                return self.outcome_items(s, v[3][0], oc)
        if v[0] == "sym":
            return (("u", v[1]),) if v[1][:1] != ("rec",) else (v[1],)
        if v[0] == "tup" and oc is not None:
            return s.cells[oc][1]
        raise Undecided("result of a function")

    def run_fn(self, key, pat=None, name="a"):
        """analyse a function -> (outcomes, cell of the output, symbols)"""
        st, args, oc, bc = entry(self.I, key, (name, "b", "c"))
        child = None
        if pat is not None:
            for i, p in enumerate(pat):
                if p == "CHILD":
                    child = args[i]
                elif p != ("ctx",) and i < len(args) and args[i][0] == "sym":
                    args[i] = p
        for x in args:
            if child is None and x[0] == "sym":
                child = x
        self.N = Namer(self.I, {x[1][1]: x[2] for x in args if x[0] == "sym" and x[1][0] == "in"})
        res = analyse(self.I, key, args, st)
        self.last = (res, oc, list(self.I.stops), self.N)
        return st, res, oc, child

    def check(self, kind, key, pat, valid=None):
        """compare a function that expands a node / an element / a slot"""
        st, res, oc, child = self.run_fn(key, pat)
        stops = list(self.I.stops)
        out = []
        for s, v in res:
            out += self.outcome(kind, key, s, v, oc, child, stops)
        out += self.check_stops(kind, key, child, stops)
        return dedupe(out)

    def spec(self, kind, w, child):
        sp = SP.Spec()
        acc = Acc(w, child)
        if kind == "node":
            its = SP.node(w, acc)
        elif kind == "element":
            its = SP.element(w, acc, sp)
        elif kind == "slot":
            its = SP.slot(w, acc, sp)
        else:
            raise Undecided(kind)
        return its, sp

    def outcome(self, kind, key, s, v, oc, child, stops):
        where = short(key)
        try:
            items = self.outcome_items(s, v, oc)
        except Undecided as x:
            self.undecided.append((where, str(x)))
            return []
        diag = s.cells.get("diag", ("seq", ()))[1]
        mis = misordered((items, diag))
        if mis:
            s = s.copy()
            for m in mis:
                items, diag = subst((items, diag), {m: m[1]})
                s.facts = {subst(k, {m: m[1]}): v for k, v in s.facts.items()}

        def f(w):
            try:
                its, sp = self.spec(kind, w, child)
                its, must, per = flat(its), sp.must, sp.per
            except SpecError as e:
                its, must, per = None, [(e.label, e.what)], None
            errs = self.own_errors(w, diag)
            if must:
                if items is not None and errs == 0 and not self.cerr(items):
                    return [Diff([m[0] for m in must] + ["C03", "C14"], where, "an error: " + must[0][1], "no error", "unreported")]
                return []
            if errs:
                return [Diff(["C28"], where, "no error", "error: " + self.show(diag), "spurious")]
            if items is None:
                return [Diff(["C03", "C07"], where, self.show_spec(its), "nothing", "dropped")]
            out = []
            try:
                out += self.seq(w, w.st.facts, items, its, where, ())
            except Undecided as x:
                self.undecided.append((where, str(x)))
            except SpecError:
                return []
            return out + self.list_errors(w, per, diag, stops, where)
        out = []
        try:
            rs = explore(self.I, s.facts, f)
        except Undecided as x:
            self.undecided.append((where, str(x)))
            return []
        self.worlds += len(rs)
        for w, ds in rs:
            for d in ds:
                d.world = getattr(d, "world", w)
            out += ds
        for m in mis:
            out.append(Diff(["C02", "C07"] if m[1][0] == "groups" else ["C02"], where, "in the order of the input", "in another order: " + self.N.key(m[1])))
        return self.trusted(out, where, s, items, diag)

    def trusted(self, diffs, where, s, items, diag):
        """differences of an outcome that depends on something the analysis cannot describe decide nothing"""
        if diffs:
            t = self.opaque(s, items, diag)
            if t:
                self.undecided.append((where, "depends on " + t))
                return []
        return diffs

    def opaque(self, s, *parts):
        """something the analysis could not describe, among the facts and the output of an outcome"""
        if s.taint:
            return sorted(s.taint)[0]
        un = {p for p in self.I.unmodelled if not known_pure(p)}
        todo = [k for k in s.facts] + list(parts)
        seen = set()
        while todo:
            x = todo.pop()
            if not isinstance(x, (tuple, frozenset)) or vid(x) in seen:
                continue
            seen.add(vid(x))
            if isinstance(x, tuple) and x:
                if x[0] == "havoc":
                    return "a value that is not tracked: " + str(x[1])[:80]
                if x[0] == "call" and len(x) > 1 and x[1] in un:
                    return "a call that is not understood: " + str(x[1])
                if x[0] in ("stuck", "unknown"):
                    return "an effect that is not tracked"
                if x[0] == "star" and len(x) > 2 and x[1][:1] == ("loop",):
                    return "a loop that is not over a list"
            todo.extend(x)
        return None

    def label_world(self, w, child):
        return ""

    def cerr(self, items):
        return any(x[0] == "cerr" for x in walk(items))

    def is_error(self, e):
        if e[0] == "e" and e[1][0] == "diag":
            return e[1][1] not in ("Warning", "warning", "warn")
        return False

    def own_errors(self, w, diag):
        n = 0
        for e in diag:
            if e[0] == "alt":
                n += self.own_errors(w, self.case_items(w, e) or ())
            elif e[0] == "e" and self.is_error(e):
                n += 1
        return n

    # -------------------------------------------------------------- errors of list elements
    def list_errors(self, w, per, diag, stops, where):
        out = []
        srcs = {}
        for src, ety, name, fn, labels in per:
            srcs.setdefault((src, ety), []).append((name, fn, labels))
        done = set()
        for (src, ety), fns in srcs.items():
            stars = tuple(e for e in diag if e[0] == "star" and e[1] == src)
            done.update(stars)
            gst = tuple(e for e in diag if e[0] == "star" and e[1][0] == "groups" and e[1][1] == src)
            done.update(gst)
            k = ("errs", src, tuple(vid(x) for x in stars), tuple(vid(x) for x in gst), tuple(n for n, f, l in fns), self.ctx(w.st.facts, src), vid(tuple((x[0], tuple(sorted(map(str, x[2].facts.items())))) for x in stops)))
            if k not in self.memo:
                try:
                    self.memo[k] = self.list_errors_(w.st.facts, src, ety, fns, stars, gst, stops, where)
                except Undecided as x:
                    self.undecided.append((where, str(x)))
                    self.memo[k] = []
            out += self.memo[k]
        for e in diag:
            if e[0] == "star" and e not in done and any(self.any_error(its) for g, its in e[2]):
                out.append(Diff(["C28"], where, "no error", "errors for elements of " + self.show_v(e[1]), "spurious"))
        return out

    def any_error(self, its):
        return any(self.is_error(e) or e[0] == "star" and any(self.any_error(x) for g, x in e[2]) for e in its)

    def list_errors_(self, facts, src, ety, fns, stars, gst, stops, where):
        elem = ("elem", src)
        rel = []
        for kind, info, s, stack, at in stops:
            if kind != "abort":
                continue
            fs = [(k, f) for k, f in s.facts.items() if any(x[:2] == elem for x in subterms(k))]
            if fs:
                rel.append(sorted_guards(frozenset(fs)))

        def f(w, a):
            want = []
            for name, fn, labels in fns:
                try:
                    fn(w, a)
                except SpecError as e:
                    want.append((e.label, e.what))
            n = 0
            for st in stars:
                its = self.case_items(w, st)
                for e in its or ():
                    if self.any_error([e]):
                        n += 1
            if not n:
                n += sum(1 for g in rel if w.holds(g))
            if want and not n and gst:
                n = -1
            return want, n
        out = []
        for w, (want, n) in self.each(facts, src, ety, f):
            names = ", ".join(x[0] for x in fns)
            if want and n == 0:
                out.append(Diff([want[0][0], "C03", "C14"], where + " / " + names, "an error: " + want[0][1], "no error", "unreported"))
            elif n > 0 and not want:
                d = Diff(["C28"], where + " / " + names, "no error", "an error", "spurious")
                d.world = w
                out.append(d)
        return dedupe(out)

    # -------------------------------------------------------------- the macro itself
    def find_parsed(self, s, items):
        """(place of the parsed children, their type) in an outcome of the whole macro"""
        def keys():
            for k in s.facts:
                yield from subterms(k)
            yield from subterms(items)
        for x in keys():
            if isinstance(x, tuple) and x[:2] == ("call", "syn::parse2") and len(x) >= 3:
                return x[:3]
        return None

    def check_root(self, key, children_ty):
        """the function behind the macro -> diffs"""
        st, res, oc, child = self.run_fn(key)
        stops = list(self.I.stops)
        where = short(key)
        out = []
        vec_ty = None
        for s, v in res:
            try:
                items = self.outcome_items(s, v, oc)
            except Undecided as x:
                self.undecided.append((where, str(x)))
                continue
            base = self.find_parsed(s, items)
            diag = s.cells.get("diag", ("seq", ()))[1]
            if base is None:
                if not self.cerr(items or ()) and not any(self.is_error(e) for e in diag):
                    self.undecided.append((where, "the parsed children are not recognised"))
                continue
            rty = next((k[2] for k in s.facts if k[0] == "var" and k[1] == base), None)
            if rty is None:
                self.undecided.append((where, "result of the parser"))
                continue
            rt = self.I.p.ty(rty)
            okv = next(i for i, v_ in enumerate(rt["variants"]) if v_["n"] == "Ok")

            def f(w):
                r = Acc(w, ("sym", base, rty))
                if r.variant() == "Err":
                    return "err", None, None
                ch = r.pay("Ok")
                src, cty = SP.lst(ch)
                return "ok", src, cty
            for w, (kind, src, cty) in explore(self.I, s.facts, f):
                if kind == "err":
                    if not self.cerr(items) and not any(self.is_error(e) for e in diag):
                        out.append(Diff(["C14", "C03"], where, "the parse error is reported", self.show(items), "unreported"))
                    continue
                out += self.trusted(self.root_world(w.st.facts, items, diag, src, cty, where), where, s, items, diag)
        out += self.check_stops("root", key, child, stops)
        # aborts must be due to slots at the root
        for kind, info, s, stack, at in stops:
            if kind == "abort" and not self.opaque(s) and not any(k[0] == "var" and "Slot" in str(self.variant_names(k, f)) for k, f in s.facts.items()):
                if self.find_parsed(s, ()) is not None and not any(k[0] == "var" and k[1][:2] == ("call", "syn::parse2") and len(k[1]) == 3 and "Err" in self.variant_names(k, f) for k, f in s.facts.items()):
                    out.append(Diff(["C28"], where + " (" + str(at) + ")", "no error", "aborts without a slot", "spurious"))
        return dedupe(out)

    def variant_names(self, k, f):
        vs = self.I.p.ty(k[2])["variants"]
        return [v["n"] for i, v in enumerate(vs) if (i in f[1]) == f[0]]

    def root_world(self, facts, items, diag, src, cty, where):
        out = []
        one = ("len", src)
        first = ("first", src, frozenset((frozenset(),)))

        def f(w):
            if w.is_(one, (1,)):
                a = Acc(w, ("sym", first, cty))
                if a.variant() == "Slot":
                    return "error", None
                return "one", [("N", "node", a.pay("Node"))]
            if w.exists(src, cty, lambda w2, a: a.variant() == "Slot", "slots"):
                return "error", None
            return "many", SP.q("::leptos::prelude::View::new ( ( $c ) )", c=[("S", src, cty, "fragment", SP.comp_child, ("C02", "C27"))])
        def g(w):
            kind, body = f(w)
            errs = self.own_errors(w, diag)
            if kind == "error":
                if not errs and not self.cerr(items):
                    return [Diff(["C07", "C03", "C14"], where, "an error: a slot without a parent", "no error", "unreported")]
                return []
            if errs:
                return [Diff(["C28"], where, "no error", self.show(diag), "spurious")]
            want = flat([("g", "{", SP.q("# [ allow ( unused_braces ) ]") + body)], ("C27", "C02"))
            alt = flat([("g", "{", body)], ("C27", "C02"))
            try:
                d = self.seq(w, w.st.facts, items, want, where, ("C27",))
                if d and not self.seq(w, w.st.facts, items, alt, where, ("C27",)):
                    d = []
                for x in d:
                    x.labels = tuple(sorted(set(x.labels) | {"C27"}))
                return d
            except Undecided as x:
                self.undecided.append((where, str(x)))
            except SpecError:
                pass
            return []
        for w, ds in explore(self.I, facts, g):
            self.worlds += 1
            out += ds
        return out

    def check_stops(self, kind, key, child, stops):
        """no state may panic (aborts with a diagnostic are looked at with the errors)"""
        out = []
        for k, info, s, stack, at in stops:
            if k != "panic":
                continue
            if s.taint:
                self.undecided.append((short(key), "a panic that depends on " + sorted(s.taint)[0]))
            elif not self.impossible(s):
                out.append(Diff(["C11"], "%s (%s)" % (short(key), at), "no panic", "%s in %s" % (info, short(stack[-1]) if stack else "?"), "panic"))
        return out

    def impossible(self, s):
        """the expansion of a component or of a slot is never `None` (it is compared with the
        specification on its own)"""
        for k, f in s.facts.items():
            if k[0] == "var" and k[1][0] == "rec":
                vs = self.I.p.ty(k[2])["variants"]
                live = [v["n"] for i, v in enumerate(vs) if (i in f[1]) == f[0]]
                if live != ["None"]:
                    continue
                for v in k[1][2]:
                    if isinstance(v, tuple) and v[0] == "sym" and self.tag_is(s, v, "Component"):
                        return True
        return False

    def tag_is(self, s, v, want):
        for k, f in s.facts.items():
            if k[0] == "var" and k[1][:len(v[1])] == v[1] and len(k[1]) == len(v[1]) + 1 and self.I.p.ty(k[2])["path"].endswith("::Tag"):
                vs = self.I.p.ty(k[2])["variants"]
                return [x["n"] for i, x in enumerate(vs) if (i in f[1]) == f[0]] == [want]
        return False

def ext_src(e):
    """list a repetition is about"""
    return ("slots", e[1][1]) if e[1][0] == "groups" else e[1]


def chars_of(src):
    """(raw prefix removed, text) of a list of the characters of an identifier"""
    if src[0] != "chars":
        return None
    x, un = src[1], False
    while True:
        if isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        elif isinstance(x, tuple) and x[:2] == ("op", "unraw"):
            x, un = x[2], True
        elif isinstance(x, tuple) and x[:1] == ("sym",):
            x = x[1]
        else:
            return (un, x)


def subterms(x):
    if isinstance(x, tuple):
        yield x
        for y in x:
            yield from subterms(y)
    elif isinstance(x, frozenset):
        for y in x:
            yield from subterms(y)


def walk(items):
    for x in items:
        yield x
        if x[0] == "g":
            yield from walk(x[2])


def dedupe(ds):
    seen, out = set(), []
    for d in ds:
        if d.key() not in seen:
            seen.add(d.key())
            out.append(d)
    return out


def mentions_first(k):
    if isinstance(k, tuple):
        if k[:1] in (("first",), ("tail",)):
            return True
        return any(mentions_first(x) for x in k if isinstance(x, tuple))
    return False


def contains_sym(v):
    bs = set()
    term_bases(v, bs, True)
    return bool(bs)


def short(key):
    import re
    return re.sub(r"<.* as .*>::(\w+)$", lambda m: key, key)[:90]
