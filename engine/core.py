"""Abstract interpreter over monomorphic MIR.

Domain: structured values whose leaves are symbols (access paths into the unknown input),
strings / token streams / sequences as templates, and a store of *facts*: for each decision
the code makes (enum variant, string, token class, emptiness) the set of values still
possible.  Control flow splits on undecided facts, states that agree on everything but one
fact are joined, loops are summarised by analysing one generic iteration ("star" items), so
that the result covers every input of any length.  Nothing is executed, no solver is used.
"""
import sys
from .ir import Prog

sys.setrecursionlimit(20000)

EMPTY = frozenset()
UNIT = ("tup", ())
FALSE = ("int", 0)
TRUE = ("int", 1)

# token classes at a stream position
CLASSES = frozenset(
    "EOF IDENT KW BOOL UNDER STR INT LITO MINUS COLON EQ SEMI DOT "
    "POUND LT OR BRACE BRACKET PAREN PUNCT".split())
TREES = {"Group": ("BRACE", "BRACKET", "PAREN"), "Ident": ("IDENT", "KW", "BOOL", "UNDER"), "Literal": ("STR", "INT", "LITO"),
         "Punct": ("MINUS", "COLON", "EQ", "SEMI", "DOT", "POUND", "LT", "OR", "PUNCT")}
PUNCTS = {ord(c): n for c, n in ((":", "COLON"), ("=", "EQ"), (";", "SEMI"), (".", "DOT"), ("#", "POUND"), ("<", "LT"), ("|", "OR"), ("-", "MINUS"))}
OTHERS = {ord(c): n for c, n in zip(",&!>*+?$@/~^%", ("Comma", "And", "Not", "Gt", "Star", "Plus", "Question", "Dollar", "At", "Slash", "Tilde", "Caret", "Percent"))}
BOOL = frozenset((0, 1))
LENS = frozenset((0, 1, 2, 3, 4))       # 4: four or more
LEN0 = frozenset((0,))
LENS1 = LENS - LEN0
ONE = frozenset((1,))


# library operations without a model whose result is known to differ from their argument in general:
# an expansion that is built from it is not the documented one
PURE = frozenset("""skip take skip_while take_while step_by map_while rev nth nth_back min max min_by max_by min_by_key max_by_key
sort sort_by sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key sort_by_cached_key dedup dedup_by dedup_by_key
reverse truncate retain retain_mut rotate_left rotate_right swap_remove
trim trim_start trim_end trim_matches trim_start_matches trim_end_matches to_uppercase to_ascii_uppercase
rsplit splitn rsplitn repeat""".split())


def known_pure(path):
    return path.split("::")[-1] in PURE


class Limit(Exception):
    pass


class State:
    __slots__ = ("cells", "facts", "next", "taint")

    def __init__(self, cells=None, facts=None, nxt=1, taint=EMPTY):
        self.taint = taint              # what happened on the way here that the analysis cannot describe
        self.cells = cells if cells is not None else {}
        self.facts = facts if facts is not None else {}
        self.next = nxt

    def copy(self):
        return State(dict(self.cells), dict(self.facts), self.next, self.taint)

    def alloc(self, v):
        i = self.next
        self.next += 1
        self.cells[i] = v
        return i


def is_sym(v):
    return isinstance(v, tuple) and v and v[0] == "sym"


def universe(I, key):
    k = key[0]
    if k == "var":
        return frozenset(range(len(I.p.ty(key[2])["variants"])))
    if k == "b":
        return BOOL
    if k == "tok":
        return CLASSES
    if k == "len":
        if key[1][:1] == ("chars",) and pred_of_base(I, None, ("b", "strpred", "is_empty", (key[1][1],), None)) == 0:
            return LENS1
        return LENS1 if key[1] in I.ne or key[1][:1] == ("members",) else LENS
    return None


def first_char(k):
    """the string whose first character this is"""
    if k[:1] == ("first",) and k[1][:1] == ("chars",) and k[2] in (frozenset((EMPTY,)), gid(k[1], (EMPTY,))):
        return (k[1][1],)
    return None


_info = {}
_NOBASE = frozenset()


def info(x):
    """(unknowns mentioned anywhere in x, markers of open loops anywhere in x), remembered per object"""
    r = _info.get(id(x))
    if r is not None:
        return r[1]
    bs, op = _NOBASE, False
    t = isinstance(x, tuple)
    if t and len(x) >= 2 and isinstance(x[0], str):
        if x[0] in BASES:
            bs = frozenset(((x[0], x[1]),))
        elif x[0] == "open" or x[0] == "openmut":
            op = True
    for y in x:
        if isinstance(y, (tuple, frozenset)) and y:
            b2, o2 = info(y)
            op = op or o2
            if b2 is not bs and b2:
                bs = b2 if not bs else (bs if b2 <= bs else bs | b2)
    r = (bs, op)
    _info[id(x)] = (x, r)
    return r


_vids = {}
_vid_of = {}


def vid(v):
    """a number for a value: equal values have equal numbers"""
    r = _vids.get(id(v))
    if r is not None:
        return r[1]
    n = _vid_of.get(v)
    if n is None:
        n = len(_vid_of)
        _vid_of[v] = n
    _vids[id(v)] = (v, n)
    return n


def cells_key(cells):
    return frozenset([(c, vid(v)) for c, v in cells.items()])


def subst(x, m):
    """replace sub-terms of a nested tuple by the mapping m"""
    bs = set()
    for k in m:
        if isinstance(k, tuple) and len(k) >= 2 and k[0] in BASES:
            bs.add((k[0], k[1]))
        elif isinstance(k, tuple) and k and k[0] == "sym" and len(k[1]) >= 2 and k[1][0] in BASES:
            bs.add((k[1][0], k[1][1]))
        else:
            bs = None
            break
    return _subst(x, m, bs, {})


def _subst(x, m, bs, memo):
    if not isinstance(x, (tuple, frozenset)) or not x:
        return x
    if bs is not None and bs.isdisjoint(info(x)[0]):
        return x
    i = id(x)
    r = memo.get(i)
    if r is not None:
        return r[1]
    if isinstance(x, tuple):
        if x in m:
            y = m[x]
        elif len(x) > 2 and isinstance(x[0], str) and x[0] in BASES and x[:2] in m:
            y = m[x[:2]] + tuple([_subst(z, m, bs, memo) for z in x[2:]])
        else:
            y = tuple([_subst(z, m, bs, memo) for z in x])
    else:
        y = frozenset([_subst(z, m, bs, memo) for z in x])
    memo[i] = (x, y)
    return y


def contains(x, pred):
    if pred(x):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(contains(y, pred) for y in x)
    return False


def short(s, n=200):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """one call being modelled"""
    __slots__ = ("path", "inst", "targs", "rt", "at", "argtys", "fr", "trait", "virtual")

    def __init__(self, path, inst, targs, rt, at, argtys, fr, trait):
        self.path, self.inst, self.targs, self.rt = path, inst, targs, rt
        self.at, self.argtys, self.fr, self.trait = at, argtys, fr, trait


class Frame:
    __slots__ = ("body", "key", "base", "stack")

    def __init__(self, body, key, base, stack):
        self.body, self.key, self.base, self.stack = body, key, base, stack


class Interp:
    def __init__(self, prog, models, cuts=()):
        self.p = prog
        self.models = models            # function(I, st, ctx, args) -> list[(st, val)] | None
        self.cut = cuts                 # function(I, st, ctx, args) -> same | None
        self.stops = []                 # (kind, info, state, stack)
        self.consts = {}                # id -> value
        self.const_ids = {}
        self.unmodelled = {}
        self.spans = False              # keep the spans of identifiers and literals in tokens
        self.notes = []
        self.calls_seen = {}
        self.loops_seen = {}
        self.havocs = 0
        self.unroll = frozenset()       # loops that are followed for a few rounds instead of being summarised
        self.loops = []                 # summarised loops: (id, entry, header, plan, iterations, first pass)
        self.steps = 0
        self.max_steps = 2_000_000
        self.phis = {}
        self.visited = set()
        self.recs = {}
        self.nrec = 0
        self.summ = {}
        self._fb = {}
        # lists of the syntax tree that the parser never leaves empty (by element type; the
        # parser analysis checks where they are built)
        self.ne_tys = {"proc_macro2::Span"}
        self.ne = set()
        self.chars = {}
        self.name_fields = {}
        self.ne_str = set()     # strings that are never empty (likewise)

    # ---------------------------------------------------------------- facts
    def fact(self, st, key):
        f = st.facts.get(key)
        if f is not None:
            return f
        u = universe(self, key)
        if u is not None:
            return (True, u)
        return (False, EMPTY)

    def preds_on(self, st, sv):
        return [(k, v) for k, v in st.facts.items() if k[0] == "b" and k[1] == "strpred" and k[3] == sv]

    def str_feasible(self, st, sv, lit):
        if sv and isinstance(sv[0], str) and not lit.startswith(sv[0]):
            return False
        if sv and isinstance(sv[0], tuple):
            a = sv[0]
            if a[:2] == ("op", "unraw") and len(a[2]) == 1:
                a = a[2][0]
            if isinstance(a, tuple) and a[0] == "sym" and isinstance(a[1], tuple) and a[1][:1] == ("text",):
                # an identifier or a number
                if not lit or not (lit[0].isalnum() or lit[0] in "_$'\"" or lit[0] == "-" and lit[1:2].isdigit()):
                    return False
        for k, v in self.preds_on(st, sv):
            want = 1 if eval_pred(k[2], lit, k[4]) else 0
            if want not in v[1]:
                return False
        return True

    def test(self, st, key, T):
        """split st on key ∈ T -> [(truth, st)]"""
        T = frozenset(T)
        if key[:3] == ("b", "strpred", "starts_with") and key[4] == "r#" and len(key[3]) == 1 and isinstance(key[3][0], tuple) \
                and key[3][0][0] == "sym" and key[3][0][1][:1] == ("text",):
            # a raw identifier is one that removing the prefix changes
            return [(t if 1 in T else not t, s) for t, s in self.test(st, ("b", "streq", frozenset((key[3], (("op", "unraw", key[3], ()),)))), (0,))]
        if key[0] == "var" and key[1][:1] == ("at",) and len(key[1]) == 3 and self.p.ty(key[2])["path"] == "proc_macro2::TokenTree":
            vs = self.p.ty(key[2])["variants"]
            return self.test(st, ("tok",) + key[1][1:], frozenset(c for i in T for c in TREES[vs[i]["n"]]))
        if key[0] == "var" and key[1][:1] == ("spacing",) and key[1][1][:1] == ("at",):
            vs = self.p.ty(key[2])["variants"]
            return self.test(st, ("b", "joint", key[1][1]), frozenset(1 if vs[i]["n"] == "Joint" else 0 for i in T))
        if key[0] == "int" and isinstance(key[1], tuple) and key[1][:1] == ("punctchar",) and key[1][1][:1] == ("at",):
            at = key[1][1]
            out = []
            for tr, s in self.test(st, ("tok",) + at[1:], frozenset(PUNCTS[n] for n in T if n in PUNCTS)):
                rest = [s] if not tr else []
                if tr:
                    out.append((True, s))
                for n in sorted(T):
                    nxt = []
                    for x in rest if n not in PUNCTS else ():
                        for t2, y in self.test(x, ("tok",) + at[1:], ("PUNCT",)):
                            if not t2:
                                nxt.append(y)
                                continue
                            for t3, z in self.test(y, ("b", "punct", at, OTHERS.get(n, n)), (1,)):
                                if t3:
                                    out.append((True, z))
                                else:
                                    nxt.append(z)
                    if n not in PUNCTS:
                        rest = nxt
                out += [(False, x) for x in rest]
            return out
        if key[0] == "int" and isinstance(key[1], tuple):
            sv = first_char(key[1])
            if sv is not None and all(isinstance(n, int) and 0 <= n < 128 for n in T):
                return self.test(st, ("b", "strpred", "starts_in", sv, "".join(map(chr, sorted(T)))), (1,))
        if key[0] == "str" and len(key[1]) == 1 and key[1][0][:2] == ("op", "before"):
            # the part of a string before a separator is x: the string starts with x and the separator, or is x
            _, _, at, (c,) = key[1][0]
            out, work = [], [st]
            for x in sorted(T):
                nxt = []
                if c in x:
                    continue
                for s in work:
                    for tr, s2 in self.test(s, ("b", "strpred", "starts_with", at, x + c), (1,)):
                        if tr:
                            out.append((True, s2))
                            continue
                        for tr2, s3 in self.test(s2, ("b", "strpred", "contains", at, c), (1,)):
                            if tr2:
                                nxt.append(s3)
                                continue
                            for tr3, s4 in self.test(s3, ("str", at), (x,)):
                                if tr3:
                                    out.append((True, s4))
                                else:
                                    nxt.append(s4)
                work = nxt
            return out + [(False, s) for s in work]
        if key[0] == "len" and key[1][:1] == ("tail",) and len(key[1]) == 3 and key[1][2] == frozenset((EMPTY,)):
            # all elements but the first (there is one)
            n = max(LENS)
            if (n in T) == (n - 1 in T):
                return self.test(st, ("len", key[1][1]), frozenset(x for x in LENS if x and x - 1 in T))
        if key[0] == "b" and key[1] == "nonempty":
            return self.test(st, ("len", key[2]), frozenset(n for n in LENS if (1 if n else 0) in T))
        if key[0] == "b" and key[1] == "exists":
            pol, S = self.fact(st, ("len", key[2]))
            if pol and S == LEN0:
                return [(0 in T, st)]
            if key not in st.facts:
                out = []
                for tr, s in self.test_(st, key, T):
                    if tr == (1 in T):
                        out += [(tr, s2) for t2, s2 in self.test(s, ("len", key[2]), LENS1) if t2]
                    else:
                        out.append((tr, s))
                return out
        return self.test_(st, key, T)

    def test_(self, st, key, T):
        # derived strings over a known base
        if key[0] == "str":
            sv = key[1]
            c = const_str(sv)
            if c is not None:
                return [(c in T, st)]
            base, fn = str_base(sv)
            if base is not None:
                pol, S = self.fact(st, ("str", base))
                if pol:
                    T2 = frozenset(x for x in S if fn(x) in T)
                    return self.test(st, ("str", base), T2)
            T = frozenset(x for x in T if self.str_feasible(st, sv, x))
        elif key[0] == "b" and key[1] == "strpred":
            c = const_str(key[3])
            if c is not None:
                r = 1 if eval_pred(key[2], c, key[4]) else 0
                return [(r in T, st)]
            pol, S = self.fact(st, ("str", key[3]))
            if pol:
                want = frozenset(x for x in S if (1 if eval_pred(key[2], x, key[4]) else 0) in T)
                return self.test(st, ("str", key[3]), want)
            r = pred_of_base(self, st, key)
            if r is None:
                r = pred_of_preds(self, st, key)
            if r is not None:
                return [(r in T, st)]
        pol, S = self.fact(st, key)
        if pol:
            yes, no = S & T, S - T
            out = []
            if yes:
                if no:
                    s2 = st.copy()
                    s2.facts[key] = (True, yes)
                    out.append((True, s2))
                else:
                    out.append((True, st))
            if no:
                if yes:
                    s2 = st.copy()
                    s2.facts[key] = (True, no)
                    out.append((False, s2))
                else:
                    out.append((False, st))
            return out
        new = T - S
        if not new:
            return [(False, st)]
        a, b = st.copy(), st.copy()
        a.facts[key] = (True, new)
        b.facts[key] = (False, S | T)
        return [(True, a), (False, b)]

    def assume(self, st, key, T):
        return [s for t, s in self.test(st, key, T) if t]

    def truth(self, st, v):
        """v: bool value -> [(bool, st)]"""
        v = self.deref(st, v)
        if v[0] == "int":
            return [(bool(v[1]), st)]
        if v[0] == "in":
            return self.test(st, v[1], v[2])
        if v[0] == "not":
            return [(not t, s) for t, s in self.truth(st, v[1])]
        if v[0] == "and":
            out = []
            for t, s in self.truth(st, v[1]):
                if not t:
                    out.append((False, s))
                else:
                    out.extend(self.truth(s, v[2]))
            return out
        if v[0] == "or":
            out = []
            for t, s in self.truth(st, v[1]):
                if t:
                    out.append((True, s))
                else:
                    out.extend(self.truth(s, v[2]))
            return out
        if v[0] == "sym":
            return self.test(st, ("b", "val", v[1]), (1,))
        return self.test(st, ("b", "val", v), (1,))

    # ---------------------------------------------------------------- memory
    def const_ref(self, v):
        i = self.const_ids.get(v)
        if i is None:
            i = ("const", len(self.const_ids))
            self.const_ids[v] = i
            self.consts[i] = v
        return ("ref", i, ())

    def cell(self, st, c):
        if isinstance(c, tuple) and c[0] == "const":
            return self.consts[c]
        return st.cells.get(c, ("uninit",))

    def load(self, st, c, path):
        v = self.cell(st, c)
        for e in path:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        k = v[0]
        if e[0] == "v":
            if k == "sym":
                return ("sym", v[1] + (e,), v[2])
            return v
        if e[0] == "f":
            i = e[1]
            if k == "adt":
                return v[3][i] if i < len(v[3]) else ("uninit",)
            if k in ("tup",):
                return v[1][i] if i < len(v[1]) else ("uninit",)
            if k == "clo":
                return v[2][i]
            if k == "sym":
                if v[2] is not None and self.is_name(v[2], i):
                    self.ne_str.add(v[1] + (("f", i),))
                return ("sym", v[1] + (("f", i),), e[2] if len(e) > 2 else None)
            if k == "uninit":
                return v
            if k == "ref" and i == 0:      # pointer inside of a Box / Unique / NonNull
                return v
            return ("sym", ("proj", v, i), e[2] if len(e) > 2 else None)
        if e[0] == "it" and v[0] == "seq" and e[1] < len(v[1]) and v[1][e[1]][0] == "e":
            return v[1][e[1]][1]
        if e[0] == "i":
            items = self.items(st, v)
            n = e[1]
            if items is not None and isinstance(n, int) and all(x[0] == "e" for x in items[:n + 1]) and n < len(items):
                return items[n][1]
            if items is not None and n == 0 and len(items) == 1 and items[0][0] == "star" and identity_star(items[0]):
                # the bounds have been checked
                src = items[0][1]
                return subst(items[0][2][0][1][0][1], {("elem", src): ("first", src, gid(src, (EMPTY,)))})
            if items is not None and is_sym(n) and n[1][:1] == ("ix",) and len(items) == 1 and items[0][0] == "star" \
                    and identity_star(items[0]) and ("elem", items[0][1]) == n[1][1]:
                return items[0][2][0][1][0][1]
            ety = self.elem_ty(v)
            if v[0] == "sym":
                return ("sym", v[1] + (("i", n),), ety)
            return ("sym", ("idx", v, n), ety)
        if e[0] == "ci":
            items = self.items(st, v)
            n = e[1]
            if items is not None and len(items) == 1 and items[0][0] == "star" and identity_star(items[0]) and n == (1 if e[3] else 0):
                # the pattern has established that there is such an element
                src = items[0][1]
                x = items[0][2][0][1][0][1]
                if e[3] and not self.only_one(st, src):
                    return subst(x, {("elem", src): ("last", src)})
                return subst(x, {("elem", src): ("first", src, gid(src, (EMPTY,)))})
            if items is not None and all(x[0] == "e" for x in items):
                j = len(items) - n if e[3] else n
                if 0 <= j < len(items):
                    return items[j][1]
            return ("sym", ("idx", v, ("ci",) + tuple(e[1:])), self.elem_ty(v))
        return ("sym", ("proj", v, e), None)

    def only_one(self, st, src):
        pol, S = self.fact(st, ("len", src))
        return pol and S <= frozenset((0, 1))

    def is_name(self, ty, i):
        """field i of type ty is the text of a name"""
        r = self.name_fields.get((ty, i))
        if r is None:
            t = self.p.ty(ty)
            r = False
            if t["k"] == "adt" and not t["enum"] and "proc_macro2::Span" in str([self.p.ty(f[1])["s"] for f in t["variants"][0]["f"]]) and i < len(t["variants"][0]["f"]):
                r = self.p.ty(t["variants"][0]["f"][i][1])["s"].endswith("string::String")
            self.name_fields[(ty, i)] = r
        return r

    def elem_ty(self, v):
        if v[0] == "sym" and v[2] is not None:
            t = self.p.ty(v[2])
            if t["k"] in ("slice", "array"):
                return t["to"]
            if t["k"] == "adt" and t["args"]:
                return t["args"][0]
        if v[0] == "seq":
            return v[2] if len(v) > 2 else None
        return None

    def inject(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = v[0]
        if e[0] == "v":
            if k == "sym":
                v = self.expand_variant(v, e[1])
            return self.inject(st, v, rest, val)
        if e[0] == "f":
            i = e[1]
            if k == "sym":
                v2 = self.expand_struct(v)
                if v2 is None:
                    return ("sym", ("havoc", "inject", v[1]), v[2])
                v, k = v2, v2[0]
            if k == "uninit":
                fs = [("uninit",)] * (i + 1)
                v, k = ("tup", tuple(fs)), "tup"
            if k == "adt":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(("uninit",))
                fs[i] = self.inject(st, fs[i], rest, val)
                return ("adt", v[1], v[2], tuple(fs))
            if k == "tup":
                fs = list(v[1])
                while len(fs) <= i:
                    fs.append(("uninit",))
                fs[i] = self.inject(st, fs[i], rest, val)
                return ("tup", tuple(fs))
            if k == "clo":
                fs = list(v[2])
                fs[i] = self.inject(st, fs[i], rest, val)
                return ("clo", v[1], tuple(fs))
        if e[0] in ("i", "it") and k == "seq":
            items = v[1]
            n = e[1]
            if isinstance(n, int) and n < len(items) and (all(x[0] == "e" for x in items[:n + 1]) or e[0] == "it" and items[n][0] == "e"):
                it = list(items)
                it[n] = ("e", self.inject(st, it[n][1], rest, val))
                return ("seq", tuple(it)) + tuple(v[2:])
        self.havocs += 1
        st.taint |= frozenset(("an update of a part that is not tracked",))
        return ("sym", ("havoc", "inject", v), None)

    def expand_struct(self, v):
        """a symbol of struct type as an explicit adt of sub-symbols"""
        if v[2] is None:
            return None
        t = self.p.ty(v[2])
        if t["k"] == "tuple":
            return ("tup", tuple(("sym", v[1] + (("f", i),), ft) for i, ft in enumerate(t["f"])))
        if t["k"] != "adt":
            return None
        if t["enum"]:
            last = v[1][-1] if v[1] else None
            if isinstance(last, tuple) and last and last[0] == "v":
                return self.expand_variant(("sym", v[1][:-1], v[2]), last[1])
            return None
        fs = t["variants"][0]["f"]
        return ("adt", v[2], 0, tuple(("sym", v[1] + (("f", i),), f[1]) for i, f in enumerate(fs)))

    def expand_variant(self, v, k):
        t = self.p.ty(v[2]) if v[2] is not None else None
        if t is None or t["k"] != "adt" or not t["enum"]:
            return v
        fs = t["variants"][k]["f"]
        if t["path"] == "proc_macro2::TokenTree" and v[1][:1] == ("at",):
            # the same token, with its kind known
            return ("adt", v[2], k, tuple(("sym", v[1], f[1]) for f in fs))
        return ("adt", v[2], k, tuple(("sym", v[1] + (("v", k), ("f", i)), f[1]) for i, f in enumerate(fs)))

    def store(self, st, c, path, val):
        if isinstance(c, tuple) and c[0] == "const":
            return
        if not path:
            st.cells[c] = val
        else:
            st.cells[c] = self.inject(st, self.cell(st, c), path, val)

    def deref(self, st, v):
        n = 0
        while v[0] == "ref" and n < 20:
            v = self.load(st, v[1], v[2])
            n += 1
        while v[0] == "sym" and v[2] is not None and self.p.ty(v[2])["k"] == "ref":
            v = ("sym", v[1] + (("*",),), self.p.ty(v[2])["to"])
        return v

    def loc_of(self, st, v):
        """(cell, path) that reference v points to, following reference chains"""
        n = 0
        while v[0] == "ref" and n < 20:
            w = self.load(st, v[1], v[2])
            if w[0] != "ref":
                return v[1], v[2]
            v = w
            n += 1
        return None

    def set_through(self, st, v, val):
        l = self.loc_of(st, v)
        if l is not None:
            self.store(st, l[0], l[1], val)
            return True
        return False

    def resolve(self, st, fr, pl):
        """place -> (cell, path, direct) ; direct is a value if the place derefs a non-reference"""
        c, path = fr.base + (pl[0],) if False else (fr.base, pl[0]), ()
        direct = None
        for e in pl[1]:
            if e[0] == "*":
                v = direct if direct is not None else self.load(st, c, path)
                if v[0] == "ref":
                    c, path, direct = v[1], v[2], None
                elif v[0] == "sym":
                    t = self.p.ty(v[2]) if v[2] is not None else None
                    if t is not None and t["k"] in ("ref", "ptr"):
                        cell = ("d", v[1])
                        if cell not in st.cells:
                            st.cells[cell] = ("sym", v[1] + (("*",),), t["to"])
                        c, path, direct = cell, (), None
                    elif t is not None and t["k"] == "adt" and t["path"].endswith("boxed::Box"):
                        cell = ("d", v[1])
                        if cell not in st.cells:
                            st.cells[cell] = ("sym", v[1], t["args"][0])
                        c, path, direct = cell, (), None
                    else:
                        direct = v
                elif v[0] == "box":
                    c, path, direct = v[1], (), None
                else:
                    direct = v
            elif e[0] == "i":
                iv = self.load(st, (fr.base, e[1]), ())
                n = iv[1] if iv[0] == "int" else iv
                e2 = ("i", n)
                if direct is not None:
                    direct = self.project(st, direct, e2)
                else:
                    path = path + (e2,)
            else:
                e2 = tuple(e)
                if direct is not None:
                    direct = self.project(st, direct, e2)
                else:
                    path = path + (e2,)
        return c, path, direct

    def read_place(self, st, fr, pl):
        c, path, direct = self.resolve(st, fr, pl)
        if direct is not None:
            return direct
        return self.load(st, c, path)

    def write_place(self, st, fr, pl, val):
        c, path, direct = self.resolve(st, fr, pl)
        if direct is not None:
            return
        self.store(st, c, path, val)

    # ---------------------------------------------------------------- constants / operands
    def const_val(self, j):
        k = j["k"]
        if k == "int":
            return ("int", j["v"])
        if k == "str":
            return ("str", (j["v"],) if j["v"] else ())
        if k == "ref":
            return self.const_ref(self.const_val(j["v"]))
        if k == "arr":
            return ("seq", tuple(("e", self.const_val(x)) for x in j["v"]))
        if k == "adt":
            t = self.p.ty(j["t"])
            fs = tuple(self.const_val(x) for x in j["v"])
            if t["k"] == "tuple":
                return ("tup", fs)
            return ("adt", j["t"], j["var"], fs)
        if k == "fn":
            return ("fn", j["t"])
        if k == "closure":
            return ("clo", j["t"], ())
        if k == "static":
            return ("sym", ("static", j["v"]), j["t"])
        t = self.p.ty(j["t"]) if "t" in j else None
        if t is not None and t["k"] == "adt" and not t["enum"] and len(t["variants"]) == 1 and not t["variants"][0]["f"]:
            return ("adt", j["t"], 0, ())
        return ("sym", ("constunk", j.get("t"), j.get("why")), j.get("t"))

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const_val(o[1])
        v = self.read_place(st, fr, o[1])
        if o[0] == "m" and not o[1][1]:
            st.cells.pop((fr.base, o[1][0]), None)
        return v

    # ---------------------------------------------------------------- sequences
    def items(self, st, v):
        """item tuple of a sequence-like value, or None"""
        v = self.deref(st, v)
        if v[0] in ("seq", "ts", "iter"):
            return v[1]
        if v[0] == "sym":
            ety = self.elem_ty(v)
            if ety is not None and self.p.ty(ety)["s"] in self.ne_tys:
                self.ne.add(v[1])
            return (("star", v[1], ((EMPTY, (("e", ("sym", ("elem", v[1]), ety)),)),), None),)
        if v[0] == "adt":
            t = self.p.ty(v[1])
            if t["path"].endswith("punctuated::Punctuated"):
                m = [f for f in v[3] if f[0] == "mod"]
        return None

    # ---------------------------------------------------------------- statements
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = r[1]
            c, path, direct = self.resolve(st, fr, pl)
            if direct is not None:
                return direct
            return ("ref", c, path)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return v
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            if r[1] == "tuple":
                return ("tup", ops)
            if r[1] == "array":
                return ("seq", tuple(("e", o) for o in ops))
            if r[1] == "adt":
                return ("adt", r[3][0], r[3][1], ops)
            if r[1] == "closure":
                return ("clo", r[3][0], ops)
            return ("sym", ("agg", r[1], ops), None)
        if k == "disc":
            v = self.read_place(st, fr, r[1])
            return self.discriminant(st, v)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if a[0] == "int":
                    return ("int", 1 - a[1]) if a[1] in (0, 1) else ("sym", ("not", a), None)
                return neg(a)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            if a[0] == "int" and r[1] == "Neg":
                return ("int", -a[1])
            return ("sym", ("un", r[1], a), None)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return ("seq", tuple(("e", v) for _ in range(r[2])))
            return ("sym", ("repeat", v), None)
        if k == "tls":
            return ("sym", ("tls", r[1]), None)
        return ("sym", ("rv", short(r)), None)

    def discriminant(self, st, v):
        if v[0] == "adt":
            t = self.p.ty(v[1])
            return ("int", t["variants"][v[2]]["d"])
        if v[0] == "sym":
            if v[2] is not None and self.p.ty(v[2])["k"] == "adt" and self.p.ty(v[2])["enum"]:
                t = self.p.ty(v[2])
                if len(t["variants"]) == 1:
                    return ("int", t["variants"][0]["d"])
                return ("disc", v[1], v[2])
        if v[0] == "ident" or v[0] == "uninit":
            pass
        return ("sym", ("disc", v), None)

    def length(self, st, v):
        items = self.items(st, v)
        if items is None:
            v = self.deref(st, v)
            if v[0] == "str":
                c = const_str(v[1])
                if c is not None:
                    return ("int", len(c.encode()))
                return ("sym", ("strlen", v[1]), None)
            return ("sym", ("len", v), None)
        if all(x[0] == "e" for x in items):
            return ("int", len(items))
        if len(items) == 1 and items[0][0] == "star" and one_to_one(items[0]):
            return ("len", items[0][1], 0)
        return ("len", ("items", items), 0)

    def binop(self, st, op, a, b):
        if op.endswith("WithOverflow"):
            r = self.binop(st, op[:-len("WithOverflow")], a, b)
            return ("tup", (r, FALSE))
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            try:
                if op in ("Add", "AddUnchecked"):
                    return ("int", x + y)
                if op in ("Sub", "SubUnchecked"):
                    return ("int", x - y)
                if op in ("Mul", "MulUnchecked"):
                    return ("int", x * y)
                if op == "Div":
                    return ("int", x // y)
                if op == "Rem":
                    return ("int", x % y)
                if op == "BitAnd":
                    return ("int", x & y)
                if op == "BitOr":
                    return ("int", x | y)
                if op == "BitXor":
                    return ("int", x ^ y)
                if op in CMP:
                    return ("int", int(CMP[op](x, y)))
            except ZeroDivisionError:
                pass
        if op in CMP:
            flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
            if a[0] == "int" and b[0] != "int":
                a, b, op = b, a, flip[op]
            if b[0] == "int":
                n = b[1]
                if a[0] == "len":
                    off = a[2]
                    m = n - off
                    if a[1][:1] == ("items",) and len(a[1][1]) == 1 and a[1][1][0][0] == "star" and m in (0, 1):
                        x = a[1][1][0]
                        pos = (op, m) in (("Gt", 0), ("Ne", 0), ("Ge", 1))
                        if pos or (op, m) in (("Eq", 0), ("Le", 0), ("Lt", 1)):
                            ek = exists_key(self, x[1], frozenset(g for g, its in x[2] if its))
                            return ("in", ek, frozenset((1 if pos else 0,)))
                    if 0 <= m < 4 or m == 4 and op in ("Lt", "Ge"):
                        cls = {c for c in LENS if CMP[op](c if c < 4 else 10 ** 6, m)}
                        return ("in", ("len", a[1]), frozenset(cls))
                    if m < 0:
                        return ("int", int(CMP[op](5, m)))
                    return ("in", ("b", "lencmp", op, a[1], m), frozenset((1,)))
                if a[0] == "phi":
                    return self.phi_cmp(st, a, op, n)
                if is_sym(a) and a[1][:1] == ("ix",):
                    e = a[1][1]
                    if e[0] == "first":
                        return TRUE if CMP[op](0, n) else FALSE
                    if e[0] == "elem" and e[1][:1] != ("tail",):
                        return self.phi_cmp(st, ("phi", ("enum", e[1]), "count"), op, n)
                    if n <= 0 or n == 1 and op in ("Lt", "Ge"):
                        return TRUE if CMP[op](1, n) else FALSE
                if is_boolish(a) and n in (0, 1) and op in ("Eq", "Ne"):
                    return a if (n == 1) == (op == "Eq") else neg(a)
                if a[0] == "disc":
                    t = self.p.ty(a[2])
                    vs = frozenset(i for i, v in enumerate(t["variants"]) if CMP[op](v["d"], n))
                    return ("in", ("var", a[1], a[2]), vs)
                if a[0] in ("sym", "char") and op in ("Eq", "Ne"):
                    r = ("in", ("int", a[1]), frozenset((n,)))
                    return r if op == "Eq" else neg(r)
                if a[0] == "sym" and first_char(a[1]) is not None and 0 <= n <= 127:
                    r = ("in", ("int", a[1]), frozenset(range(n + 1 if op in ("Le", "Gt") else n)))
                    return r if op in ("Le", "Lt") else neg(r)
                return ("in", ("b", "cmp", op, a, n), frozenset((1,)))
            if op in ("Lt", "Ge") and is_sym(a) and a[1][:1] == ("ix",) and b == ("len", a[1][1][1], 0):
                return TRUE if op == "Lt" else FALSE
            if a == b and op in ("Eq", "Le", "Ge"):
                return TRUE
            if a == b and op in ("Ne", "Lt", "Gt"):
                return FALSE
            if a[0] == "disc" and b[0] == "disc":
                return ("in", ("b", "cmp", op, a, b), frozenset((1,)))
            if op in ("Eq", "Ne"):
                r = ("in", ("b", "eq", frozenset((a, b))), frozenset((1,)))
                return r if op == "Eq" else neg(r)
            return ("in", ("b", "cmp", op, a, b), frozenset((1,)))
        if op in ("BitAnd", "BitOr") and (is_boolish(a) or is_boolish(b)):
            if a[0] == "int":
                a, b = b, a
            if b[0] == "int":
                if op == "BitAnd":
                    return a if b[1] else FALSE
                return TRUE if b[1] else a
            return ("and" if op == "BitAnd" else "or", a, b)
        if op == "Sub" and a[0] == "len" and b[0] == "int":
            return ("len", a[1], a[2] - b[1])
        if op == "Add" and a[0] == "len" and b[0] == "int":
            return ("len", a[1], a[2] + b[1])
        if op in ("Add", "AddUnchecked") and a[0] == "phi" and b[0] == "int":
            return ("phiadd", a[1], b[1])
        return ("sym", ("bin", op, a, b), None)

    def phi_cmp(self, st, a, op, n):
        """comparison of a loop counter (0 on entry, incremented) with a constant"""
        lid = a[1]
        if op in ("Gt", "Ne") and n == 0 or op == "Ge" and n == 1:
            return ("in", ("b", "notfirst", lid), frozenset((1,)))
        if op in ("Eq", "Le") and n == 0 or op == "Lt" and n == 1:
            return ("in", ("b", "notfirst", lid), frozenset((0,)))
        return ("in", ("b", "cmp", op, a, n), frozenset((1,)))

    # ---------------------------------------------------------------- joins
    def merge(self, lst, keyf, getst, rebuild):
        """join outcomes equal but for the set of one fact"""
        groups = {}
        order = []
        for o in lst:
            k = keyf(o)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        out = []
        for k in order:
            g = groups[k]
            if len(g) > 1:
                g = self._merge_group(g, getst, rebuild)
            out.extend(g)
        return out

    def _merge_group(self, g, getst, rebuild):
        out = []
        for m, idx in self.join_many([getst(o).facts for o in g]):
            o = g[idx[0]]
            if len(idx) == 1:
                out.append(o)
                continue
            s = getst(o)
            out.append(rebuild(o, State(s.cells, m, max(getst(g[i]).next for i in idx),
                                        EMPTY.union(*[getst(g[i]).taint for i in idx]))))
        return out

    def join_many(self, dicts):
        """union of fact sets, exact joins only -> [(facts, indices joined)]"""
        items = [(dict(d), [i]) for i, d in enumerate(dicts)]
        changed = True
        while changed and len(items) > 1:
            changed = False
            keys = []
            seen = set()
            for d, _ in items:
                for k in d:
                    if k not in seen:
                        seen.add(k)
                        keys.append(k)
            fzs = [frozenset(d.items()) for d, _ in items]
            uniq = {}
            for (d, ix), f in zip(items, fzs):
                if f in uniq:
                    uniq[f][1].extend(ix)
                    changed = True
                else:
                    uniq[f] = (d, list(ix), f)
            items = [(d, ix) for d, ix, _ in uniq.values()]
            fzs = [f for _, _, f in uniq.values()]
            if len(items) < 2:
                break
            for k in keys:
                groups = {}
                for n, (d, ix) in enumerate(items):
                    r = fzs[n] - {(k, d[k])} if k in d else fzs[n]
                    groups.setdefault(r, []).append(n)
                if len(groups) == len(items):
                    continue
                changed = True
                ni, nf = [], []
                for r, ns in groups.items():
                    if len(ns) == 1:
                        ni.append(items[ns[0]])
                        nf.append(fzs[ns[0]])
                        continue
                    u = None
                    ix = []
                    for n in ns:
                        f = self.fact_of(items[n][0], k)
                        u = f if u is None else union_fact(u, f)
                        ix.extend(items[n][1])
                    d = dict(items[ns[0]][0])
                    un = universe(self, k)
                    if u == (False, EMPTY) or (un is not None and u[0] and u[1] == un):
                        d.pop(k, None)
                    else:
                        d[k] = u
                    ni.append((d, ix))
                    nf.append(frozenset(d.items()))
                items, fzs = ni, nf
            if not changed and len(items) < 60:
                # one set of facts inside another
                keep = []
                for n, (d, ix) in enumerate(items):
                    for m, (e, jx) in enumerate(items):
                        if m != n and e is not None and len(e) < len(d) and self._subsumes(e, d):
                            jx.extend(ix)
                            items[n] = (None, ix)
                            changed = True
                            break
                items = [x for x in items if x[0] is not None]
        return [(d, sorted(ix)) for d, ix in items]

    def join_facts(self, a, b):
        if a == b:
            return dict(a)
        # keys that differ
        diff = []
        for k in a.keys() | b.keys():
            if self.fact_of(a, k) != self.fact_of(b, k):
                diff.append(k)
                if len(diff) > 1 and not (self._subsumes(a, b) or self._subsumes(b, a)):
                    return None
        if not diff:
            return dict(a)
        if len(diff) > 1:
            return dict(a) if self._subsumes(a, b) else dict(b)
        k = diff[0]
        fa, fb = self.fact_of(a, k), self.fact_of(b, k)
        u = union_fact(fa, fb)
        m = dict(a)
        un = universe(self, k)
        if u == (False, EMPTY) or (un is not None and u[0] and u[1] == un):
            m.pop(k, None)
        else:
            m[k] = u
        return m

    def fact_of(self, facts, key):
        f = facts.get(key)
        if f is not None:
            return f
        u = universe(self, key)
        return (True, u) if u is not None else (False, EMPTY)

    def _subsumes(self, a, b):
        """facts a weaker than or equal to b (a ⊇ b)"""
        for k in a:
            fa, fb = a[k], self.fact_of(b, k)
            if not fact_le(fb, fa):
                return False
        return True

    # ---------------------------------------------------------------- execution
    def call_fn(self, st, key, args, stack):
        """inline a function with a body -> [(st, val)] (diverging paths go to self.stops)"""
        body = self.p.body(key)
        if len(stack) > 60:
            raise Limit("call depth")
        base = st.next
        st.next += 1
        base = ("L", base)
        fr = Frame(body, key, base, stack + (key,))
        for i, a in enumerate(args):
            st.cells[(base, i + 1)] = a
        self.visited.add(key)
        outs = self.run(fr, 0, st)
        res = []
        for o in outs:
            s = o[1]
            v = s.cells.get((base, 0), UNIT)
            cells = {c: x for c, x in s.cells.items() if not (isinstance(c, tuple) and c[0] == base)}
            s2 = State(cells, s.facts, s.next, s.taint)
            res.append((s2, v))
        return self.merge_results(res)

    def merge_results(self, res):
        if len(res) < 2:
            return res
        return self.merge(res, lambda o: (vid(o[1]), cells_key(o[0].cells)), lambda o: o[0],
                          lambda o, s: (s, o[1]))

    def run(self, fr, block, st, header=None, region=None):
        """-> list of ('ret', st) / ('back', st) / ('exit', block, st)"""
        rpo = fr.body.rpo
        pending = {block: [st]}
        first = True
        out = []
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            if not first and header is not None:
                # the header inside the region is reached again last
                cands = [x for x in pending if x != header]
                if cands:
                    b = min(cands, key=lambda x: rpo[x])
                else:
                    b = header
            states = pending.pop(b)
            if len(states) > 1:
                states = self.merge(states, lambda s: cells_key(s.cells), lambda s: s, lambda o, s: s)
            for s in states:
                if not first or b != header:
                    if b == header:
                        out.append(("back", s))
                        continue
                    if region is not None and b not in region:
                        out.append(("exit", b, s))
                        continue
                    if b in fr.body.loops:
                        for o in self.loop(fr, b, s):
                            if o[0] == "exit":
                                pending.setdefault(o[1], []).append(o[2])
                            else:
                                out.append(o)
                        continue
                for nb, ns in self.block(fr, b, s):
                    if nb is None:
                        out.append(("ret", ns))
                    else:
                        pending.setdefault(nb, []).append(ns)
            first = False
        return out

    def block(self, fr, b, st):
        """execute one block -> [(next block | None for return, st)]"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        st = st.copy()
        bl = fr.body.blocks[b]
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                self.write_place(st, fr, s[1], v)
            elif s[0] == "dead":
                st.cells.pop((fr.base, s[1]), None)
            elif s[0] == "setd":
                v = self.read_place(st, fr, s[1])
                if v[0] == "adt":
                    self.write_place(st, fr, s[1], ("adt", v[1], s[2], v[3]))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            return [(t[2], st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            out = []
            c = self.operand(st, fr, t[1])
            for truth, s in self.truth(st, c):
                if truth == t[2] or t[5].startswith(("Null", "MisalignedPointer")):
                    out.append((t[3], s))
                else:
                    self.stop("panic", "assertion: " + t[5].split("(")[0].split("{")[0].strip(), s, fr, t[4])
            return out
        if k == "call":
            return self.do_call(fr, t, st)
        self.stop("unknown", "terminator " + str(t), st, fr, "")
        return []

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        v = v if v[0] != "ref" else self.deref(st, v)
        arms, other = t[2], t[3]
        if v[0] == "int":
            for val, tb in arms:
                if val == v[1]:
                    return [(tb, st)]
            return [(other, st)]
        if v[0] == "disc":
            ty = self.p.ty(v[2])
            d2v = {x["d"]: i for i, x in enumerate(ty["variants"])}
            out = []
            rest = [st]
            for val, tb in arms:
                nr = []
                for s in rest:
                    for tr, s2 in self.test(s, ("var", v[1], v[2]), (d2v[val],)):
                        if tr:
                            out.append((tb, s2))
                        else:
                            nr.append(s2)
                rest = nr
            out.extend((other, s) for s in rest)
            return out
        tk = self.p.ty(t[5])["k"] if t[5] is not None else None
        if tk == "bool" or is_boolish(v):
            out = []
            tmap = {val: tb for val, tb in arms}
            for tr, s in self.truth(st, v):
                out.append((tmap.get(1 if tr else 0, other), s))
            return out
        # integers / chars
        out = []
        rest = [st]
        for val, tb in arms:
            nr = []
            c = self.binop(st, "Eq", v, ("int", val))
            for s in rest:
                for tr, s2 in self.truth(s, c):
                    if tr:
                        out.append((tb, s2))
                    else:
                        nr.append(s2)
            rest = nr
        out.extend((other, s) for s in rest)
        return out

    def stop(self, kind, info, st, fr, at):
        self.stops.append((kind, info, st, fr.stack if fr else (), at))

    def do_call(self, fr, t, st):
        c = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        tgt = t[4]
        dest = t[3]
        # t: ["call", callee, args, dest, target, span, argtys, rt]
        if c["k"] == "ptr":
            f = self.operand(st, fr, c["op"])
            ctx = Ctx("<pointer>", None, [], t[7], t[5], t[6], fr, None)
            res = self.call_value(st, f, args, ctx)
        else:
            inst = c.get("inst")
            fn = self.p.fns.get(inst) if inst else None
            path = fn["path"] if fn else c["path"]
            ctx = Ctx(path, inst, c["targs"], t[7], t[5], t[6], fr, c["path"])
            res = self.invoke(st, ctx, args)
        out = []
        for s, v in res:
            if tgt is None:
                self.stop("diverge", "call of a diverging function returned", s, fr, t[5])
                continue
            s = s.copy()
            self.write_place(s, fr, dest, v)
            out.append((tgt, s))
        return out

    def invoke(self, st, ctx, args):
        self.calls_seen[ctx.path] = self.calls_seen.get(ctx.path, 0) + 1
        if ctx.trait and ctx.trait.startswith("core::ops::function::Fn") and ctx.trait.split("::")[-1] in ("call", "call_mut", "call_once"):
            tup = args[1]
            tup = self.deref(st, tup) if tup[0] == "ref" else tup
            xs = list(tup[1]) if tup[0] == "tup" else [tup]
            return self.call_value(st, args[0], xs, ctx)
        if self.cut is not None:
            r = self.cut(self, st, ctx, args)
            if r is not None:
                return r
        fn = self.p.fns.get(ctx.inst) if ctx.inst else None
        if not (fn and fn["local"] and "body" in fn):
            r = self.models(self, st, ctx, args)
            if r is not None:
                return r
        if ctx.inst and self.p.body(ctx.inst) is not None:
            body = self.p.body(ctx.inst)
            if ctx.inst in ctx.fr.stack:
                return self.recursion(st, ctx, args)
            if fn and fn["local"] and len(body.blocks) > 5:
                return self.call_summary(st, ctx.inst, args, ctx.fr.stack)
            return self.call_fn(st, ctx.inst, args, ctx.fr.stack)
        # an unmodelled foreign function: unknown result, unknown effect on what it may write
        return self.unknown_call(st, ctx, args)

    # ---------------------------------------------------------------- summaries of local functions
    def call_summary(self, st, key, args, stack):
        """analyse a call in the part of the state it can reach, and remember the result"""
        names, cells = {}, {}
        work = []

        def rename(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k in ("ref", "box", "upd") and len(v) >= 2:
                c = v[1]
                if isinstance(c, tuple) and c and c[0] in ("const", "mut", "grp", "d"):
                    return v
                if c not in names:
                    names[c] = ("A", len(names))
                    work.append(c)
                return (k, names[c]) + v[2:]
            if k in ("ts", "str", "sym", "ident", "int", "fn", "span"):
                return v
            ch = False
            out = []
            for x in v:
                y = rename(x) if isinstance(x, tuple) else x
                ch = ch or y is not x
                out.append(y)
            return tuple(out) if ch else v
        largs = [rename(a) for a in args]
        for c, v in list(st.cells.items()):
            if isinstance(c, tuple) and c[0] in ("mut", "grp", "d"):
                cells[c] = rename(v)
        while work:
            c = work.pop(0)
            cells[names[c]] = rename(st.cells.get(c, ("uninit",)))
        bs = set()
        for v in largs:
            term_bases(v, bs, False)
        for c, v in cells.items():
            term_bases(c, bs, False)
            term_bases(v, bs, False)
        facts = {}
        nested = getattr(self.cut, "rec", ())
        for k, f in st.facts.items():
            fb = self.fact_bases(k)
            if not fb or k[0] == "b" and (k[1] in ("notfirst", "found") or k[1] == "parses" and k[2][0] in nested) or not fb.isdisjoint(bs):
                facts[k] = f
        ck = (key, tuple(vid(x) for x in largs), cells_key(cells), frozenset(facts.items()), st.cells.get("dummy"))
        hit = self.summ.get(ck)
        if hit is None:
            lcells = dict(cells)
            lcells["diag"] = ("seq", ())
            if "dummy" in st.cells:
                lcells["dummy"] = st.cells["dummy"]
            n = len(self.stops)
            nrec = self.nrec
            res = self.call_fn(State(lcells, dict(facts), 1), key, largs, stack)
            stops = self.stops[n:]
            del self.stops[n:]
            hit = (res, stops)
            if self.nrec == nrec:
                self.summ[ck] = hit
        back = {v: c for c, v in names.items()}
        base = st.next

        def unname(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k in ("ref", "box", "upd") and len(v) >= 2:
                c = v[1]
                if isinstance(c, int):
                    return (k, c + base) + v[2:]
                if c in back:
                    return (k, back[c]) + v[2:]
                return v
            if k in ("ts", "str", "sym", "ident", "int", "fn", "span"):
                return v
            ch = False
            out = []
            for x in v:
                y = unname(x) if isinstance(x, tuple) else x
                ch = ch or y is not x
                out.append(y)
            return tuple(out) if ch else v

        def apply(s):
            ncells = dict(st.cells)
            for c, v in s.cells.items():
                if c == "diag":
                    if v[1]:
                        ncells["diag"] = ("seq", st.cells.get("diag", ("seq", ()))[1] + v[1])
                elif c == "dummy":
                    ncells[c] = v
                elif isinstance(c, int):
                    ncells[c + base] = unname(v)
                elif c in back:
                    ncells[back[c]] = unname(v)
                elif isinstance(c, tuple) and c[0] in ("mut", "grp", "d"):
                    ncells[c] = unname(v)
            nf = {k: f for k, f in st.facts.items() if k not in facts}
            nf.update(s.facts)
            return State(ncells, nf, base + s.next, st.taint | s.taint)
        for k, info, s, stk, at in hit[1]:
            self.stops.append((k, info, apply(s), stk, at))
        return [(apply(s), unname(v)) for s, v in hit[0]]

    def fact_bases(self, k):
        b = self._fb.get(k)
        if b is None:
            b = set()
            term_bases(k, b, True)
            self._fb[k] = b
        return b

    def recursion(self, st, ctx, args):
        self.nrec += 1
        vals = tuple(self.freeze(st, a) for a in args)
        self.recs.setdefault(ctx.inst, set()).add(vals)
        return [(st, ("sym", ("rec", ctx.inst, vals), ctx.rt))]

    def freeze(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 12:
            return ("deep",)
        if v[0] == "ref":
            return self.freeze(st, self.load(st, v[1], v[2]), depth + 1)
        if v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.freeze(st, x, depth + 1) for x in v[3]))
        if v[0] == "tup":
            return ("tup", tuple(self.freeze(st, x, depth + 1) for x in v[1]))
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.freeze(st, x, depth + 1) for x in v[2]))
        if v[0] in ("seq", "iter"):
            return (v[0], self.freeze_items(st, v[1], depth + 1))
        return v

    def freeze_items(self, st, items, depth=0):
        out = []
        for x in items:
            if x[0] == "e":
                out.append(("e", self.freeze(st, x[1], depth)))
            elif x[0] == "star":
                out.append(("star", x[1], tuple((g, self.freeze_items(st, its, depth)) for g, its in x[2]), x[3]))
            else:
                out.append(x)
        return tuple(out)

    def unknown_call(self, st, ctx, args):
        self.unmodelled[ctx.path] = self.unmodelled.get(ctx.path, 0) + 1
        st = st.copy()
        if not known_pure(ctx.path):
            st.taint |= frozenset((ctx.path,))
        if ctx.rt is not None and self.p.ty(ctx.rt)["k"] == "never":
            self.stop("panic", ctx.path, st, ctx.fr, ctx.at)
            return []
        fz = tuple(self.freeze(st, a) for a in args)
        for a, ty in zip(args, ctx.argtys):
            t = self.p.ty(ty)
            if t["k"] == "ref" and t["mut"] and a[0] == "ref":
                self.store(st, a[1], a[2], ("sym", ("havoc", ctx.path, fz), t["to"]))
                self.havocs += 1
        return [(st, ("sym", ("call", ctx.path, fz), ctx.rt))]

    def call_value(self, st, f, xs, ctx):
        """call a closure / fn item value with argument list xs"""
        n = 0
        selfref = None
        while f[0] == "ref" and n < 10:
            selfref = f
            f = self.load(st, f[1], f[2])
            n += 1
        if f[0] == "clo":
            t = self.p.ty(f[1])
            inst = t["inst"]
            body = self.p.body(inst)
            if body is None:
                return self.unknown_call(st, ctx, [f] + xs)
            if inst in ctx.fr.stack:
                return self.recursion(st, Ctx(inst, inst, [], ctx.rt, ctx.at, [], ctx.fr, None), [f] + xs)
            st = st.copy()
            a0 = f
            if self.p.ty(body.locals[1])["k"] == "ref":
                if selfref is None:
                    selfref = ("ref", st.alloc(f), ())
                a0 = selfref
            return self.call_fn(st, inst, [a0] + xs, ctx.fr.stack)
        if f[0] == "fn":
            t = self.p.ty(f[1])
            inst = t.get("inst")
            fn = self.p.fns.get(inst) if inst else None
            path = fn["path"] if fn else t.get("path", "?")
            rt = ctx.rt
            v = self.constructed(t, xs)
            if v is not None:
                return [(st, v)]
            targs = fn.get("targs", []) if fn else []
            c2 = Ctx(path, inst, targs, rt, ctx.at, [], ctx.fr, t.get("path"))
            c2.argtys = []
            return self.invoke(st, c2, xs)
        return self.unknown_call(st, Ctx("call of unknown " + str(f[0]), None, [], ctx.rt, ctx.at, [], ctx.fr, None), [f] + xs)

    def constructed(self, t, xs):
        """the value a tuple struct / variant constructor used as a function gives"""
        if "ctor" not in t:
            return None
        return ("adt", t["rt"], t["ctor"], tuple(xs))

    # ---------------------------------------------------------------- loops
    def loop(self, fr, h, st0):
        """all ways control leaves the loop at h entered with st0 -> outcomes"""
        region = fr.body.loops[h]
        lid = (fr.key, h, len(fr.stack))
        self.loops_seen[(fr.key, h)] = self.loops_seen.get((fr.key, h), 0) + 1

        def body(s):
            outs = self.run(fr, h, s, h, region)
            backs = [o[1] for o in outs if o[0] == "back"]
            if len(backs) > 1:
                backs = self.merge(backs, lambda s: cells_key(s.cells), lambda s: s, lambda o, s: s)
            return (backs, [o for o in outs if o[0] != "back"])
        return self.iterate(st0, body, lid, fr)

    def iterate(self, st0, body, lid, fr):
        """all ways out of a loop entered with st0; body(st) -> (states at the back edge, outcomes that leave)"""
        result = []
        work = [st0]
        rounds = 0
        if lid[:2] in self.unroll:
            # the ways through it with at most two rounds
            for _ in range(3):
                nxt = []
                for st in work:
                    backs, exits = body(st)
                    result.extend(exits)
                    nxt.extend(backs)
                work = nxt
            work = []
        while work:
            st = work.pop()
            rounds += 1
            if rounds > 400:
                self.stop("limit", "loop rounds", st, fr, "")
                break
            r = self.generic_first(st, body)
            if r is not None:
                base, backs, rests = r
                exits, again = self.summarise(base, backs, [], body, lid, fr, rests)
                result.extend(exits)
                work.extend(again)
                continue
            backs, exits = body(st)
            if not backs:
                result.extend(exits)
                continue
            if all(concrete_progress(st, b) for b in backs):
                result.extend(exits)
                work.extend(backs)
                continue
            exits, again = self.summarise(st, backs, exits, body, lid, fr)
            result.extend(exits)
            work.extend(again)
        rets = [o for o in result if o[0] == "ret"]
        ex = [o for o in result if o[0] == "exit"]
        ex = self.merge(ex, lambda o: (o[1], cells_key(o[2].cells)), lambda o: o[2], lambda o, s: ("exit", o[1], s))
        rets = self.merge(rets, lambda o: cells_key(o[1].cells), lambda o: o[1], lambda o, s: ("ret", s))
        return rets + ex

    def generic_first(self, st, body):
        """first pass over a loop with the iterators it may advance already generic; None if that does not apply"""
        cands = {}
        for c, v in st.cells.items():
            if v[0] == "iter" and v[1] and v[1][0][0] in ("star", "mutstar"):
                conv = ("iter", ((v[1][0][0] + "x0",) + tuple(v[1][0][1:]),) + ((("barrier",),) if v[1][1:] else ())) + tuple(v[2:])
                cands[c] = (v, conv)
        if not cands:
            return None
        s1 = st.copy()
        for c, (v, conv) in cands.items():
            s1.cells[c] = conv
        n0, u0, k0 = self.havocs, sum(self.unmodelled.values()), len(self.stops)
        backs, exits = body(s1)
        del self.stops[k0:]
        if not backs or self.havocs != n0 or sum(self.unmodelled.values()) != u0:
            return None
        touched = []
        for c, (v, conv) in cands.items():
            n = sum(1 for b in backs if b.cells.get(c) != conv)
            if n == len(backs):
                touched.append(c)
            elif n or any(o[-1].cells.get(c, conv) != conv for o in exits):
                return None
        if not touched:
            return None
        rests = {c: cands[c][0] for c in touched if cands[c][0][1][1:]}
        if rests and len(touched) > 1:
            return None
        base = st.copy()
        for c, v in rests.items():
            base.cells[c] = ("iter", (v[1][0], ("barrier",))) + tuple(v[2:])
        m = {conv: v for c, (v, conv) in cands.items() if c not in touched}
        out = []
        for b in backs:
            b = b.copy()
            if m:
                for c, v in list(b.cells.items()):
                    b.cells[c] = subst(v, m)
            out.append(b)
        return base, out, rests

    def summarise(self, st0, backs, exits0, body, lid, fr, rests=None):
        """generalise the header state until one iteration preserves it"""
        degraded = {}
        plan = {}
        hdr = None
        first = (backs, exits0)
        nstops = len(self.stops)
        for attempt in range(10):
            base = hdr if hdr is not None else st0
            newplan = dict(plan)
            backs = [self.first_round(st0, base, b, lid) for b in backs]
            for b in backs:
                for c, v0 in base.cells.items():
                    v1 = b.cells.get(c, ("uninit",))
                    if v1 == v0:
                        continue
                    orig = st0.cells.get(c, ("uninit",))
                    old = newplan.get(c)
                    newplan[c] = self.gen(orig, v0, v1, (lid, c), old)
            if hdr is not None and newplan == plan:
                break
            plan = newplan
            hdr = st0.copy()
            for c, pl in plan.items():
                hdr.cells[c] = self.header_value(st0.cells.get(c, ("uninit",)), pl, (lid, c), hdr)
            hdr.next = max(st0.next, max(b.next for b in backs)) + 1
            del self.stops[nstops:]
            backs, exits0 = body(hdr)
        else:
            self.notes.append("loop not stabilised at %s" % (lid,))
        # iterations that left the current star segment of an iterator are new header visits
        cont, again = [], []
        for b in backs:
            moved = False
            for c, pl in plan.items():
                if pl[0] == "iter" and b.cells.get(c, ("uninit",))[:1] == ("iter",) and b.cells[c] != hdr.cells[c]:
                    moved = True
            (again if moved else cont).append(b)
        src = None
        for c, pl in plan.items():
            if pl[0] == "iter":
                v = hdr.cells[c]
                if v[1] and v[1][0][0] in ("starx", "mutstarx"):
                    src = v[1][0][1]
        closing = self.close_map(hdr, plan, cont, lid, src)
        self.loops.append((lid, st0, hdr, plan, [(b, dict(self._rename(k, f) for k, f in b.facts.items())) for b in cont], first))
        outs = []
        taint = EMPTY.union(*[b.taint for b in backs])
        if not taint <= hdr.taint:
            exits0 = [o[:-1] + (o[-1].copy(),) for o in exits0]
            for o in exits0:
                o[-1].taint |= taint
            again = [b.copy() for b in again]
            for b in again:
                b.taint |= taint
        for o in exits0:
            s = o[-1]
            for s2 in self.close_state(s, closing, plan, hdr, lid, src):
                outs.append(o[:-1] + (s2,))
        ag = []
        for c, v in (rests or {}).items():
            s = hdr.copy()
            s.taint |= taint
            s.cells[c] = ("iter", v[1][1:]) + tuple(v[2:])
            again.append(s)
        for s in again:
            ag.extend(self.close_state(s, closing, plan, hdr, lid, src))
        # stops recorded inside the loop keep the markers, close them as well
        for i in range(nstops, len(self.stops)):
            k, info, s, stack, at = self.stops[i]
            try:
                s = self.close_state(s, closing, plan, hdr, lid, src)[0]
            except Exception:
                pass
            self.stops[i] = (k, info, s, stack, at)
        return outs, ag

    def first_round(self, st0, base, b, lid):
        """in a round known to be the first one nothing has been collected: what is assigned then is what is added"""
        if not any(k[:2] == ("b", "notfirst") and f == (True, frozenset((0,))) and k not in base.facts
                   and (isinstance(k[2], tuple) and (k[2][:1] == ("enum",) or k[2][:1] == (lid,))) for k, f in b.facts.items()):
            return b
        new = {}
        for c, v0 in base.cells.items():
            v1, orig = b.cells.get(c), st0.cells.get(c)
            if v1 is None or orig is None or v1 == v0 or not (v0[0] == v1[0] == orig[0]) or v0[0] not in ("ts", "seq"):
                continue
            n = len(orig[1])
            if v0[1] == orig[1] + (("open", (lid, c)),) and v1[1][:n] == orig[1] and ("open", (lid, c)) not in v1[1]:
                new[c] = (v0[0], v0[1] + v1[1][n:]) + tuple(v0[2:])
        if new:
            b = b.copy()
            b.cells.update(new)
        return b

    def gen(self, orig, v0, v1, mark, old):
        """how to generalise a cell that an iteration changes from v0 to v1"""
        if old is not None and old[0] in ("havoc",):
            return old
        if v1 == v0:
            return old if old is not None else ("same",)
        if orig[0] == "ref" or v1[0] == "uninit" or orig[0] == "uninit":
            if orig[0] == "uninit" and (old is None or old == ("dead",)):
                return ("dead",)
            if v1[0] == "uninit":
                return ("dead",)
            return ("havoc",)
        if orig[0] == "iter" and v1[0] == "iter":
            if old is not None and old[0] == "iter":
                return old
            return ("iter",) if orig[1] and orig[1][0][0] in ("star", "mutstar", "starx", "mutstarx") else ("havoc",)
        if orig[0] == v1[0] and orig[0] in ("ts", "seq") :
            if old is None or old[0] in ("open", "openm", "same"):
                n = len(v0[1])
                if v1[1][:n] == v0[1]:
                    return old if old is not None and old[0] in ("open", "openm") else ("open",)
                if n and len(v1[1]) > n and v1[1][-n:] == v0[1]:
                    return ("havoc", "misordered")       # put in front
                if v1[1] and v1[1][0][0] == "cut":
                    return ("havoc", "misordered")       # thinned out
                if orig[0] == "ts" and n and v0[1][-1][0] == "open" and v0[1][-1] not in v1[1]:
                    return ("havoc", "misordered")       # only what the last round built is kept
                # an element of the open part was updated in place
                if len(v1[1]) >= n:
                    return ("openm",)
            return ("havoc",)
        if orig[0] == "str" and v1[0] == "str":
            if v1[1][:len(v0[1])] == v0[1] or str_extends(v1[1], v0[1]):
                return ("open",)
            return ("havoc",)
        if orig[0] == "stream" and v1[0] == "stream":
            return ("stream",)
        if orig[0] == "int" and v1[0] in ("phiadd", "int") and orig[1] == 0 and (
                v1 == ("int", 1) or (v1[0] == "phiadd" and v1[2] == 1)) and (old is None or old[0] == "count"):
            return ("count",)
        if orig[0] in ("adt", "tup", "clo") and v1[0] == orig[0] and v0[0] == orig[0]:
            same = orig[0] != "adt" or (orig[2] == v1[2] == v0[2])
            fi = {"adt": 3, "tup": 1, "clo": 2}[orig[0]]
            if same and len(orig[fi]) == len(v1[fi]) and (old is None or old[0] in ("fields", "same")):
                olds = old[1] if old is not None and old[0] == "fields" else (("same",),) * len(orig[fi])
                subs = []
                for i, (o, a, b, pl) in enumerate(zip(orig[fi], v0[fi], v1[fi], olds)):
                    subs.append(self.gen(o, a, b, (mark, i), pl) if a != b else pl)
                return ("fields", tuple(subs))
        # small constant / variant flags
        vals = old[1] if old is not None and old[0] == "phi" else (orig,)
        if old is None or old[0] in ("phi", "same"):
            if v1[0] == "sym" and v1[1][:1] == ("phi",):
                return old if old is not None else ("phi", vals)
            if v1 not in vals:
                vals = vals + (v1,)
            if len(vals) <= 4:
                return ("phi", vals)
        return ("havoc",)

    def header_value(self, orig, pl, mark, st):
        k = pl[0]
        if k == "same":
            return orig
        if k == "dead":
            return ("uninit",)
        if k in ("open", "openm"):
            if orig[0] == "str":
                return ("str", orig[1] + (("open", mark),))
            return (orig[0], orig[1] + (("open", mark),)) + tuple(orig[2:])
        if k == "iter":
            it = orig[1]
            x = "mutstarx" if it[0][0].startswith("mut") else "starx"
            return ("iter", ((x,) + tuple(it[0][1:]),) + it[1:]) + tuple(orig[2:])
        if k == "stream":
            return ("stream", ("loop", mark[0], orig[1], orig[2]), 0) + tuple(orig[3:])
        if k == "count":
            return ("phi", mark[0] if False else mark, "count")
        if k == "fields":
            fi = {"adt": 3, "tup": 1, "clo": 2}[orig[0]]
            fs = tuple(self.header_value(o, p, (mark, i), st) for i, (o, p) in enumerate(zip(orig[fi], pl[1])))
            if orig[0] == "adt":
                return ("adt", orig[1], orig[2], fs)
            if orig[0] == "tup":
                return ("tup", fs)
            return ("clo", orig[1], fs)
        if k == "phi":
            ty = next((v[1] for v in pl[1] if v[0] == "adt"), None)
            if all(v[0] == "int" for v in pl[1]):
                key = ("phi", mark)
                st.facts[("int", key)] = (True, frozenset(v[1] for v in pl[1]))
                return ("sym", key, None)
            if all(v[0] == "adt" or is_sym(v) for v in pl[1]) and ty is not None:
                return ("sym", ("phi", mark), ty)
            return ("sym", ("phi", mark), ty)
        ty = orig[2] if orig[0] == "sym" else orig[1] if orig[0] == "adt" else None
        if pl[1:]:
            if orig[0] == "ts":
                return ("ts", (("reordered", mark),))
            return ("sym", (pl[1], mark), ty)
        self.havocs += 1
        st.taint |= frozenset(("a value that the analysis of a loop lost",))
        return ("sym", ("havoc", mark), ty)

    def guard_delta(self, hdr, b):
        g = []
        for k, v in b.facts.items():
            if hdr.facts.get(k) != v:
                g.append((k, v))
        return frozenset(g)

    def close_map(self, hdr, plan, backs, lid, src):
        """what each open marker stands for"""
        closing = {}

        def walk(pl, hv, bvs, mark):
            if pl[0] in ("open", "openm"):
                cases = []
                for b, v in bvs:
                    n = len(hv[1])
                    if v[0] != hv[0]:
                        cases.append((self.guard_delta(hdr, b), None))
                        continue
                    if hv[0] == "str":
                        extra = str_rest(v[1], hv[1])
                    elif v[1][:n] == hv[1]:
                        extra = v[1][n:]
                    else:
                        extra = None
                    cases.append((self.guard_delta(hdr, b), extra, v))
                closing[("open", mark)] = (hv[0], cases, pl[0], mark, bvs)
            elif pl[0] == "fields":
                fi = {"adt": 3, "tup": 1, "clo": 2}[hv[0]]
                for i, p in enumerate(pl[1]):
                    walk(p, hv[fi][i], [(b, v[fi][i]) for b, v in bvs if v[0] == hv[0]], (mark, i))
            elif pl[0] == "phi":
                key = hv[1]
                sets = []
                for b, v in bvs:
                    g = self.guard_delta(hdr, b)
                    sets.append((g, v))
                closing[("phi", key)] = (pl[1], sets, hv)
            elif pl[0] == "count" and bvs and all(v != hv for _, v in bvs):
                counts.add(hv[1])

        counts = set()
        for c, pl in plan.items():
            walk(pl, hdr.cells[c], [(b, b.cells.get(c, ("uninit",))) for b in backs], (lid, c))
        # finalise into items
        # "nothing collected yet" selects the first of the iterations that collect something
        pushes = {}
        for m, x in closing.items():
            if m[0] == "open" and x[0] == "seq" and x[2] == "open" and all(c[1] is not None for c in x[1]):
                k = ("b", "seqempty", (m,))
                pushes[k] = {frozenset(y for y in c[0] if y[0] != k) for c in x[1] if c[1]}
        for m, x in closing.items():
            if m[0] == "phi":
                for k, gs in pushes.items():
                    on = [(g, v) for g, v in x[1] if v != x[2]]
                    mine = {frozenset(y for y in g if y[0] != k) for g, v in on}
                    if on and mine == gs and all((k, (True, frozenset((1,)))) in g for g, v in on):
                        closing[m] = (x[0], [(frozenset(y for y in g if y[0] != k), v) for g, v in on] +
                                      [(g, v) for g, v in x[1] if v == x[2] and frozenset(y for y in g if y[0] != k) not in gs], x[2])
                        break
        source = src if src is not None else ("loop", lid)
        final = {}
        # "not the first iteration", however it is written: a counter, or a string every iteration extends
        grown = {m for m, x in closing.items() if m[0] == "open" and x[0] == "str" and x[2] == "open" and x[1] and
                 all(c[1] and any(isinstance(y, str) or (y[0] == "op" and y[1] in ("lower", "upper")) or y[0] == "chr" or
                              pred_of_base(self, None, (0, 0, "is_empty", (y,), None)) == 0 for y in c[1]) for c in x[1])}

        flags = {}
        for m, x in closing.items():
            if m[0] == "phi" and len(x[0]) == 2 and x[1] and all(v == x[0][1] for _, v in x[1]):
                a, b = x[0]
                if a[0] == b[0] == "int":
                    flags[("int", m[1])] = (a[1], b[1])
                elif a[0] == b[0] == "adt" and a[2] != b[2]:
                    flags[("var", m[1])] = (a[2], b[2])

        def rename(k, f):
            fk = ("int", k[2]) if k[:2] == ("b", "val") and len(k) == 3 else k[:2]
            if fk in flags:
                x0, x1 = flags[fk]
                vs = frozenset(n for n, v in ((0, x0), (1, x1)) if (v in f[1]) == f[0])
                return ("b", "notfirst", source), (True, vs)
            if k[0] == "b" and k[1] == "notfirst" and (k[2] in counts or isinstance(k[2], tuple) and k[2][:1] == ("enum",)):
                return ("b", "notfirst", source), f
            if k[0] == "b" and k[1] == "strpred" and k[2] == "is_empty" and len(k[3]) == 1 and k[3][0] in grown:
                return ("b", "notfirst", source), (f[0], frozenset(1 - x for x in f[1]))
            return k, f

        self._rename = rename

        def rn(g):
            return frozenset(rename(k, f) for k, f in g)
        for c in {c for b in backs for c in b.cells if isinstance(c, tuple) and c[0] == "mut" and c[1] == src}:
            cs = [(rn(self.guard_delta(hdr, b)), (("e", b.cells[c]),)) for b in backs if c in b.cells]
            final[("openmut", src, c)] = ("seq", self.star_items(source, cs, lid, "seq"))
        for m, x in closing.items():
            if m[0] == "phi":
                continue
            kind, cases, how = x[:3]
            if how == "openm" or any(c[1] is None or any(y[0] == "upd" for y in c[1] if isinstance(y, tuple)) for c in cases):
                g = self.group_of(source, kind, m, x[3], x[4], hdr)
                final[m] = (kind, (g,) if g is not None else (("unknown", m),))
                continue
            cs = [(rn(g), e) for g, e, _ in cases]
            final[m] = (kind, self.star_items(source, cs, lid, kind))
        self._phis = {k[1]: v for k, v in closing.items() if k[0] == "phi"}
        return final

    def star_items(self, source, cs, lid, kind):
        byext = {}
        for g, e in cs:
            byext.setdefault(e, []).append(dict(g))
        cs2 = [[m, e] for e, gs in byext.items() for m, _ in self.join_many(gs)]
        cases = tuple(sorted(((frozenset(g.items()), tuple(e)) for g, e in cs2 if e or True), key=hash))
        if all(not e for _, e in cases):
            return ()
        # separators: a prefix present in all but the first iteration
        sep = None
        nf = [k for g, _ in cases for k, _v in g if k[0] == "b" and k[1] == "notfirst"]
        if nf:
            key = nf[0]
            later, firsts, plain = {}, {}, True
            for g, e in cases:
                d = dict(g)
                f = d.pop(key, None)
                gg = frozenset(d.items())
                if f is None:
                    plain = False
                elif f[1] == frozenset((1,)):
                    later[gg] = e
                else:
                    firsts[gg] = e
            if plain and later.keys() == firsts.keys():
                seps = set()
                for gg in later:
                    a, b = later[gg], firsts[gg]
                    n = len(a) - len(b)
                    if n >= 0 and (a[n:] == b if n else a == b):
                        seps.add(a[:n])
                    else:
                        seps.add(None)
                if len(seps) == 1 and None not in seps:
                    sep = seps.pop()
                    cases = tuple(sorted(firsts.items(), key=hash))
        # flatten "once per element" stars of the elements of a loop over a filtered star
        if kind == "str":
            return (("star", source, cases, sep),)
        return (("star", source, cases, sep or None),)

    def group_of(self, source, kind, m, mark, bvs, hdr):
        """first-appearance grouping: push (key, [x]) if no element has the key yet, else push x to its list"""
        n = len(hdr_items(m, bvs))
        new, upd, none_ = [], [], []
        for b, v in bvs:
            extra = v[1][v[1].index(m) + 1:] if m in v[1] else None
            if extra is None:
                return None
            g = self.guard_delta(hdr, b)
            if not extra:
                none_.append((g, None))
            elif len(extra) == 1 and extra[0][0] == "e":
                new.append((g, extra[0][1]))
            elif len(extra) == 1 and extra[0][0] == "upd":
                upd.append((g, b.cells.get(extra[0][1])))
            else:
                return None
        if not new or not upd:
            return None

        def strip(g):
            return frozenset((k, f) for k, f in g if not (k[0] == "b" and k[1] == "found" and k[2] == mark))

        def found(g):
            return [(k, f) for k, f in g if k[0] == "b" and k[1] == "found" and k[2] == mark]
        news, upds = {}, {}
        keys = set()
        for g, v in new:
            fk = found(g)
            if len(fk) != 1 or fk[0][1] != (True, frozenset((0,))):
                return None
            keys.add(fk[0][0][3])
            if v[0] != "tup" or len(v[1]) != 2 or v[1][1][0] != "seq":
                return None
            news.setdefault(strip(g), []).append((v[1][0], v[1][1][1]))
        for g, v in upd:
            fk = found(g)
            if len(fk) != 1 or fk[0][1] != (True, frozenset((1,))):
                return None
            keys.add(fk[0][0][3])
            if v is None or v[0] != "tup" or v[1][1][0] != "seq":
                return None
            its = v[1][1][1]
            if its and its[-1] == ("open", (mark, "g")) and its[0][0] == "e":
                # put in front of the elements that are there
                src2 = ("misordered", source)
                return ("star", src2, tuple((subst(g, {("elem", source): ("elem", src2)}), (("e", subst(("tup", (xs[0][0], ("seq", xs[0][1]))), {
                    ("elem", source): ("elem", src2)})),)) for g, xs in news.items()), None)
            if its and its[0][0] == "cut" and ("open", (mark, "g")) in its[0][2]:
                upds.setdefault(strip(g), []).append((("cut",),))
                continue
            if not its or its[0] != ("open", (mark, "g")):
                return None
            upds.setdefault(strip(g), []).append(its[1:])
        if len(keys) != 1:
            return None
        # every element becomes either the first member of a new group or one more member of its group
        members = {}
        for g, xs in news.items():
            for kv, its in xs:
                members.setdefault(g, set()).add(tuple(its))
        if len(keys) == 1 and news.keys() == upds.keys() and all(len(set(map(tuple, upds[g]))) == 1 for g in upds) and \
                all(members[g] == set(map(tuple, upds[g])) for g in upds) and all(len({kv for kv, _ in xs}) == 1 for xs in news.values()):
            key = keys.pop()
            gs = gid(source, list(news))
            gsrc = ("groups", source, key, gs)
            msrc = ("members", gsrc)
            mcases = tuple(sorted(((subst(g, {("elem", source): ("elem", msrc)}), subst(next(iter(members[g])), {("elem", source): ("elem", msrc)}))
                                   for g in news), key=hash))
            star = ("star", msrc, mcases, None)
            return ("star", gsrc, tuple(sorted(((subst(g, {("elem", source): ("elem", gsrc)}),
                                                 (("e", ("tup", (subst(xs[0][0], {("elem", source): ("elem", gsrc)}), ("seq", (star,))))),))
                                                for g, xs in news.items()), key=hash)), None)
        every = {m for ms in members.values() for m in ms}
        if every and all(len({kv for kv, _ in xs}) == 1 for xs in news.values()) and (
                any(tuple(u) not in every for us in upds.values() for u in us) or
                any(f == (True, frozenset((1,))) for g, _ in none_ for _k, f in found(g))):
            # later members of a group are dropped, changed or put elsewhere
            src2 = ("misordered", source)
            return ("star", src2, tuple((subst(g, {("elem", source): ("elem", src2)}), (("e", subst(("tup", (xs[0][0], ("seq", xs[0][1]))), {
                ("elem", source): ("elem", src2)})),)) for g, xs in news.items()), None)
        return ("group", source, keys.pop(), tuple(sorted(((g, tuple(x)) for g, x in news.items()), key=hash)),
                tuple(sorted(((g, tuple(x)) for g, x in upds.items()), key=hash)))

    def close_value(self, v, final):
        if not isinstance(v, tuple) or not v or not info(v)[1]:
            return v
        if v[0] in ("seq", "ts", "iter", "str") and isinstance(v[1], tuple):
            out = []
            ch = False
            for x in v[1]:
                if isinstance(x, tuple) and x and x[0] in ("open", "openmut") and x in final:
                    out.extend(final[x][1])
                    ch = True
                else:
                    y = self.close_value(x, final)
                    ch = ch or y is not x
                    out.append(y)
            if not ch:
                return v
            if v[0] == "str":
                return ("str", norm_str(tuple(out)))
            return (v[0], tuple(out)) + tuple(v[2:])
        out = []
        ch = False
        for x in v:
            y = self.close_value(x, final) if isinstance(x, tuple) else x
            ch = ch or y is not x
            out.append(y)
        return tuple(out) if ch else v

    def close_state(self, s, final, plan, hdr, lid, src):
        st = s.copy()
        for c, v in list(st.cells.items()):
            st.cells[c] = self.close_value(v, final)
        source = src if src is not None else ("loop", lid)
        # facts on iteration-local symbols stay only if the exit happened inside an iteration
        states = [st]
        for key, (vals, sets, hv) in self._phis.items():
            r = self.resolve_phi(key, vals, sets, hv, source, hdr)
            if r is None:
                continue
            nxt = []
            exkey, v0, v1 = r
            for s1 in states:
                if not any(contains(v, lambda x: x == hv) for v in s1.cells.values()):
                    nxt.append(s1)
                    continue
                for tr, s2 in self.test(s1, exkey, (1,)):
                    s2 = s2.copy()
                    for c, v in list(s2.cells.items()):
                        s2.cells[c] = subst(v, {hv: v1 if tr else v0})
                    for k in list(s2.facts):
                        if contains(k, lambda x: x == key):
                            del s2.facts[k]
                    nxt.append(s2)
            states = nxt
        return states

    def resolve_phi(self, key, vals, sets, hv, source, hdr):
        v0 = vals[0]

        def cls(v):
            if v[0] == "int":
                return ("int", v[1])
            if v[0] == "adt":
                return ("var", v[2])
            return None
        setters = [(g, v) for g, v in sets if v != hv]
        if not setters:
            return None
        kinds = {cls(v) for _, v in setters}
        if len(kinds) != 1 or None in kinds or cls(v0) is None or cls(v0) in kinds:
            return None
        guards = set()
        for g, v in setters:
            g2 = frozenset((k, f) for k, f in g if not contains(k, lambda x: x == key))
            guards.add(g2)
        # iterations that leave the flag although they would set it from the other value
        for g, v in sets:
            if v == hv:
                g2 = frozenset((k, f) for k, f in g if not contains(k, lambda x: x == key))
                if g2 in guards:
                    continue
        v1 = setters[0][1]
        v1 = subst(v1, {("elem", source): ("first", source, gid(source, guards))})
        return (exists_key(self, source, frozenset(guards)), v0, v1)


# -------------------------------------------------------------------- helpers
BASES = frozenset(("in", "elem", "first", "tail", "phi", "havoc", "call", "rec", "d", "proj", "idx", "bin", "un", "hole"))


def term_bases(x, out, deep):
    """the unknowns a value or fact mentions: the first two components of its access paths"""
    if isinstance(x, tuple):
        if len(x) >= 2 and isinstance(x[0], str) and x[0] in BASES:
            out.add((x[0], x[1]))
            if not deep:
                return
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                term_bases(y, out, deep)
    elif isinstance(x, frozenset):
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                term_bases(y, out, deep)


def hdr_items(m, bvs):
    return ()


CMP = {
    "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
    "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
}


def identity_star(x):
    return x[0] == "star" and len(x[2]) == 1 and not x[2][0][0] and len(x[2][0][1]) == 1 and x[2][0][1][0][0] == "e"


def exists_key(I, source, guards):
    if EMPTY in guards:
        return ("b", "nonempty", source)
    if source[:1] == ("chars",) and len(guards) == 1:
        g = next(iter(guards))
        if len(g) == 1:
            (k, f), = g
            if k == ("int", ("elem", source)) and f[0] and len(f[1]) == 1:
                return ("b", "strpred", "contains", (source[1],), chr(next(iter(f[1]))))
    return ("b", "exists", source, gid(source, guards))


_gids = {}
GTAB = []


def gid(source, guards):
    """short name of a set of conditions on the elements of `source`"""
    guards = frozenset(guards)
    if len(guards) == 1 and EMPTY in guards:
        return guards
    k = (source, guards)
    if k not in _gids:
        _gids[k] = ("G", len(GTAB))
        GTAB.append(k)
    return _gids[k]


def guards_of(source, g):
    """the conditions a name stands for"""
    if isinstance(g, frozenset):
        return g
    src0, guards = GTAB[g[1]]
    return guards if src0 == source else subst(guards, {src0: source})


def neg(a):
    if a[0] == "int":
        return ("int", 0 if a[1] else 1)
    if a[0] == "not":
        return a[1]
    return ("not", a)


def is_boolish(a):
    return a[0] in ("in", "not", "and", "or")


def union_fact(a, b):
    if a[0] and b[0]:
        return (True, a[1] | b[1])
    if not a[0] and not b[0]:
        return (False, a[1] & b[1])
    if a[0]:
        a, b = b, a
    return (False, a[1] - b[1])


def fact_le(a, b):
    """set a ⊆ set b"""
    if a[0] and b[0]:
        return a[1] <= b[1]
    if a[0] and not b[0]:
        return not (a[1] & b[1])
    if not a[0] and not b[0]:
        return b[1] <= a[1]
    return False


def one_to_one(star):
    """every element of the source yields exactly one item"""
    if star[3] is not None or not all(len(e) == 1 and e[0][0] == "e" for _, e in star[2]):
        return False
    if len(star[2]) == 1 and not star[2][0][0]:
        return True
    return every_case(star[1], frozenset(g for g, _ in star[2]))


def every_case(src, guards):
    """the conditions are those under which an element got into the list `src` at all"""
    if src[:1] == ("tail",) and len(src) == 3:
        inner = subst(guards, {("elem", src): ("elem", src[1])})
        return (inner == guards_of(src[1], src[2]) or src[2] == frozenset((EMPTY,))) and every_case(src[1], inner)
    if src[:1] == ("members",):
        g = src[1]
        return guards == subst(guards_of(g[1], g[3]), {("elem", g[1]): ("elem", src)})
    return False


def concrete_progress(st, b):
    """an iterator with a known number of elements advanced (the loop is unrolled)"""
    for c, v in st.cells.items():
        if v[0] == "iter" and v[1] and v[1][0][0] == "e":
            w = b.cells.get(c)
            if w is not None and w[0] == "iter" and len(w[1]) < len(v[1]):
                return True
        if v[0] == "stream" and v[1][0] == "toks":
            w = b.cells.get(c)
            if w is not None and w[0] == "stream" and w[1][0] in ("toks", "eof") and w != v:
                return True
    return False


def norm_str(atoms):
    out = []
    for a in atoms:
        if isinstance(a, str):
            if not a:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += a
                continue
        elif a[0] == "star" and len(a) == 4 and a[3] is None and a[1][:1] == ("chars",):
            x = char_map(a)
            if x is not None:
                out.append(x)
                continue
        elif a[0] == "star" and len(a) == 4 and a[3] is None and a[1][:1] == ("tail",) and out:
            x = joined(out[-1], a)
            if x is not None:
                out[-1] = x
                continue
        elif a[0] == "star" and len(a) == 4 and a[3] is None and a[1][:1] == ("parts",) and out and out[-1] == ("op", "before", a[1][1], (a[1][2],)):
            # what is before the first separator, and (another separator, part) for all that follow
            cs = a[2]
            e = ("sym", ("elem", a[1]), None)
            if len(cs) == 1 and not cs[0][0] and cs[0][1][-1:] == (e,) and all(isinstance(y, str) for y in cs[0][1][:-1]):
                out.pop()
                out.extend(norm_str((("op", "replace", a[1][1], (a[1][2], "".join(cs[0][1][:-1]))),)))
                continue
        out.append(a)
    return tuple(out)


def joined(first, star):
    """first element and (separator, element) for every other one: all elements joined by the separator"""
    _, tail, cases, _ = star
    if len(tail) != 3 or len(cases) != 1 or isinstance(first, str):
        return None
    (g, its), = cases
    if len(its) != 2 or not isinstance(its[0], str):
        return None
    src, gi = tail[1], tail[2]
    if subst(its[1], {("elem", tail): ("first", src, gi)}) != first:
        return None
    to = {("elem", tail): ("elem", src)}
    g0 = subst(g, to)
    if frozenset((g0,)) != guards_of(src, gi):
        return None
    return ("star", src, ((g0, (subst(its[1], to),)),), (its[0],))


def char_map(star):
    """a string built from the characters of another one, with some of them replaced"""
    _, src, cases, _ = star
    e = ("elem", src)
    same, repl = None, []
    for g, its in cases:
        if its in ((("sym", e, None),), (("chr", e),)):
            if same is not None:
                return None
            same = g
            continue
        if len(g) != 1 or len(its) > 1 or its and not isinstance(its[0], str):
            return None
        (k, (pol, S)), = g
        if k != ("int", e) or not pol:
            return None
        for c in S:
            if not isinstance(c, int):
                return None
            repl.append((chr(c), its[0] if its else ""))
    if same is None:
        return None
    if same != (frozenset(((("int", e), (False, frozenset(ord(c) for c, _ in repl))),)) if repl else EMPTY):
        return None
    repl.sort()
    at = (src[1],)
    for i, (c, t) in enumerate(repl):
        if any(c2 in t for c2, _ in repl[i + 1:]):
            return None
        at = (("op", "replace", at, (c, t)),)
    return at[0]


def str_extends(v, v0):
    return str_rest(v, v0) is not None


def str_rest(v, v0):
    """atoms v minus the prefix v0"""
    n = len(v0)
    if v[:n] == v0:
        return v[n:]
    if n and v[:n - 1] == v0[:n - 1] and len(v) >= n and isinstance(v[n - 1], str) and isinstance(v0[-1], str) \
            and v[n - 1].startswith(v0[-1]):
        return norm_str((v[n - 1][len(v0[-1]):],) + v[n:])
    return None


def const_str(sv):
    if sv == ():
        return ""
    if len(sv) == 1 and isinstance(sv[0], str):
        return sv[0]
    return None


def str_fn(name, arg):
    if name == "replace":
        return lambda x: x.replace(arg[0], arg[1])
    if name == "lower":
        return lambda x: x.lower()
    if name == "upper":
        return lambda x: x.upper()
    if name == "unraw":
        return lambda x: x[2:] if x.startswith("r#") else x
    if name == "raw":
        return lambda x: "r#" + x
    if name == "trim":
        return lambda x: x.strip()
    if name == "before":
        return lambda x: x.split(arg[0], 1)[0]
    if name == "before last":
        return lambda x: x.rsplit(arg[0], 1)[0] if arg[0] in x else ""
    if name == "after last":
        return lambda x: x.rsplit(arg[0], 1)[1] if arg[0] in x else ""
    if name == "after":
        return lambda x: x.split(arg[0], 1)[1] if arg[0] in x else ""
    return None


def str_base(sv):
    """(base strval, python function) of an op-string over another string"""
    if len(sv) == 1 and isinstance(sv[0], tuple) and sv[0][0] == "op":
        _, name, base, arg = sv[0]
        f = str_fn(name, arg)
        if f is not None:
            return base, f
    return None, None


def eval_pred(name, s, arg):
    if name == "contains":
        return arg in s
    if name == "starts_with":
        return s.startswith(arg)
    if name == "ends_with":
        return s.endswith(arg)
    if name == "starts_ascii_uppercase":
        return bool(s) and s[0].isascii() and s[0].isupper()
    if name == "starts_uppercase":
        return bool(s) and s[0].isupper()
    if name == "is_empty":
        return not s
    if name == "starts_in":
        return bool(s) and s[0] in arg
    from .m_tok import charpred
    if name.startswith("starts_with:"):
        return bool(s) and charpred(name.split(":")[1], s[0])
    if name.startswith("ends_with:"):
        return bool(s) and charpred(name.split(":")[1], s[-1])
    if name.startswith("contains:"):
        return any(charpred(name.split(":")[1], c) for c in s)
    raise Exception("predicate " + name)


def pred_of_preds(I, st, key):
    """decide a string predicate from others that are known of the same string"""
    _, _, name, sv, arg = key
    if name == "starts_in":
        yes, no = None, set()
        for k, (pol, S) in I.preds_on(st, sv):
            if not pol or len(S) != 1:
                continue
            if k[2] == "starts_in":
                c = set(k[4])
            elif k[2] == "starts_with" and isinstance(k[4], str) and k[4] and (1 in S or len(k[4]) == 1):
                c = {k[4][0]}
            else:
                continue
            if 1 in S:
                yes = c if yes is None else yes & c
            else:
                no |= c
        if yes is not None:
            if yes - no <= set(arg):
                return 1
            if not (yes - no) & set(arg):
                return 0
        elif set(arg) <= no:
            return 0
    for k, (pol, S) in I.preds_on(st, sv):
        if not pol or len(S) != 1 or not isinstance(k[4], str) and k[2] != "is_empty":
            continue
        v = 1 in S
        n, L = k[2], k[4]
        if n == "is_empty":
            if v and isinstance(arg, str):
                return 1 if arg == "" else 0
            continue
        if n not in ("starts_with", "ends_with", "contains"):
            continue
        if v:
            if name == "is_empty" and L:
                return 0
            if not isinstance(arg, str):
                continue
            if name == "contains" and arg in L:
                return 1
            if name == n and n == "starts_with":
                if L.startswith(arg):
                    return 1
                if not arg.startswith(L):
                    return 0
            if name == n and n == "ends_with":
                if L.endswith(arg):
                    return 1
                if not arg.endswith(L):
                    return 0
        elif isinstance(arg, str):
            if n == "contains" and L in arg and name in ("starts_with", "ends_with", "contains"):
                return 0
            if n == name == "starts_with" and arg.startswith(L):
                return 0
            if n == name == "ends_with" and arg.endswith(L):
                return 0
    return None


def pred_of_base(I, st, key):
    """decide a string predicate from the shape of the string"""
    _, _, name, sv, arg = key
    if name == "is_empty":
        for a in sv:
            if isinstance(a, str) and a:
                return 0
            if isinstance(a, tuple) and a[0] == "sym" and (a[1][:1] in (("text",), ("repr",)) or a[1] in I.ne_str):
                return 0
            if isinstance(a, tuple) and a[0] == "op" and (a[1] in ("unraw", "raw", "lower", "upper") or a[1] == "replace" and a[3][1]) \
                    and pred_of_base(I, st, ("b", "strpred", "is_empty", a[2], None)) == 0:
                return 0
    if name == "starts_in" and sv and isinstance(sv[0], str) and sv[0]:
        return 1 if sv[0][0] in arg else 0
    if name in ("starts_with",) and sv and isinstance(sv[0], str):
        if sv[0].startswith(arg):
            return 1
        if not arg.startswith(sv[0]):
            return 0
    if name == "contains":
        if any(isinstance(a, str) and arg in a for a in sv):
            return 1
        if len(sv) == 1 and isinstance(sv[0], tuple) and sv[0][0] == "op" and sv[0][1] == "replace" and \
                sv[0][3][0] == arg and arg not in sv[0][3][1]:
            return 0
    return None
