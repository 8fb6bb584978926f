"""Properties of single tokens, diagnostics and effects, whatever the rest of the expansion looks like.

The templates of all outcomes (with the spans of identifiers) and the diagnostics are collected from one more
interpretation of the expansion and of the parsers, and looked at one by one.
"""
import re
from engine.core import norm_str
from engine.util import CS, DIAG
from .compare import short
from .expansion import Expansion
from .parsing import Parsing

ROOTS = {"leptos", "leptos_mview", "std", "core"}
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static "
               "struct super trait true type unsafe use where while async await dyn _".split())
# keywords after which an expression or a type starts, so that a following `::` is a leading one
STARTS = KEYWORDS - {"self", "Self", "super", "crate", "_", "true", "false"}
RELATIVE = {"crate", "self", "Self", "super"}
PRIMITIVE = set("bool char str u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64".split())
# words that change what code inside of them means (`return`, `?`, `break`, `.await`, lints, ...)
CAPTURE = {"async": "`return`, `?` and borrows of the user's code would belong to an async block",
           "loop": "`break` and `continue` of the user's code would belong to it", "while": "`break` and `continue` of the user's code would belong to it",
           "for": "`break` and `continue` of the user's code would belong to it", "unsafe": "unsafe operations of the user's code would be permitted",
           "fn": "`return` and `?` of the user's code would belong to it", "impl": "`Self` would mean something else",
           "const": "the user's code would be evaluated at compile time", "static": "the user's code would be evaluated at compile time",
           "mod": "names of the user's code would resolve in it", "trait": "`Self` would mean something else"}
LEAVES = {"return", "break", "continue", "await", "yield"}
LINTS = {"unused_braces", "unreachable_code"}
USER = ("u", "uv", "rec", "hole")


class Item:
    """a violation candidate"""
    def __init__(self, where, rule, detail):
        self.where, self.rule, self.detail = where, rule, detail


class Scan:
    def __init__(self, ctx):
        base = ctx.expansion()
        self.base = base
        self.I = base.I
        e = Expansion(ctx.dump())
        e.I.spans = True
        self.e = e
        self.outcomes = []           # (where, state, items | None)
        self.namers = {}
        self.stops = []              # (where, kind, info, state, at)
        self.undecided = []
        for kind, inst, pat in [("root", base.root(), None)] + list(base.C.obl):
            try:
                st, res, oc, child = e.C.run_fn(inst, pat)
            except Exception as x:
                self.undecided.append("%s: %s" % (short(inst), str(x)[:200]))
                continue
            self.namers[short(inst)] = e.C.N
            for s, v in res:
                try:
                    items = e.C.outcome_items(s, v, oc)
                except Exception as x:
                    self.undecided.append("%s: %s" % (short(inst), str(x)[:200]))
                    items = None
                self.outcomes.append((short(inst), s, items))
            for k, i, s, stack, at in e.I.stops:
                self.stops.append((short(inst), k, i, s, at))
        self.par = Parsers(ctx.dump())
        self.par.run()
        self.undecided += [str(x[:2]) for x in self.par.undecided]
        for name, s, v in self.par.seen:
            for its in streams(v):
                self.outcomes.append(("the parser of " + name, s, its))

    # ------------------------------------------------------------ tokens
    def tokens(self, f):
        """f(where, token list as seen in one group, index, inside of an attribute, enclosing tokens, facts) for every emitted token"""
        for where, s, items in self.outcomes:
            if items:
                self.group(where, items, 0, dict(s.facts), f)

    def group(self, where, items, attr, facts, f):
        for seq, fs in flat(items, facts):
            for i, t in enumerate(seq):
                f(where, seq, i, attr, fs)
                if t[0] == "g":
                    a = t[1] == "[" and (i and seq[i - 1] == ("p", "#") or i > 1 and seq[i - 1] == ("p", "!") and seq[i - 2] == ("p", "#"))
                    self.group(where, t[2], attr + 1 if attr or a else 0, fs, f)

    # ------------------------------------------------------------ diagnostics
    def diagnostics(self):
        """[(where, diagnostic, lists it is reported for each element of, facts)]"""
        out = []

        def of(where, s):
            diag_items(s.cells.get(DIAG, ("seq", ()))[1], (), dict(s.facts), lambda d, lists, facts: out.append((where, d, lists, facts)))
        for where, s, items in self.outcomes:
            of(where, s)
        for name, s, v in self.par.seen:
            of("the parser of " + name, s)
        for where, kind, info, s, at in self.stops:
            if kind == "abort":
                out.append((where, info, (), dict(s.facts)))
            of(where, s)
        return out


class Parsers(Parsing):
    """the parsers once more, collecting what they make and report"""
    def __init__(self, dump):
        super().__init__(dump)
        self.seen = []
        self.spans = True

    def outcome(self, name, s, v, bc, at=None):
        self.seen.append((name, s, v))
        return super().outcome(name, s, v, bc, at)


def diag_items(its, lists, facts, f):
    """f(diagnostic, lists it is reported for each element of, facts)"""
    for e in its:
        if e[0] == "e" and e[1][0] == "diag":
            f(e[1], lists, facts)
        elif e[0] in ("star", "alt"):
            for g, x in e[2]:
                fs = dict(facts)
                fs.update(dict(g))
                diag_items(x, lists + (e[1],) if e[0] == "star" else lists, fs, f)


def streams(v):
    """token streams inside of a value"""
    out = []
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(x) == 2 and x[0] == "ts" and isinstance(x[1], tuple):
            out.append(x[1])
            continue
        todo.extend(x)
    return out


def flat(items, facts, limit=64):
    """the token lists that may stand for `items`: repetitions are shown once per case, between whatever surrounds them.
    Yields (tokens, facts)"""
    def f(its):
        out = [((), {})]
        for t in its:
            if t[0] in ("star", "alt"):
                cases = []
                for g, x in t[2]:
                    for seq, fs in f(x):
                        cases.append((seq, dict(list(fs.items()) + list(g))))
                if not cases:
                    continue
                if len(out) * len(cases) <= limit:
                    out = [(a + b, dict(list(fa.items()) + list(fb.items()))) for a, fa in out for b, fb in cases]
                else:
                    # every case once
                    a0, fa0 = out[0]
                    extra = [(a0 + b, dict(list(fa0.items()) + list(fb.items()))) for b, fb in cases[1:]]
                    b0, fb0 = cases[0]
                    out = [(a + b0, dict(list(fa.items()) + list(fb0.items()))) for a, fa in out] + extra
            else:
                out = [(a + (t,), fa) for a, fa in out]
        return out
    for seq, fs in f(items):
        d = dict(facts)
        d.update(fs)
        yield seq, d


def const(t):
    """text of an identifier that does not depend on the input"""
    if t[0] == "id" and len(t[1]) == 1 and isinstance(t[1][0], str):
        s = t[1][0]
        return s[2:] if s.startswith("r#") else s
    return None


def is_raw(t):
    return t[1][0].startswith("r#")


def colons(seq, i):
    """a `::` ends before position i"""
    return i >= 2 and seq[i - 1] == ("p", ":") and seq[i - 2] == ("p", ":")


def operand(t):
    """something a path or an expression may end with"""
    if t[0] == "id":
        c = const(t)
        return c is None or c not in STARTS or is_raw(t)
    return t[0] in USER or t == ("p", ">") or t[0] == "g" or t[0] == "raw"


def leading(seq, i):
    """the identifier at i follows a leading `::`"""
    if not colons(seq, i):
        return False
    return i == 2 or not (seq[i - 3][0] in USER or operand(seq[i - 3]) and seq[i - 3][0] != "g")


def user(t):
    """tokens of the user's, in this token"""
    if t[0] in USER:
        return True
    if t[0] == "id":
        return False
    if t[0] == "g":
        return any(user(x) for x in t[2])
    if t[0] in ("star", "alt"):
        return any(user(x) for g, its in t[2] for x in its)
    return False


def around(seq, i, n=6):
    from engine.run import show_items
    try:
        return show_items(tuple(x if x[0] != "g" else ("g", x[1], (("p", ".."),)) for x in seq[max(0, i - n):i + 3]))[:160]
    except Exception:
        return "?"


# ---------------------------------------------------------------- absolute paths
def paths(sc):
    out = []

    def f(where, seq, i, attr, facts):
        t = seq[i]
        n = const(t)
        if n is None or attr:
            return
        raw = is_raw(t)
        if not raw and n in RELATIVE:
            out.append(Item(where, "generated code names no path relative to the user's crate", "`%s` in: %s" % (n, around(seq, i))))
            return
        if not raw and n in KEYWORDS:
            return
        if i and seq[i - 1] == ("p", ".") and not (i > 1 and seq[i - 2] == ("p", ".")):
            return
        if colons(seq, i):
            if leading(seq, i) and n not in ROOTS:
                out.append(Item(where, "generated paths start at a known crate", "`::%s` in: %s" % (n, around(seq, i))))
            return
        if n.startswith("__"):
            return
        if i and seq[i - 1] == ("p", "'"):
            return
        if bound(seq, i) or is_bound(seq, i, n):
            return
        nxt = seq[i + 1] if i + 1 < len(seq) else None
        if n in PRIMITIVE and nxt != ("p", "!"):
            return
        if nxt == ("p", ":") and not (i + 2 < len(seq) and seq[i + 2] == ("p", ":")):
            return
        out.append(Item(where, "generated code uses absolute paths", "`%s` is resolved wherever the macro is used, in: %s" % (n, around(seq, i))))
    sc.tokens(f)
    return out


def bound(seq, i):
    """the identifier at i is bound there"""
    j = i - 1
    while j >= 0 and const(seq[j]) in ("mut", "ref"):
        j -= 1
    if j >= 0 and const(seq[j]) in ("let", "fn", "static", "const", "mod", "struct", "enum", "trait", "type", "for", "use"):
        return True
    nxt = seq[i + 1:i + 3]
    if nxt == (("p", "="), ("p", ">")):
        return True
    return i in closure_params(seq)


_cp = {}


def closure_params(seq):
    """positions between the bars of closures"""
    k = id(seq)
    if k in _cp and _cp[k][0] is seq:
        return _cp[k][1]
    out = set()
    i, n = 0, len(seq)
    while i < n:
        if seq[i] == ("p", "|") and (i == 0 or not operand(seq[i - 1]) or const(seq[i - 1]) == "move"):
            j = i + 1
            while j < n and seq[j] != ("p", "|"):
                j += 1
            if j < n:
                typed = False
                for x in range(i + 1, j):
                    if seq[x] == ("p", ":"):
                        typed = True
                    elif seq[x] == ("p", ","):
                        typed = False
                    elif seq[x][0] == "id" and not typed:
                        out.add(x)
            i = j
        i += 1
    _cp[k] = (seq, out)
    return out


def is_bound(seq, i, n):
    return any(const(seq[j]) == n and bound(seq, j) for j in range(i))


# ---------------------------------------------------------------- bindings and captures
def bindings(sc):
    out = []

    def f(where, seq, i, attr, facts):
        t = seq[i]
        if t == ("p", "?") and not attr:
            out.append(Item(where, "generated code never leaves the function of the user", "`?` in: " + around(seq, i)))
        n = const(t)
        if n is None:
            return
        if attr:
            # the name of a lint
            if i == 0 and attr == 1:
                if n not in ("allow", "doc"):
                    out.append(Item(where, "generated attributes do not affect the user's code", "`#[%s]`" % n))
                return
            return
        raw = is_raw(t)
        if not raw and n in LEAVES:
            out.append(Item(where, "generated code never leaves the function of the user", "`%s` in: %s" % (n, around(seq, i))))
            return
        if not raw and n in CAPTURE:
            if any(user(x) for x in seq[i + 1:]):
                out.append(Item(where, "the user's code keeps its surroundings", "`%s` around it: %s, in: %s" % (n, CAPTURE[n], around(seq, i))))
            return
        if not raw and n in ("use", "mod", "extern", "macro_rules") and (n != "macro_rules" or seq[i + 1:i + 2] == (("p", "!"),)):
            out.append(Item(where, "generated code binds no names that the user's code could mean", "`%s` in: %s" % (n, around(seq, i))))
            return
        if bound(seq, i) and not n.startswith("__") and n != "_" and n not in KEYWORDS:
            if any(user(x) or x[0] == "id" and const(x) is None for x in seq[i + 1:]):
                out.append(Item(where, "generated code binds no names that the user's code could mean", "`%s` is bound in: %s" % (n, around(seq, i))))

    def g(where, seq, i, attr, facts):
        t = seq[i]
        if t[0] == "g" and t[1] == "(" and attr == 1 and i and const(seq[i - 1]) == "allow":
            for x in t[2]:
                if x[0] == "id" and const(x) not in LINTS:
                    out.append(Item(where, "lints of the user's code are not silenced", "`#[allow(%s)]`" % const(x)))
    sc.tokens(f)
    sc.tokens(g)
    return out


# ---------------------------------------------------------------- spans
def subterms(x, seen=None):
    todo = [x]
    seen = set()
    while todo:
        y = todo.pop()
        if not isinstance(y, (tuple, frozenset)) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, tuple):
            yield y
        todo.extend(y)


def under(base, owner):
    """`base` is (in) the part `owner` of the input"""
    n = len(owner)
    return any(t[:n] == owner for t in subterms(base))


def from_input(base):
    return any(t[:1] in (("in",), ("input",)) for t in subterms(base))


def untracked(base):
    return base == "gen" or any(t[:1] in (("havoc",), ("unknown",), ("stuck",), ("phi",)) for t in subterms(base)) if isinstance(base, tuple) else base == "gen"


def opaque(x):
    return any(t[:1] in (("call",), ("havoc",), ("unknown",), ("stuck",), ("phi",)) for t in subterms(x))


# what an error is about, by its message -> the part of the input it points to; the names are those of the types
# of the parsed input, a message or a name that does not occur decides nothing
SUBJECTS = [
    (r"modifier", "modifier", r"\.modifier\b"),
    (r"does not take any values", "value", r"\.value\b"),
    (r"unsupported prefix", "prefixes", r"\.prefixes\b"),
    (r"closure arguments are not supported", "children_args", r"\.children_args\b"),
    (r"spread syntax is not supported", "Spread", r"\.Spread\b"),
    (r"selector shorthands are not supported", "selectors", r"\.selectors\b"),
    (r"event type must be|expected identifier", "key", r"\.key\b"),
    (r"unknown directive|` is not supported on", "dir", r"\.dir\b"),
    (r"function generics", "tag", r"\.tag\b"),
]


def part_names(I):
    c = I.__dict__.get("_partnames")
    if c is None:
        c = I._partnames = {n for t in I.p.types if t.get("k") == "adt" and t["path"].startswith("ast::")
                            for v in t["variants"] for n in [v["n"]] + [f[0] for f in v["f"]]}
    return c


def not_subject(sc, where, d, base):
    """the part the error should point to, if it does not"""
    N = sc.namers.get(where)
    if N is None:
        return None
    for pat, name, path in SUBJECTS:
        if re.search(pat, message(d)) and name in part_names(N.I):
            k = N.key(base)
            # a part that cannot be named decides nothing
            return None if re.search(path, k) or re.search(r"[#(]|\.\d", k.replace("first(", "")) else name
    return None


def maybe_end(facts, base):
    """the position `base` may be the end of the macro's input"""
    if len(base) != 3 or not isinstance(base[2], int) or not isinstance(base[1], tuple) or base[1][:1] == ("toks",):
        return False
    f = facts.get(("tok", base[1], base[2]))
    if f is None:
        return True
    return ("EOF" in f[1]) == bool(f[0])


def message(d):
    from engine.run import show_str
    try:
        return show_str(d[2])[:80]
    except Exception:
        return str(d[2])[:80]


def locations(sc, undecided):
    """every diagnostic points to the part of the input it is about"""
    out = []
    n = 0
    for where, d, lists, facts in sc.diagnostics():
        if d[0] != "diag":
            continue
        n += 1
        base = d[3][1] if d[3][0] == "span" else "gen"
        if base[:1] == ("resolved",):
            base = base[1]
        at = short(d[4]) if len(d) > 4 and d[4] else where
        if opaque(d[2]) and (base == "cs" or not from_input(base)):
            # whether it is reported at all depends on a function that is not modelled
            undecided.append("location of `%s` in %s" % (message(d), at))
        elif base == "cs":
            out.append(Item(at, "diagnostics point into the input", "`%s` points to the macro call as a whole" % message(d)))
        elif base[:1] == ("at",) and isinstance(base[1], tuple) and base[1][:1] != ("errpos",) and maybe_end(facts, base):
            out.append(Item(at, "diagnostics point into the input", "`%s` points to the next token, but the input may have ended (that is the macro call as a whole)" % message(d)))
        elif untracked(base):
            undecided.append("location of `%s` in %s" % (message(d), at))
        elif not from_input(base):
            out.append(Item(at, "diagnostics point into the input", "`%s` points to no token of the input: %s" % (message(d), str(base)[:80])))
        else:
            subj = [x for x in lists if x[:1] != ("loop",)]
            if subj and not any(under(base, ("elem", s)) for s in subj) and not any(s[:1] == ("groups",) and under(base, ("elem", s[1])) for s in subj):
                out.append(Item(at, "a diagnostic points to the part it is about", "`%s` is reported for each element of a list, but points elsewhere: %s" % (message(d), str(base)[:100])))
                continue
            x = not_subject(sc, where, d, base)
            if x:
                out.append(Item(at, "a diagnostic points to the part it is about", "`%s` is about `%s`, but points to %s" % (message(d), x, sc.namers[where].key(base)[:100])))
    return out, n


def hygiene(sc, undecided):
    """names of the input keep the span of the name, unless they name something of the framework"""
    out = []
    count = [0]

    def f(where, seq, i, attr, facts):
        t = seq[i]
        if t[0] == "u" and t[1][:1] == ("retext",):
            out.append(Item(where, "a name of the input keeps the span of that name", "tokens of the input are printed and read again: " + around(seq, i)))
        if t[0] != "id" or const(t) is not None or len(t) < 3:
            return
        if colons(seq, i) and framework(seq, i):
            return
        owners = []
        for x in subterms(t[1]):
            if x[:1] == ("text",):
                owners.append(x[1])
            elif x[:1] == ("sym",) and len(x) == 3 and x[2] is None and isinstance(x[1], tuple) and x[1][:1] not in (("text",), ("litval",)):
                owners.append(x[1])
        owners += [a for a in t[1] if isinstance(a, tuple)]
        for a in list(owners):
            if a[:1] in (("text",), ("op",), ("star",), ("sym",)):
                owners += [y for y in subterms(a) if y[:1] in (("in",), ("elem",), ("first",), ("pathident",), ("nt",), ("at",), ("last",))]
        owners = [o for o in owners if o[:1] in (("in",), ("elem",), ("first",), ("pathident",), ("nt",), ("at",), ("last",))]
        if not owners:
            return
        count[0] += 1
        base = t[2][1]
        if base[:1] == ("resolved",):
            out.append(Item(where, "a name of the input keeps the span of that name", "the identifier is resolved at the macro call: " + around(seq, i)))
        elif base == "cs":
            out.append(Item(where, "a name of the input keeps the span of that name", "the identifier is made at the macro call: " + around(seq, i)))
        elif untracked(base):
            undecided.append("span of an identifier: " + around(seq, i))
        elif not any(under(base, o) or len(o) > 2 and under(base, o[:-1]) for o in owners):
            out.append(Item(where, "a name of the input keeps the span of that name", "the identifier has the span of something else: " + around(seq, i)))
    sc.tokens(f)
    return out, count[0]


def framework(seq, i):
    """the identifier at i belongs to a path that starts with `::leptos` / `::std`"""
    j = i
    while colons(seq, j) and j >= 3 and seq[j - 3][0] == "id":
        j -= 3
    return leading(seq, j) and const(seq[j]) in ROOTS
