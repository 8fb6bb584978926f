"""Comparison of every parser of the macro with the grammar (check/spec_parse.py)."""
import re
import time
from engine.core import norm_str
from engine.cuts import Cuts
from engine.ir import Prog
from engine.run import new, entry, analyse, show_key, show_facts
from engine.util import atoms, tokens_of, DIAG
from .compare import Diff, dedupe
from .spec_parse import Spec, LABELS, TRIED, FIELDS, Mismatch, Stop
from .world import Fork, Undecided, Acc, explore, sorted_guards

RECURSIVE = {"Element", "Children", "Child"}
NAMES = tuple(LABELS)


class Loop:
    def __init__(self, lid, cell, st0, hdr, plan, backs, first):
        self.lid, self.cell, self.st0, self.hdr, self.plan, self.backs, self.firsts = lid, cell, st0, hdr, plan, backs, first
        o = st0.cells[cell]
        self.orig = (o[1], o[2])
        self.base = hdr.cells[cell][1]


def last(path):
    return path.split("::")[-1]


class Parsing:
    """one run of the comparison over all parsers of a program"""
    def __init__(self, dump):
        self.p = Prog(dump + "/leptos_mview_core.json")
        self.cuts = Cuts(self.p, True, NAMES)
        self.full = {}
        for path in self.cuts.parse:
            if last(path) in LABELS:
                self.full[last(path)] = path
        self.recursive = RECURSIVE & set(self.full)
        self.diffs, self.undecided, self.fns = [], [], []
        self.spans = False
        self.worlds = self.nloops = self.steps = 0
        self.unmodelled = {}
        self.panics = []
        self.calls = {}               # parser -> {(called parser, position)}

    def run(self):
        t = time.time()
        for name in NAMES:
            if name not in self.full:
                continue
            try:
                self.check(name)
            except Exception as e:
                import traceback
                self.undecided.append((name, "%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-1800:]))
        self.left_recursion()
        self.diffs = dedupe(self.diffs)
        self.wall = time.time() - t
        return self

    # ------------------------------------------------------------ one parser
    def check(self, name):
        self.alone = set()
        self.analysis(name, set())
        if self.alone:
            # repetitions that the grammar does not have: a few rounds of them, compared one by one
            keep = self.undecided, self.calls, self.panics, self.nloops
            self.undecided, self.calls, self.panics = [], {}, []
            try:
                self.analysis(name, self.alone)
                self.fns.pop()
            finally:
                self.undecided, self.calls, self.panics, self.nloops = keep

    def analysis(self, name, unroll):
        key = self.cuts.parse[self.full[name]]
        I = self.I = new(self.p, self.cuts)
        I.unroll = frozenset(unroll)
        I.spans = self.spans
        self.cuts.used, self.cuts.again = {}, []
        self.where = key
        st, args, oc, bc = entry(I, key)
        outs = analyse(I, key, args, st)
        stops = list(I.stops)
        self.steps += I.steps
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        self.loops = []
        for lid, st0, hdr, plan, backs, first in I.loops:
            cells = [c for c, pl in plan.items() if pl == ("stream",)]
            for c in cells:
                self.loops.append(Loop(lid, c, st0, hdr, plan, backs, first))
            self.progress(name, lid, st0, hdr, plan, backs, cells)
        self.nloops += len(self.loops)
        for callee, uses in self.cuts.used.items():
            for caller, s in uses:
                if caller == key and s[1] == ("input",) and s[2] == 0:
                    self.calls.setdefault(self.full[name], set()).add(callee)
        for what, pos, fn, at in self.cuts.again:
            self.diffs.append(Diff(("C33",), key, "each nested view is parsed once", "%s is parsed again where it was already tried, at %s" % (last(what), at), "again"))
        self.todo, self.done = [], set()
        n = 0
        for s, v in outs:
            n += 1
            self.outcome(name, s, v, bc)
        for kind, info, s, stack, at in stops:
            if kind == "abort":
                self.outcome(name, s, None, bc, at)
            elif kind == "panic":
                self.panic(name, info, s, at)
        while self.todo:
            rec, step, val = self.todo.pop()
            self.iteration(name, rec, step, val)
        self.fns.append((name, key, n, len(stops)))

    def outcome(self, name, s, v, bc, at=None):
        I = self.I
        where = self.where
        if s.taint:
            self.undecided.append((name, "depends on " + sorted(s.taint)[0]))
            return
        if v is None:
            kind, val = "abort", None
        else:
            v = I.deref(s, v)
            if v[0] != "adt":
                self.undecided.append((name, "a result that is not tracked"))
                return
            kind = I.p.ty(v[1])["variants"][v[2]]["n"].lower()
            val = I.freeze(s, v[3][0]) if v[3] else None
            if kind not in ("ok", "err"):
                raise Undecided("not a Result")
        diag = s.cells.get(DIAG, ("seq", ()))
        stream = I.deref(s, s.cells[bc])

        def f(w):
            self.world = w
            sp = Spec(w, self)
            mine = self.own(w, diag)
            try:
                r = getattr(sp, "p_" + name)((("input",), 0))
            except Stop:
                return []
            except Mismatch as m:
                bases = self.loop_bases((stream, val), w)
                if bases - sp.adopted:
                    self.alone |= {x[1][:2] for x in bases - sp.adopted}
                    raise Undecided("a loop that has no counterpart")
                if kind != "ok" and not mine:
                    lab = ("C26", "C28") if name not in TRIED else LABELS[name]
                    return [Diff(lab + ("C03",), where, m.expected, "%s (%s)" % (m.got, kind), "loop")]
                return [Diff(LABELS[name] + ("C03", "C13"), where, m.expected, m.got, "loop")] if not mine and kind == "ok" else []
            left = self.loop_bases((stream, val), w) - sp.adopted
            if left:
                self.alone |= {x[1][:2] for x in left}
                raise Undecided("a loop that has no counterpart")
            return self.compare(w, name, sp, r, kind, val, stream, mine)
        try:
            rs = explore(I, s.facts, f)
        except Undecided as x:
            self.undecided.append((name, str(x)))
            return
        self.worlds += len(rs)
        for w, ds in rs:
            for d in ds:
                d.world = w
            self.diffs += ds

    def loop_bases(self, parts, w):
        out = set()
        todo = list(parts) + list(w.st.facts)
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, frozenset)):
                if isinstance(x, tuple) and len(x) == 4 and x[0] == "loop" and isinstance(x[1], tuple):
                    out.add(x)
                todo.extend(x)
        return out

    def own(self, w, diag):
        """something is reported (whatever repetitions report is looked at on its own)"""
        for x in diag[1]:
            if x[0] == "e":
                return True
            if x[0] == "star" and x[1][:1] != ("loop",):
                raise Undecided("diagnostics of a repetition")
        return False

    @staticmethod
    def skips(got, exp):
        """tokens that belong to nothing are accepted"""
        if got is None or exp is None or got == exp:
            return ()
        if got[0] == exp[0]:
            return ("C14",) if isinstance(got[1], int) and isinstance(exp[1], int) and got[1] > exp[1] else ()
        x = got[0]
        while isinstance(x, tuple) and len(x) > 1 and x[0] in ("after", "eof", "behind"):
            x = x[2] if x[0] == "after" and len(x) > 2 else x[1]
            if x == exp[0]:
                return ("C14",)
        return ()

    def compare(self, w, name, sp, r, kind, val, stream, mine):
        where = self.where
        reported = mine or kind == "abort" or (kind == "err" and name not in TRIED)
        if r[0] == "ok" and not sp.bad:
            if kind != "ok" or mine:
                what = {"ok": "an error is reported", "err": "it does not parse", "abort": "it aborts"}[kind]
                lab = ("C28", "C26")
                if kind == "err" and name in TRIED:
                    lab = ("C28",) + LABELS[name] + ("C13",)
                return [Diff(lab, where, "%s parses" % name, what, "rejected")]
            out = []
            self.match(w, val, r[1], LABELS[name], out)
            self.nonempty(w, val, out)
            if r[2] is not None:
                got = (stream[1], stream[2]) if stream[0] == "stream" else None
                if got != r[2] and not self.at_end(w, got, r[2]):
                    out.append(Diff(LABELS[name] + ("C13", "C03") + self.skips(got, r[2]), where, "the input behind the construct: %s" % show_key(r[2]), show_key(got), "position"))
            return out
        if r[0] == "ok":
            if not reported and kind == "ok":
                return [Diff(("C14", "C03"), where, "an error: " + str(sp.why), "no error", "unreported")]
            return []
        # not this construct
        if name in TRIED and r[0] == "err":
            if kind == "ok" and not mine:
                return [Diff(("C14",) + LABELS[name], where, "not a %s" % name, "it parses", "accepted")]
            if kind == "abort" or mine:
                return [Diff(("C28", "C13"), where, "not a %s, without an error" % name, "an error is reported", "trial")]
            return []
        if not reported and kind == "ok":
            return [Diff(("C14",) + LABELS[name], where, "an error: not a %s" % name, "no error", "unreported")]
        if r[0] == "abort" and kind == "err" and not mine:
            return [Diff(("C14",), where, "an error at once", "it only does not parse", "unreported")]
        return []

    def nonempty(self, w, v, out):
        """lists of spans and the text of names are never left empty: their first one is asked for"""
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "adt":
            t = self.I.p.ty(v[1])
            if t.get("local"):
                for (n, ft), x in zip(t["variants"][v[2]]["f"], v[3]):
                    ty = self.I.p.ty(ft)
                    s = ty["s"]
                    if x[0] == "seq" and self.I.p.ty(ty["args"][0])["s"] in self.I.ne_tys if ty["k"] == "adt" and ty["args"] else False:
                        if not x[1] or all(e[0] == "star" for e in x[1]) and not self.some_iteration(w, x[1]):
                            out.append(Diff(("C11",), self.where, "a span for every name", "no span (%s)" % n, "empty"))
            for x in v[3]:
                self.nonempty(w, x, out)

    def some_iteration(self, w, items):
        for e in items:
            f = w.st.facts.get(("len", e[1]))
            if f is not None and (f[0] and 0 not in f[1] or not f[0] and 0 in f[1]):
                if all(any(y[0] == "e" for y in its) for g, its in e[2]):
                    return True
        return False

    def at_end(self, w, a, b):
        if a is None:
            return False

        def end(p):
            if p[0][0] == "eof":
                return True
            f = w.st.facts.get(("tok", p[0], p[1]))
            return f is not None and f[0] and f[1] == frozenset(("EOF",))
        return (a[0][0] == "eof" or b[0][0] == "eof") and end(a) and end(b)

    # ------------------------------------------------------------ loops
    def find_loop(self, p, w):
        for rec in self.loops:
            if rec.orig == p and self.consistent(rec, w):
                return rec
        return None

    def consistent(self, rec, w):
        for k, (pol, S) in rec.st0.facts.items():
            f = w.st.facts.get(k)
            if f is None:
                continue
            if f[0] and pol and not (f[1] & S) or f[0] and not pol and f[1] <= S or pol and not f[0] and S <= f[1]:
                return False
        return True

    def oblige(self, rec, step):
        w = step.__closure__ and [c.cell_contents for c in step.__closure__ if isinstance(c.cell_contents, Spec)]
        for r in self.loops:
            if r.base == rec.base and r.cell == rec.cell:
                k = (id(r), tuple(sorted((n, c.cell_contents) for n, c in zip(step.__code__.co_freevars, step.__closure__ or ())
                                         if isinstance(c.cell_contents, (str, bool)))), step.__code__)
                if k not in self.done and (self.world is None or self.consistent(r, self.world)):
                    self.done.add(k)
                    self.todo.append((r, step, None))

    world = None

    def iteration(self, name, rec, step, val):
        I = self.I
        for i, (b, facts) in enumerate(rec.backs):
            if b.taint:
                self.undecided.append((name, "depends on " + sorted(b.taint)[0]))
                continue
            self.transition(name, rec, step, b, facts, (rec.base, 0), None, rec.hdr)
        backs, exits = rec.firsts
        for b in backs:
            if not b.taint:
                self.transition(name, rec, step, b, b.facts, rec.orig, True, rec.st0)
        for o in exits:
            s = o[-1]
            if s.taint:
                continue

            def f(w):
                sp = Spec(w, self, None, True)
                try:
                    r = step(sp, rec.orig)
                except (Stop, Mismatch):
                    return []
                if r[0] == "push":
                    return [Diff(LABELS[name] + ("C03", "C13"), self.where, "the repetition goes on", "it ends", "loop")]
                return []
            self.add(name, s.facts, f)

    def add(self, name, facts, f):
        try:
            rs = explore(self.I, facts, f)
        except Undecided as x:
            self.undecided.append((name, str(x)))
            return
        self.worlds += len(rs)
        for w, ds in rs:
            for d in ds:
                d.world = w
            self.diffs += ds

    def transition(self, name, rec, step, b, facts, p, first, hdr):
        I = self.I
        stream = I.deref(b, b.cells[rec.cell])
        d0, d1 = hdr.cells.get(DIAG, ("seq", ())), b.cells.get(DIAG, ("seq", ()))
        mine = len(d1[1]) > len(d0[1])
        got = (stream[1], stream[2])

        def f(w):
            sp = Spec(w, self, rec if first is None else None, first)
            try:
                r = step(sp, p)
            except (Stop, Mismatch):
                return []
            lab = LABELS[name] + ("C03", "C13")
            if r[0] == "stop":
                if got == p and not mine:
                    return []
                return [Diff(lab + (() if mine else self.skips(got, p)), self.where, "the repetition ends", "it goes on behind %s" % show_key(got), "loop")]
            if r[0] in ("err", "abort"):
                if not mine:
                    return [Diff(("C14",), self.where, "an error", "the repetition goes on", "loop")]
                return []
            if sp.bad:
                if not mine:
                    return [Diff(("C14", "C03"), self.where, "an error: " + str(sp.why), "no error", "unreported")]
            elif mine:
                return [Diff(("C28", "C13"), self.where, "no error", "an error is reported", "spurious")]
            if r[2] is not None and got != r[2] and not self.at_end(w, got, r[2]):
                return [Diff(lab + (() if mine else self.skips(got, r[2])), self.where, "the input behind: %s" % show_key(r[2]), show_key(got), "position")]
            return []
        self.add(name, facts, f)

    def pushed(self, name, rec, star, step, labels, mt, where):
        """the cases of a repetition in a value against what every iteration has to add"""
        out = []
        for b, facts in rec.backs:
            if b.taint:
                raise Undecided("depends on " + sorted(b.taint)[0])

            def f(w):
                sp = Spec(w, self, rec, None)
                try:
                    r = step(sp, (rec.base, 0))
                except (Stop, Mismatch):
                    return []
                its = ()
                for g, x in (star[2] if star is not None else ()):
                    if w.holds(sorted_guards(g)):
                        its = x
                        break
                if r[0] == "push":
                    return mt(w, its, r[1]) if not sp.bad else []
                if its and not sp.bad and r[0] == "stop":
                    return [Diff(labels, where, "nothing is added", show_key(its)[:200], "loop")]
                return []
            for w, ds in explore(self.I, facts, f):
                self.worlds += 1
                out += ds
        return out

    # ------------------------------------------------------------ termination
    def progress(self, name, lid, st0, hdr, plan, backs, cells):
        """every iteration consumes input (or leaves nothing to consume)"""
        I = self.I
        if any(pl[0] in ("iter", "havoc", "count") for pl in plan.values()):
            return
        streams = [c for c, v in hdr.cells.items() if isinstance(v, tuple) and v and v[0] == "stream"]
        if not streams:
            return
        for b, facts in backs:
            if b.taint:
                continue
            nf = facts.get(("b", "notfirst", ("loop", lid)))
            if nf is not None and nf[0] and nf[1] == frozenset((0,)):
                continue
            ok = False
            for c in streams:
                h, v = hdr.cells[c], b.cells.get(c)
                if v is None or v[0] != "stream":
                    ok = True
                elif self.behind(v[1], v[2], h[1], h[2], facts):
                    ok = True
                else:
                    f = facts.get(("tok", v[1], v[2]))
                    if v != h and f is not None and f[0] and f[1] == frozenset(("EOF",)):
                        ok = True
            if not ok:
                self.diffs.append(Diff(("C12",), self.where, "every iteration consumes input", "an iteration that consumes nothing: " + show_facts(facts)[:300], "progress"))

    def behind(self, base, k, hb, hk, facts):
        """is (base, k) certainly behind (hb, hk)?"""
        moved = False
        n = 0
        while n < 20:
            n += 1
            if base == hb:
                return k > hk or moved
            if base[0] == "eof":
                # everything was taken
                return True
            if base[0] in ("after", "errpos"):
                moved = moved or k > 0
                if base[0] == "after" and last(base[1]) not in ("Attrs", "SelectorShorthands", "Children"):
                    moved = True
                k, base = base[3], base[2]
                continue
            if base[0] == "loop":
                moved = moved or k > 0
                k, base = base[3], base[2]
                continue
            return False
        return False

    def left_recursion(self):
        for a in self.calls:
            seen, work = set(), list(self.calls[a])
            while work:
                x = work.pop()
                if x == a:
                    self.diffs.append(Diff(("C12", "C11"), self.cuts.parse[a], "no parser calls itself before it has consumed input", "%s reaches itself at the same position" % a, "recursion"))
                    break
                if x in seen:
                    continue
                seen.add(x)
                work.extend(self.calls.get(x, ()))

    def panic(self, name, info, s, at):
        if s.taint:
            self.undecided.append((name, "depends on " + sorted(s.taint)[0]))
            return
        self.panics.append((name, info, show_facts(s.facts)[:300], at))
        self.diffs.append(Diff(("C11",), "%s (%s)" % (self.where, at), "no panic", "%s if %s" % (info, show_facts(s.facts)[:400]), "panic"))

    # ------------------------------------------------------------ values
    def ty_of(self, full):
        for i, t in enumerate(self.p.types):
            if t["k"] == "adt" and t["path"] == full:
                return i
        raise Undecided("type " + full)

    def project(self, sym, pat):
        a = Acc(FakeWorld(self.I), sym)
        return a.field(pat).v

    def is_lit(self, sp, v, p):
        """is the value a literal: True for strings, False for others, None if it is no literal"""
        if v[0] == "variant":
            return None if v[1] != "Lit" else sp.cls(p, "STR")
        if v[0] == "nt":
            a = Acc(sp.w, ("sym", v, self.ty_of(v[1])))
            if a.variant() != "Lit":
                return None
            return a.pay("Lit").variant() == "Str"
        raise Undecided("value")

    def collapse(self, v):
        """a value rebuilt from all parts of an unknown value is that value"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "adt":
            parts = tuple(self.collapse(x) for x in v[3])
            if parts:
                roots = set()
                for i, x in enumerate(parts):
                    if x[0] == "str" and len(x[1]) == 1 and isinstance(x[1][0], tuple) and x[1][0][0] == "sym":
                        x = x[1][0]
                    if x[0] != "sym" or not isinstance(x[1], tuple) or len(x[1]) < 2:
                        roots.add(None)
                        continue
                    k = x[1]
                    t = self.I.p.ty(v[1])
                    if k[-1] != ("f", i):
                        roots.add(None)
                    elif t.get("enum"):
                        roots.add(k[:-2] if k[-2] == ("v", v[2]) else None)
                    else:
                        roots.add(k[:-1])
                if len(roots) == 1 and None not in roots:
                    return ("sym", roots.pop(), v[1])
            return ("adt", v[1], v[2], parts)
        return v

    def diff(self, labels, want, v, out):
        out.append(Diff(labels, self.where, show_pat(want), show_key(v)[:300], "value"))

    def unwrap(self, v):
        """newtypes and boxes around a value"""
        for _ in range(4):
            if v[0] == "adt":
                t = self.I.p.ty(v[1])
                if len(v[3]) == 1 and (t["path"].endswith("Box") or t.get("local") and not t.get("enum")):
                    v = v[3][0]
                    continue
            break
        return v

    def match(self, w, v, pat, labels, out):
        I = self.I
        if pat[0] == "any":
            return
        if pat[0] == "L":
            return self.match(w, v, pat[2], tuple(labels) + tuple(pat[1]), out)
        if v is None:
            return self.diff(labels, pat, ("nothing",), out)
        v = self.collapse(I.freeze(w.st, v))
        k = pat[0]
        if k == "nt" or k == "sym":
            want = pat if k == "nt" else pat[1][1]
            for _ in range(4):
                if v[0] == "sym" and v[1] == want:
                    return
                u = self.collapse(self.unwrap(v))
                if u == v:
                    break
                v = u
            if v[0] == "adt" and self.is_name(v) and k in ("nt", "sym"):
                # only the text of a name counts
                try:
                    rp = self.field_of(v, ("repr", FIELDS["repr"]))
                except Undecided:
                    rp = None
                if rp is not None:
                    want_at = (("sym", self.project(("sym", want, v[1]), ("repr", FIELDS["repr"]))[1], None),)
                    if atoms(I, w.st, rp) == want_at:
                        return
            return self.diff(labels, pat, v, out)
        if k in ("some", "none"):
            if v[0] == "sym":
                raise Undecided("an optional value that is not tracked")
            name = I.p.ty(v[1])["variants"][v[2]]["n"] if v[0] == "adt" else None
            if name is None:
                raise Undecided("an optional value that is not tracked")
            if name.lower() != k:
                return self.diff(tuple(labels) + (("C03",) if k == "some" else ()), pat, v, out)
            if k == "some":
                self.match(w, v[3][0], pat[1], labels, out)
            return
        if k == "variant":
            for _ in range(3):
                if v[0] == "adt" and I.p.ty(v[1]).get("enum"):
                    break
                u = self.collapse(self.unwrap(v))
                if u == v:
                    break
                v = u
            if v[0] != "adt" or not I.p.ty(v[1]).get("enum"):
                if v[0] == "sym" and isinstance(v[1], tuple) and v[1][:1] == ("nt",):
                    return self.diff(labels, pat, v, out)
                raise Undecided("a value that is not tracked: %s" % show_key(v)[:80])
            vs = I.p.ty(v[1])["variants"]
            names = [x["n"] for x in vs]
            if pat[1] not in names:
                raise Undecided("no variant %s" % pat[1])
            if names[v[2]] != pat[1]:
                return self.diff(labels, pat, v, out)
            for f, sub in pat[2].items():
                if isinstance(f, int):
                    x = v[3][f]
                else:
                    x = self.part(vs[v[2]]["f"], v[3], f)
                self.match(w, x, sub, labels, out)
            return
        if k == "struct":
            if v[0] == "sym" and isinstance(v[1], tuple) and v[1][:1] == ("nt",):
                return self.diff(labels, pat, v, out)
            if v[0] != "adt":
                raise Undecided("a value that is not tracked: %s" % show_key(v)[:80])
            for f, sub in pat[1].items():
                self.match(w, self.field_of(v, (f, FIELDS[f])), sub, labels, out)
            return
        if k == "tok":
            p = pat[1]
            at = ("at", p[0], p[1])
            if v[0] == "adt" and v[3] and last(I.p.ty(v[1])["path"]) == "Lit":
                v = v[3][0]
            t = tokens_of(I, w.st, v, v[2] if v[0] == "sym" else None)
            ok = (("u", at),), (("id", (("sym", ("text", at), None),)),), (("lit", (("sym", ("litval", at), None),)),), (("lit", (("sym", ("text", at), None),)),)
            if v[0] == "sym" and v[1] == at or t is not None and len(t) == 1 and t[0][1] in ok:
                return
            if t is None and v[0] not in ("sym", "ident", "litstr", "str"):
                raise Undecided("a token that is not tracked: %s" % show_key(v)[:80])
            return self.diff(labels, pat, v, out)
        if k == "rest":
            p = pat[1]
            if v[0] != "ts":
                raise Undecided("tokens that are not tracked")
            if v[1] == (("u", ("rest", p[0], p[1])),):
                return
            if v[1] == () and Spec(w, self).cls(p, "EOF"):
                return
            return self.diff(labels, pat, v, out)
        if k == "tokens":
            v = self.unwrap(v)
            if v[0] != "ts":
                raise Undecided("tokens that are not tracked")
            if self.same_tokens(v[1], pat[1]):
                return
            return self.diff(labels, pat, v, out)
        if k == "true":
            t = tokens_of(I, w.st, v) if v[0] != "adt" else None
            if v[0] == "adt":
                u = v
                for _ in range(4):
                    t = tokens_of(I, w.st, u)
                    if t is not None or u[0] != "adt" or not u[3]:
                        break
                    u = u[3][0]
            if t is None:
                b = [x for x in walk_terms(v) if isinstance(x, tuple) and x[:1] == ("bool",)]
                raise Undecided("a value that is not tracked: %s" % show_key(v)[:80])
            # the variant holding it has to be the literal
            if v[0] == "adt" and I.p.ty(v[1]).get("enum") and last(I.p.ty(v[1])["path"]) != "Lit" and I.p.ty(v[1])["variants"][v[2]]["n"] not in ("Lit", "Block"):
                return self.diff(labels, pat, v, out)
            if all(x[1] == (("id", ("true",)),) for x in t):
                return
            return self.diff(labels, pat, v, out)
        if k == "path":
            p = pat[1]
            if v[0] == "sym" and v[1] == ("path", p[0], p[1]):
                return
            if v[0] == "sym" and v[1][:1] != ("pathof",) and v[1][:1] != ("path",):
                raise Undecided("a path that is not tracked")
            return self.diff(labels, pat, v, out)
        if k == "pathof":
            if v[0] == "sym" and v[1][:1] == ("pathof",):
                x = v[1][1]
                at = atoms(I, w.st, x) if isinstance(x, tuple) and x[0] in ("ident", "str", "sym") else None
                if at is not None and w.atoms(norm_str(at)) == w.atoms(norm_str(pat[1])):
                    return
                return self.diff(labels, pat, v, out)
            if v[0] == "sym" and v[1][:1] == ("parsed",):
                t = v[1][1]
                if len(t) == 1 and t[0][0] == "id" and w.atoms(norm_str(t[0][1])) == w.atoms(norm_str(pat[1])):
                    return
                return self.diff(labels, pat, v, out)
            if v[0] == "sym" and v[1][:1] == ("path",):
                return self.diff(labels, pat, v, out)
            raise Undecided("a path that is not tracked")
        if k == "string":
            v = self.unwrap(v)
            if v[0] not in ("str", "ident") and not (v[0] == "sym"):
                raise Undecided("a name that is not tracked: %s" % show_key(v)[:80])
            self.match_seq(w, list(atoms(I, w.st, v)), pat[1], labels, out, self.str_piece)
            return
        if k == "list":
            v = self.unwrap(v)
            if v[0] == "sym" and v[1][:1] == ("misordered",) and any(x[0] == "star" for x in pat[1]):
                out.append(Diff(labels, self.where, "all that was written, in source order", "what earlier rounds collected is moved or dropped", "list"))
                return
            if v[0] != "seq":
                if v[0] == "adt" and I.p.ty(v[1])["path"].endswith("Vec"):
                    raise Undecided("a list that is not tracked")
                raise Undecided("a list that is not tracked")
            self.match_seq(w, list(v[1]), pat[1], labels, out, self.list_piece)
            return
        if k == "stream":
            v = self.unwrap(v)
            if v[0] != "ts":
                raise Undecided("tokens that are not tracked")
            self.match_seq(w, list(v[1]), pat[1], labels, out, self.tok_piece)
            return
        raise Undecided("pattern " + k)

    def is_name(self, v):
        return last(self.I.p.ty(v[1])["path"]) == "KebabIdent"

    def part(self, fields, vals, f):
        idx = [i for i, (n, t) in enumerate(fields) if n == f[0]] or [i for i, (n, t) in enumerate(fields) if re.search(f[1], self.I.p.ty(t)["s"])]
        if len(idx) != 1:
            raise Undecided("field %s not found" % (f,))
        return vals[idx[0]]

    def field_of(self, v, f):
        return self.part(self.I.p.ty(v[1])["variants"][v[2]]["f"], v[3], f)

    def same_tokens(self, got, want):
        def n(x):
            return ("g", x[1], tuple(n(y) for y in x[2])) if x[0] == "g" else ("id", norm_str(x[1])) if x[0] == "id" else tuple(x)
        return [n(x) for x in got] == [n(x) for x in want]

    # -------------------------------------------------------- sequences
    def match_seq(self, w, got, want, labels, out, piece):
        """got: items with ("star", source, cases, sep); want: ("one", pat) | ("star", loop, step)"""
        got = list(got)
        i = 0
        for x in want:
            if x[0] == "one":
                n, ds = piece(w, got[i:], x[1], labels)
                out += ds
                if n is None:
                    return
                i += n
                continue
            _, rec, step = x
            star = None
            if i < len(got) and isinstance(got[i], tuple) and got[i][0] == "star":
                star = got[i]
                if star[1][0] in ("part", "rev", "misordered") and ("loop", rec.lid) in star[1]:
                    out.append(Diff(labels, self.where, "all that was written, in source order", "%s of it" % show_key(star[1])[:80], "list"))
                    i += 1
                    continue
                if star[1] != ("loop", rec.lid):
                    raise Undecided("a repetition over something else")
                if len(star) > 3 and star[3]:
                    out.append(Diff(labels, self.where, "no separator", str(star[3]), "loop"))
                i += 1

            def mt(w2, its, p):
                n, ds = piece(w2, list(its), p, labels, whole=True)
                return ds
            out += self.pushed(None, rec, star, step, labels, mt, self.where)
        if i < len(got):
            if any(isinstance(x, tuple) and x[0] in ("unknown", "star") for x in got[i:]):
                raise Undecided("a list that is not tracked")
            out.append(Diff(labels, self.where, "nothing more", show_key(tuple(got[i:]))[:200], "list"))

    def list_piece(self, w, got, pat, labels, whole=False):
        if not got:
            return None, [Diff(labels, self.where, show_pat(pat), "nothing", "list")]
        if got[0][0] != "e":
            raise Undecided("a list that is not tracked")
        out = []
        self.match(w, got[0][1], pat, labels, out)
        if whole and len(got) != 1:
            out.append(Diff(labels, self.where, "one element", "%d elements" % len(got), "list"))
        return 1, out

    def str_piece(self, w, got, pat, labels, whole=False):
        if pat[0] == "number":
            p = pat[2]
            ats = [pat[1] + (a,) for a in (("sym", ("at", p[0], p[1]), None), ("sym", ("text", ("at", p[0], p[1])), None))]
            if any(norm_str(tuple(got)) == norm_str(a) for a in ats):
                return len(got), []
            return None, [Diff(labels, self.where, show_pat(pat), show_key(tuple(got)), "text")]
        want = w.atoms(norm_str(pat[1]))
        have = w.atoms(norm_str(tuple(x for x in got if not (isinstance(x, tuple) and x[0] == "star"))))
        n = len([x for x in got if not (isinstance(x, tuple) and x[0] == "star")])
        if have == want:
            return n, []
        return None, [Diff(labels, self.where, show_pat(pat), show_key(tuple(got))[:200], "text")]

    def tok_piece(self, w, got, pat, labels, whole=False):
        n = len(pat[1])
        if self.same_tokens(got[:n], pat[1]) and (not whole or len(got) == n):
            return n, []
        return None, [Diff(labels, self.where, show_pat(pat), show_key(tuple(got))[:200], "tokens")]


class FakeWorld:
    def __init__(self, I):
        from engine.core import State
        self.I = I
        self.st = State({"diag": ("seq", ())}, {}, 10 ** 6)


def walk_terms(x):
    yield x
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from walk_terms(y)


def show_pat(p):
    def f(x):
        if isinstance(x, dict):
            return tuple((k if not isinstance(k, tuple) else k[0], f(v)) for k, v in x.items())
        if isinstance(x, (tuple, list)):
            return tuple(f(y) for y in x)
        if callable(x) or isinstance(x, Loop):
            return "..."
        return x
    return show_key(f(p))[:300]
