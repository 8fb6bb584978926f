"""property -> the analysis that decides it"""
import os
from .main import Violation, Result

RULES = {}


def prop(title, expansion=True, parsing=True):
    def run(ctx, pid):
        r = Result()
        r.coverage = {"rule": title}
        what = []
        if expansion:
            e = ctx.expansion()
            for d in e.diffs:
                if pid in d.labels:
                    r.violations.append(Violation(key_of(d), d.where, title, "specified: %s -- emitted: %s" % (d.expected, d.got)))
            r.undecided += sorted(set(map(str, e.C.undecided))) + [str(x[:3]) for x in e.errors]
            what.append("the %d functions that build the expansion (every outcome was compared with the documented expansion)" % len(e.fns))
            r.coverage["expansion"] = {
                "functions_analysed": [x[1] for x in e.fns],
                "outcomes": sum(len(x[2][0]) for x in e.fns),
                "worlds_compared": e.C.worlds,
                "repetitions_compared": e.C.stars,
                "element_kinds_compared": e.C.nspec,
                "statements_interpreted": e.I.steps,
                "nested_views_expanded": e.nested,
                "library_calls_without_model": dict(e.I.unmodelled),
            }
        if parsing:
            e = ctx.parsing()
            for d in e.diffs:
                if pid in d.labels:
                    r.violations.append(Violation(key_of(d), d.where, title, "specified: %s -- found: %s" % (d.expected, d.got)))
            r.undecided += [str(x[:2]) for x in e.undecided]
            what.append("the %d parsers (every outcome was compared with the grammar)" % len(e.fns))
            r.coverage["parsing"] = {
                "functions_analysed": [x[1] for x in e.fns],
                "outcomes": sum(x[2] for x in e.fns),
                "diverging_paths": sum(x[3] for x in e.fns),
                "worlds_compared": e.worlds,
                "loops_compared": e.nloops,
                "statements_interpreted": e.steps,
                "library_calls_without_model": dict(e.unmodelled),
            }
        r.coverage["explanation"] = "Abstract interpretation of the MIR of %s: %s." % (" and of ".join(what), title)
        return r
    return run


def key_of(d):
    import hashlib
    return hashlib.sha1(repr(d.key()).encode()).hexdigest()[:12]


PROPS = {}
for pid, title in {
    "C02": "children appear once and in source order",
    "C03": "nothing is dropped without an error",
    "C04": "order of setters",
    "C05": "directives of elements",
    "C06": "attributes and directives of components",
    "C07": "slots",
    "C17": "bracketed values",
    "C18": "user expressions verbatim, once",
    "C19": "tag constructors",
    "C20": "spelling of names",
    "C21": "typed and untyped attributes",
    "C22": "boolean attributes and shorthands",
    "C23": "children closures",
    "C24": "selector shorthands",
    "C25": "component paths, generics and shape",
    "C27": "one root node, or one fragment",
    "C28": "valid input is never rejected",
}.items():
    PROPS[pid] = prop(title)

for pid, title in {
    "C11": "no input makes a parser panic",
    "C12": "parsing terminates",
    "C13": "lookahead leaves no trace",
    "C14": "malformed input is reported",
    "C26": "every construct is parsed as documented",
    "C33": "nested views are parsed and expanded once",
}.items():
    PROPS[pid] = prop(title, expansion=pid in ("C11", "C14", "C33"))


# ---------------------------------------------------------------- tokens, diagnostics, effects
def items_key(x):
    import hashlib, re
    return hashlib.sha1(repr((re.sub(r"\d+", "", x.where), x.rule, re.sub(r"\d+", "", x.detail))).encode()).hexdigest()[:12]


def add_items(r, items):
    seen = set()
    for x in items:
        k = items_key(x)
        if k not in seen:
            seen.add(k)
            r.violations.append(Violation(k, x.where, x.rule, x.detail))


def scanned(title, f):
    def run(ctx, pid):
        r = Result()
        sc = ctx.scan()
        r.undecided += sc.undecided
        n = f(ctx, sc, r)
        r.coverage.update({
            "rule": title,
            "explanation": "Abstract interpretation of the MIR of the expansion and of the parsers; %s: %s." % (n, title),
            "functions_analysed": [x[1] for x in sc.base.fns] + [x[1] for x in sc.par.fns],
            "templates": len(sc.outcomes),
            "library_calls_without_model": dict(sc.e.I.unmodelled)})
        return r
    return run


def c08(ctx, sc, r):
    from . import scan
    add_items(r, scan.paths(sc))
    return "every identifier of %d templates" % len(sc.outcomes)


def c09(ctx, sc, r):
    from . import scan
    add_items(r, scan.bindings(sc))
    return "every token of %d templates" % len(sc.outcomes)


def c10(ctx, sc, r):
    from . import witness
    hows = witness.collect(sc)
    r.coverage["names"] = ["%s %s" % (h[0], h[1]) + ("/%s" % h[2] if h[2] is not None else "") for h in sorted(hows, key=str)]
    try:
        bad = witness.check(os.environ.get("MVIEW_REPO", "/repo"), ctx.tmp, hows)
    except witness.Failed as e:
        r.undecided.append(str(e))
        bad = {}
    for h, msg in sorted(bad.items(), key=str):
        r.violations.append(Violation("%s:%s" % (h[0], h[1]), hows[h][0], "what generated code names exists in the framework", "%s %s: %s (in: %s)" % (h[0], h[1], msg, hows[h][1])))
    return "each of the %d paths and methods in them is resolved by the compiler against leptos" % len(hows)


def c15(ctx, sc, r):
    from . import scan
    items, n = scan.locations(sc, r.undecided)
    add_items(r, items)
    return "each of %d emissions of a diagnostic" % n


def c29(ctx, sc, r):
    from . import scan
    items, n = scan.hygiene(sc, r.undecided)
    add_items(r, items)
    return "each of %d identifiers made of names of the input" % n


for pid, title, f in [
    ("C08", "generated code uses absolute paths of known crates", c08),
    ("C09", "generated code neither binds names nor captures control flow of the user's code", c09),
    ("C10", "what generated code names exists in the framework", c10),
    ("C15", "diagnostics point to the input they are about", c15),
    ("C29", "names of the input keep their spans", c29),
]:
    PROPS[pid] = scanned(title, f)


def c01(ctx, pid):
    from engine.ir import Prog
    from .effects import Effects, DENY
    e = Effects([Prog(ctx.dump() + "/leptos_mview_%s.json" % c) for c in ("core", "macro")])
    r = Result()
    seen = set()
    for where, what, detail in e.found:
        v = Violation("%s:%s" % (where, what), where, "the expansion depends on nothing but the input", "it depends on %s: %s" % (what, detail))
        if v.key not in seen:
            seen.add(v.key)
            r.violations.append(v)
    r.undecided += e.undecided
    r.coverage = {"rule": "effects and state of all functions of the macro", "functions_analysed": e.functions, "calls_looked_at": e.calls,
                  "denied": sorted({w for x, w in DENY} | {"state that is kept between invocations", "the order of a hashed collection"}),
                  "explanation": "Effect analysis over the MIR of all %d functions of both crates (%d mentioned functions) and over their statics: nothing but the input is read, nothing is kept." % (e.functions, e.calls)}
    return r


def c16(ctx, pid):
    from .entry import Entry
    e = Entry(ctx.dump())
    r = Result()
    seen = set()
    for where, rule, detail in e.found:
        v = Violation("%s:%s" % (rule, detail), where, rule, detail)
        if v.key not in seen:
            seen.add(v.key)
            r.violations.append(v)
    r.undecided += e.undecided
    r.coverage = {"rule": "error handling of the macro's entry", "points_looked_at": e.points,
                  "explanation": "Abstract interpretation of the macro's function and of its implementation: state of the error handling at each of %d points that can report an error." % e.points}
    return r


PROPS["C01"] = c01
PROPS["C16"] = c16
