"""Loading of the MIR dump, control-flow facts."""
import json
import re


class Body:
    __slots__ = ("args", "spread", "locals", "blocks", "succ", "rpo", "loops", "names", "key")

    def __init__(self, key, j):
        self.key = key
        self.args = j["args"]
        self.spread = j["spread"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.names = {a: b for a, b in j["names"]}
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            t = b["t"]
            k = t[0]
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "drop":
                succ[i] = [t[2]]
            elif k == "switch":
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == "call":
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == "assert":
                succ[i] = [t[3]]
        self.succ = succ
        # reverse post order from 0
        seen, post = set(), []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        order = post[::-1]
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = new, p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in order:
            for s in succ[b]:
                if self.rpo[s] <= self.rpo[b] and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        self.loops = loops


# The shapes of the types the checks speak about: what the variants of each carry.  Names
# are only labels, so a type or a variant that was renamed is recognised by its shape.
SHAPES = {
    "KebabIdentOrStr": [("KebabIdent", ["KebabIdent"]), ("Str", ["LitStr"])],
    "Value": [("Lit", ["Lit"]), ("Block", ["TokenStream", "Brace"]),
              ("Bracket", ["TokenStream", "Bracket", "Option"])],
    "SelectorShorthand": [("Id", ["Pound", "KebabIdent"]), ("Class", ["Dot", "KebabIdent"])],
    "SelectorShorthands": [("SelectorShorthands", ["Vec"])],
    "Attrs": [("Attrs", ["Vec"])],
    "Children": [("Children", ["Vec"])],
    "Attr": [("Kv", ["KvAttr"]), ("Directive", ["Directive"]), ("Spread", ["SpreadAttr"])],
    "SpreadAttr": [("SpreadAttr", ["Brace", "DotDot", "TokenStream"])],
    "Directive": [("Directive", ["Ident", "KebabIdentOrStr", "Option", "Option"])],
    "KvAttr": [("KvAttr", ["KebabIdent", "Value"])],
    "Child": [("Node", ["NodeChild"]), ("Slot", ["slot", "Element"])],
    "NodeChild": [("Value", ["Value"]), ("Element", ["Element"])],
    "BracedKebabIdent": [("BracedKebabIdent", ["Brace", "KebabIdent"])],
    "Element": [("Element", ["Tag", "SelectorShorthands", "Attrs", "Option", "Option"])],
    "Tag": [("Html", ["Ident"]), ("Component", ["Path"]), ("Svg", ["Ident"]), ("Math", ["Ident"]),
            ("WebComponent", ["KebabIdent"])],
}
FOREIGN = ("std", "core", "alloc", "syn", "quote", "proc_macro", "proc_macro2", "proc_macro_error2", "kw")


def last(path):
    return re.split(r"[<(&]", path)[0].rsplit("::", 1)[-1]


def canonical(text):
    """the dump with renamed types and variants put back under the names of SHAPES"""
    while True:
        j = json.loads(text)
        types = j["types"]
        own = {}
        for t in types:
            if t["k"] == "adt" and t["path"].split("::")[0] not in FOREIGN:
                own.setdefault(t["path"], t)
        have = {last(p) for p in own}
        missing = [n for n in SHAPES if n not in have]
        spare = [p for p in own if last(p) not in SHAPES]

        def shape(t):
            return [sorted(last(types[x]["s"]) for _, x in v["f"]) for v in t["variants"]]

        known = {n: [sorted(f) for _, f in vs] for n, vs in SHAPES.items()}
        hit = None
        for n in missing:
            if any(m in f for m in missing if m != n for _, f in SHAPES[n]):
                continue  # a part was renamed too: that one first
            c = [p for p in spare if shape(own[p]) == known[n]]
            if known[n] == [["Vec"]]:
                c = [p for p in c if elem_name(types, own[p]) ==
                     {"SelectorShorthands": "SelectorShorthand", "Attrs": "Attr", "Children": "Child"}[n]]
            if len(c) == 1:
                hit = (c[0], n)
                break
        if hit is None:
            break
        old, n = hit
        new = old.rsplit("::", 1)[0] + "::" + n if "::" in old else n
        text = re.sub(r"(?<![A-Za-z0-9_])" + re.escape(old) + r"(?![A-Za-z0-9_])", new, text)
    for t in types:
        if t["k"] == "adt" and t["path"].split("::")[0] not in FOREIGN and last(t["path"]) in SHAPES:
            want = SHAPES[last(t["path"])]
            if len(want) == 1:
                continue
            got = t["variants"]
            names = {v["n"] for v in got}
            lost = [(n, f) for n, f in want if n not in names]
            extra = [v for v in got if v["n"] not in [n for n, _ in want]]
            for n, f in lost:
                c = [v for v in extra if sorted(last(types[x]["s"]) for _, x in v["f"]) == sorted(f)]
                if c:
                    c[0]["n"] = n
                    extra = [v for v in extra if v is not c[0]]
    return j


def elem_name(types, t):
    v = types[t["variants"][0]["f"][0][1]]
    return last(types[v["args"][0]]["s"]) if v.get("args") else None


class Prog:
    def __init__(self, path):
        j = canonical(open(path).read())
        self.crate = j["crate"]
        self.fns = j["fns"]
        self.types = j["types"]
        self.roots = j["roots"]
        self.statics = j["statics"]
        self._bodies = {}
        self.tystr = {t["s"]: i for i, t in enumerate(self.types)}

    def body(self, key):
        b = self._bodies.get(key)
        if b is None:
            f = self.fns.get(key)
            if f is None or "body" not in f:
                return None
            b = Body(key, f["body"])
            self._bodies[key] = b
        return b

    def ty(self, i):
        return self.types[i]

    def find_ty(self, pred):
        return [i for i, t in enumerate(self.types) if pred(t)]

    def adt(self, suffix):
        """the (unique) adt type whose path ends with `suffix`"""
        r = [i for i, t in enumerate(self.types) if t["k"] == "adt" and
             (t["path"] == suffix or t["path"].endswith("::" + suffix))]
        return r
