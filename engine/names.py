"""Readable names for symbol keys: field and variant names instead of numbers."""
from .run import CL
from .core import guards_of


class Namer:
    def __init__(self, I, roots=None):
        self.I = I
        self.roots = roots or {}

    def walk(self, base, ty, els):
        p = self.I.p
        out = base
        cur = None
        for e in els:
            if e == ("*",):
                if ty is not None:
                    t = p.ty(ty)
                    if t["k"] == "ref":
                        ty = t["to"]
                    elif t["k"] == "adt" and t["path"].endswith("boxed::Box"):
                        ty = t["args"][0] if t.get("args") else None
                continue
            t = None
            while ty is not None:
                t = p.ty(ty)
                if t["k"] != "ref":
                    break
                ty = t["to"]
            if e[0] == "v":
                if t and t["k"] == "adt" and e[1] < len(t["variants"]):
                    cur = t["variants"][e[1]]
                    if cur["n"] not in ("Some", "Ok"):
                        out += "." + cur["n"]
                else:
                    out += "#%s" % e[1]
                    cur = None
                continue
            if e[0] == "f":
                vs = None
                if cur is None and t and t["k"] == "adt" and len(t["variants"]) == 1:
                    cur = t["variants"][0]
                if cur is not None and e[1] < len(cur["f"]):
                    n, ft = cur["f"][e[1]]
                    if not n.isdigit():
                        out += "." + n
                    ty = ft
                elif t and t["k"] == "tuple":
                    out += ".%d" % e[1]
                    ty = t["f"][e[1]]
                else:
                    out += ".%s" % e[1]
                    ty = None
                cur = None
                continue
            out += "." + self.key(e)
            ty = None
        return out, ty

    def key(self, x):
        return self.keyt(x)[0]

    def keyt(self, x):
        if isinstance(x, str):
            return x, None
        if isinstance(x, frozenset):
            return "{" + ",".join(sorted(self.key(y) for y in x)) + "}", None
        if not isinstance(x, tuple):
            return str(x), None
        if not x:
            return "()", None
        k = x[0]
        if k == "sym" and len(x) == 3:
            return self.keyt(x[1])
        if k == "in":
            return self.walk(str(x[1]), self.roots.get(x[1]), x[2:])
        if k in ("elem", "first"):
            src, ty = self.keyt(x[1])
            et = None
            if ty is not None:
                et = self.elem(ty)
            if k == "first":
                return self.walk("first(" + src + self.grp(x[1], x[2] if len(x) > 2 else None) + ")", et, x[3:])
            return self.walk(src + "[*]", et, x[2:])
        if k == "tail":
            return "tail(" + self.key(x[1]) + ")", self.keyt(x[1])[1]
        if k == "text":
            return "text(" + self.key(x[1]) + ")", None
        return "(" + " ".join(self.key(y) for y in x) + ")", None

    def grp(self, src, g):
        if g is None:
            return ""
        return "|" + self.key(g)

    def elem(self, ty):
        p = self.I.p
        while True:
            t = p.ty(ty)
            if t["k"] == "ref":
                ty = t["to"]
                continue
            break
        if t["k"] == "adt" and len(t["variants"]) == 1 and len(t["variants"][0]["f"]) == 1:
            return self.elem(t["variants"][0]["f"][0][1])
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        if t["k"] in ("slice", "array"):
            return t.get("to")
        return None

    def fact(self, k, v):
        pol, S = v
        if k[0] == "var":
            t = self.I.p.ty(k[2])
            return "%s is %s" % (self.key(k[1]), "|".join(sorted(t["variants"][i]["n"] for i in S)))
        if k[0] == "str":
            return "%s %s {%s}" % (self.key(k[1]), "in" if pol else "not in", ",".join(sorted(map(repr, S))))
        if k[:2] == ("b", "exists"):
            gs = guards_of(k[2], k[3])
            return "%s some elem of %s with (%s)" % ("" if S == frozenset((1,)) else "NO", self.key(k[2]), " OR ".join(self.guards(g) for g in gs) if not isinstance(gs, int) else gs)
        if k[0] == "b":
            return ("" if S == frozenset((1,)) else "not ") + self.key(k[1:])
        return "%s%s%s" % (self.key(k), "∈" if pol else "∉", self.key(frozenset(str(y) for y in S)))

    def guards(self, g):
        return " & ".join(sorted(self.fact(k, v) for k, v in (g.items() if isinstance(g, dict) else g)))

    def atoms(self, at):
        return "".join(x if isinstance(x, str) else "<" + self.key(x) + ">" for x in at)

    def items(self, its, depth=0):
        return " ".join(self.item(x, depth) for x in its)

    def item(self, x, d=0):
        k = x[0]
        if k == "id":
            return self.atoms(x[1])
        if k == "p":
            return x[1]
        if k == "lit":
            return '"' + self.atoms(x[1]) + '"'
        if k == "g":
            return x[1] + " " + self.items(x[2], d) + " " + CL[x[1]]
        if k == "u":
            return "⟨" + self.key(x[1]) + "⟩"
        if k in ("star", "alt"):
            nl = "\n" + "  " * (d + 1)
            return k.upper() + "[" + self.key(x[1]) + "]{" + "".join(nl + "| " + self.guards(g) + "  =>  " + self.items(i, d + 1) for g, i in x[2]) + "}" + (" sep " + str(x[3]) if len(x) > 3 and x[3] else "")
        return self.key(x)
