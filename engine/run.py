"""Run the interpreter on one function with symbolic arguments."""
from .core import Interp, State, Frame, UNIT
from .ir import Prog
from .models import models
from .util import DIAG


def new(prog, cuts=None):
    I = Interp(prog, models, cuts)
    return I


def analyse(I, key, args, st=None):
    """-> list of (state, value); diverging paths are in I.stops"""
    st = st or State()
    st.cells.setdefault(DIAG, ("seq", ()))
    I.stops = []
    return I.call_fn(st, key, args, ())


def sym_args(I, key, names):
    b = I.p.body(key)
    out = []
    for i in range(b.args):
        t = b.locals[i + 1]
        out.append(("sym", ("in", names[i] if i < len(names) else str(i)), t))
    return out


def entry(I, key, names=("a", "b", "c")):
    """symbolic arguments of a function: -> (state, args, cell of an output token stream | None, cell of a parse buffer | None)"""
    b = I.p.body(key)
    st = State()
    st.cells[DIAG] = ("seq", ())
    st.next = 1000
    out, buf, args = None, None, []
    for i in range(b.args):
        ty = b.locals[i + 1]
        t = I.p.ty(ty)
        if t["k"] == "ref" and I.p.ty(t["to"])["s"] == "proc_macro2::TokenStream" and t["mut"]:
            out = st.alloc(("ts", ()))
            args.append(("ref", out, ()))
        elif t["k"] == "ref" and I.p.ty(t["to"])["s"].startswith("syn::parse::ParseBuffer"):
            buf = st.alloc(("stream", ("input",), 0))
            args.append(("ref", buf, ()))
        else:
            args.append(("sym", ("in", names[i] if i < len(names) else str(i)), ty))
    return st, args, out, buf


def show_items(items, I=None):
    return " ".join(show_item(x, I) for x in items)


CL = {"(": ")", "{": "}", "[": "]", "": ""}


def show_str(at):
    out = []
    for x in at:
        out.append(x if isinstance(x, str) else "<" + show_key(x) + ">")
    return "".join(out)


def show_key(x):
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        if x[:1] == ("sym",):
            return show_key(x[1])
        if x[:1] == ("f",) and len(x) == 2:
            return "." + str(x[1])
        if x[:1] == ("v",) and len(x) == 2:
            return "#" + str(x[1])
        if x[:1] == ("*",):
            return "*"
        if x[:1] == ("text",):
            return "text(" + show_key(x[1]) + ")"
        return "(" + " ".join(show_key(y) for y in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ",".join(sorted(show_key(y) for y in x)) + "}"
    return str(x)


def show_item(x, I=None):
    k = x[0]
    if k == "id":
        return show_str(x[1])
    if k == "p":
        return x[1]
    if k == "lit":
        return '"' + show_str(x[1]) + '"'
    if k == "g":
        return x[1] + " " + show_items(x[2], I) + " " + CL[x[1]]
    if k == "u":
        return "⟨" + show_key(x[1]) + "⟩"
    if k == "star":
        return "STAR[" + show_key(x[1]) + "]{" + "".join("\n   | " + show_guard(g) + " => " + show_items(i, I) for g, i in x[2]) + "}" + (" sep " + str(x[3]) if x[3] else "")
    if k == "e":
        v = x[1]
        if v[0] == "ts":
            return "e:ts(" + show_items(v[1]) + ")"
        return "e:" + show_key(v)[:300]
    return show_key(x)


def show_guard(g):
    return ", ".join(sorted("%s%s%s" % (show_key(k), "∈" if p else "∉", show_key(frozenset(str(y) for y in S))) for k, (p, S) in g))


def show_facts(f):
    return show_guard(f.items())
