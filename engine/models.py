"""Dispatch of the library models."""
from .core import Ctx
from . import m_tok, m_iter, m_parse, m_map

EXACT = {}
RULES = []
for m in (m_map, m_parse, m_iter, m_tok):
    for k, v in m.M.items():
        EXACT.setdefault(k, v)
    RULES.extend(m.SUF)
_memo = {}


def models(I, st, ctx, args):
    p = ctx.path
    if p == "<T as core::convert::Into<U>>::into" and len(ctx.targs) >= 2:
        return into(I, st, ctx, args)
    fs = _memo.get(p)
    if fs is None:
        fs = [EXACT[p]] if p in EXACT else []
        for pred, f in RULES:
            if pred(p):
                fs.append(f)
        _memo[p] = fs
    for f in fs:
        r = f(I, st, ctx, args)
        if r is not None:
            return r
    return None


def into(I, st, ctx, args):
    """the conversion the other way around"""
    t, u = [I.p.ty(x)["s"] if isinstance(x, int) else str(x) for x in ctx.targs[:2]]
    path = "<%s as core::convert::From<%s>>::from" % (u, t)
    if path in I.p.fns and "body" in I.p.fns[path]:
        return I.call_fn(st, path, args, ctx.fr.stack)
    if t == u:
        return [(st, args[0])]
    c = Ctx(path, None, ctx.targs, ctx.rt, ctx.at, ctx.argtys, ctx.fr, None)
    return models(I, st, c, args)
