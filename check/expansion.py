"""Analysis of the whole expansion: the macro's function and everything it reaches."""
import time
from engine.cuts import Cuts
from engine.ir import Prog
from engine.run import new
from .compare import Compare, Diff, dedupe


def exclusive(a, b):
    for k, (pos, xs) in a.items():
        if k in b:
            p2, ys = b[k]
            if pos and p2 and not (xs & ys) or pos and not p2 and xs <= ys or p2 and not pos and ys <= xs:
                return True
    return False


class Expansion:
    """one run of the comparison over all separately analysed functions"""
    def __init__(self, dump):
        self.p = Prog(dump + "/leptos_mview_core.json")
        self.cuts = Cuts(self.p)
        self.I = new(self.p, self.cuts)
        self.C = Compare(self.I, self.cuts)
        self.diffs = []
        self.fns = []            # (kind, function, outcomes)
        self.errors = []
        self.nested = 0

    def root(self):
        for k, f in self.p.fns.items():
            if f["local"] and "body" in f and f["path"].endswith("mview_impl"):
                return k
        raise Exception("the function behind the macro is not found")

    def run(self):
        t = time.time()
        root = self.root()
        self.guard("root", root, lambda: self.C.check_root(root, None))
        done = set()
        while True:
            todo = [o for o in self.C.obl if o not in done]
            if not todo:
                break
            for o in todo:
                done.add(o)
                kind, inst, pat = o
                self.guard(kind, inst, lambda: self.C.check(kind, inst, pat))
        self.wall = time.time() - t
        self.diffs = dedupe(self.diffs)
        return self

    def again(self, inst):
        """nested views that are expanded at two places under the same circumstances"""
        by = {}
        for what, at, facts in self.cuts.calls:
            by.setdefault(what, []).append((at, facts))
        self.nested += len(by)
        for what, l in by.items():
            for i, (a, fa) in enumerate(l):
                for b, fb in l[:i]:
                    if a != b and not exclusive(fa, fb):
                        return [Diff(("C33",), inst, "each nested view is expanded once", "%s is expanded at %s and at %s" % (what[0], b[-1], a[-1]), "again")]
        return []

    def guard(self, kind, inst, f):
        self.cuts.calls = []
        try:
            ds = f()
            ds = ds + self.again(inst)
        except RecursionError as e:
            self.errors.append((kind, inst, "RecursionError"))
            return
        except Exception as e:
            import traceback
            self.errors.append((kind, inst, "%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-1500:]))
            return
        self.diffs += ds
        self.fns.append((kind, inst, self.C.last))
