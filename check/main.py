"""check/main.py PROPERTY [quick|thorough]"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("MVIEW_REPO", "/repo")


class Violation:
    def __init__(self, key, where, rule, detail):
        self.key = key                # identifies the violation in known-findings
        self.where, self.rule, self.detail = where, rule, detail


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.undecided = []


class Context:
    """what the checks of one run share"""
    def __init__(self, tier):
        self.tier = tier
        self.tmp = tempfile.mkdtemp(prefix="mview-check-")
        self._exp = None
        self._par = None
        self._scan = None
        self._dump = None

    def dump(self):
        if self._dump is None:
            d = os.environ.get("MVIEW_DUMP")
            if not d:
                d = os.path.join(self.tmp, "dump")
                r = subprocess.run(["bash", os.path.join(HERE, "dump.sh"), d, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    print(r.stdout[-3000:])
                    raise Exception("the source cannot be analysed: it does not compile")
            self._dump = d
        return self._dump

    def expansion(self):
        if self._exp is None:
            from check.expansion import Expansion
            self._exp = Expansion(self.dump()).run()
        return self._exp

    def parsing(self):
        if self._par is None:
            from check.parsing import Parsing
            self._par = Parsing(self.dump()).run()
        return self._par

    def scan(self):
        if self._scan is None:
            from check.scan import Scan
            self._scan = Scan(self)
        return self._scan

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def give_up(signum, frame):
    raise Exception("time limit")


def known():
    """{(property, key)}: findings that are recorded and not repaired"""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property="):
                prop, key, text = line[len("finding: property="):].split(" ", 2)
                out[(prop, key)] = text
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    from check.props import PROPS
    t0 = time.time()
    ctx = Context(tier)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        ctx.dump()
        signal.signal(signal.SIGALRM, give_up)
        signal.alarm(720)
        try:
            res = PROPS[pid](ctx, pid)
        except Exception as e:
            # the analysis does not understand the code: that decides nothing, either way
            traceback.print_exc()
            res = Result()
            res.undecided.append("the analysis stopped: %s" % (e,))
            print("%s: UNDECIDED, the analysis does not understand the source: %s" % (pid, str(e)[:300]))
        signal.alarm(0)
    finally:
        ctx.close()
    kf = known()
    new, old = [], []
    for v in res.violations:
        (old if (pid, v.key) in kf else new).append(v)
    cov = dict(res.coverage)
    cov["undecided"] = len(res.undecided)
    cov["undecided_list"] = [str(x)[:300] for x in res.undecided[:20]]
    cov["violations"] = [{"key": v.key, "where": v.where, "rule": v.rule, "detail": v.detail} for v in new]
    cov["known_findings"] = [v.key for v in old]
    out = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    path = os.path.join(ev, pid + ".json")
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    for k in sorted({v.key for v in old}):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, kf[(pid, k)]))
    for v in new[:20]:
        print("%s: %s\n    rule: %s" % (v.where, v.detail, v.rule))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held; %s (%.1f s)" % (pid, cov.get("explanation", "")[:200], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
