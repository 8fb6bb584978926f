"""Every path and method of the framework that generated code names exists there.

The names are taken from the templates of all outcomes; a crate that mentions each of them once, next to the framework
and to the macro's own crate, is type-checked (never run). What the compiler cannot resolve is reported.
"""
import json
import os
import re
import shutil
import subprocess
from .scan import const, colons, leading, is_raw, Item, around

TOOLCHAIN = "nightly-2025-09-01"        # the one the repository is built with: leptos 0.7.8 needs it
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODES = {"E0425", "E0433", "E0432", "E0412", "E0405", "E0423", "E0576", "E0603", "E0624", "E0599", "E0061", "E0658", "E0574", "E0532", "E0107"}
# receivers of the methods that an expansion calls
RECEIVERS = ["::leptos::tachys::html::element::div()", "::leptos::tachys::svg::svg()", "::leptos::tachys::html::element::custom(\"a-b\")",
             "::leptos::tachys::html::element::input()", "::leptos::prelude::View::new(())"]
# methods of the user's components and slots (their builders), and of `std`
USERS = {"build", "children", "clone", "into", "into_iter", "to_string"}


def texts(atoms, facts):
    """the spellings an identifier has under the facts (None: any)"""
    if all(isinstance(x, str) for x in atoms):
        return ["".join(atoms)]
    if len(atoms) == 1 or len(atoms) == 2 and atoms[0] == "r#":
        for a in (atoms, atoms[-1:]):
            for k, v in facts.items():
                if k[0] == "str" and tuple(k[1]) == tuple(a) and v[0] and len(v[1]) <= 8 and all(isinstance(x, str) for x in v[1]):
                    return sorted(v[1])
    return None


def collect(sc):
    """{(text, how): (where, context)}"""
    out = {}

    def f(where, seq, i, attr, facts):
        if attr or not leading(seq, i) or const(seq[i]) is None:
            # methods
            t = seq[i]
            if not attr and t[0] == "id" and i and seq[i - 1] == ("p", ".") and not (i > 1 and seq[i - 2] == ("p", ".")) and i > 1 \
                    and i + 1 < len(seq) and seq[i + 1][0] == "g" and seq[i + 1][1] == "(":
                names = texts(t[1], facts)
                n = arity(seq[i + 1][2])
                for name in names or ():
                    if name.replace("r#", "") not in USERS and n is not None and not name.startswith("__"):
                        out.setdefault(("method", name, n), (where, around(seq, i)))
            return
        alts = [([const(seq[i])], {})]
        j = i + 1
        whole = True
        while j + 2 < len(seq) and seq[j] == ("p", ":") and seq[j + 1] == ("p", ":") and seq[j + 2][0] == "id":
            ts = texts(seq[j + 2][1], facts)
            if ts is None:
                whole = False
                break
            if any(x.startswith(("__", "invalid")) for x in ts):
                whole = False        # a placeholder behind an error
                break
            at = seq[j + 2][1]
            alts = [(a + [x], {**m, at: x}) for a, m in alts for x in ts if m.get(at, x) == x]
            j += 3
        nxt = seq[j] if j < len(seq) else None
        for a, m in alts:
            if len(a) < 2:
                continue
            path = "::" + "::".join(a)
            if not whole or nxt == ("p", ":"):
                how = ("module", path, 0)
            elif nxt == ("p", "!"):
                how = ("macro", path, 0)
            elif nxt is not None and nxt[0] == "g" and nxt[1] == "(":
                how = ("call", path, arity(nxt[2]))
            else:
                how = ("value", path, 0)
            out.setdefault(how, (where, around(seq, i, 2)))
    sc.tokens(f)
    # an argument may be left out (a directive without a value), the longest list of arguments counts
    top = {}
    for kind, name, n in out:
        top[kind, name] = max(top.get((kind, name), -1), -1 if n is None else n)
    return {h: w for h, w in out.items() if h[0] not in ("call", "method") or (-1 if h[2] is None else h[2]) == top[h[:2]]}


def arity(items):
    """number of arguments, if it is the same for every input"""
    n, any_ = 0, False
    for t in items:
        if t[0] in ("star", "alt"):
            return None
        if t == ("p", ","):
            n += 1
            any_ = False
        else:
            any_ = True
    return n + (1 if any_ else 0)


def probe(how):
    kind, name, n = how
    if kind == "module":
        return ["use %s as _;" % name]
    if kind == "macro":
        return ["fn _f() { let _ = %s!(\"\"); }" % name]
    if kind == "value":
        return ["fn _f() { let _ = %s; }" % name, "fn _f() -> %s { loop {} }" % name, "use %s as _;" % name]
    if kind == "call":
        if n is None:
            return ["fn _f() { let _ = %s; }" % name]
        return ["fn _f() { let _ = %s(%s); }" % (name, ", ".join(["panic!()"] * n))]
    return ["fn _f() { use ::leptos::prelude::*; let _ = (%s).%s(%s); }" % (r, name, ", ".join(["panic!()"] * n)) for r in RECEIVERS]


class Failed(Exception):
    pass


def check(repo, tmp, hows):
    """{how: message} of those that no probe of theirs resolves"""
    d = os.path.join(tmp, "witness")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                'leptos = { version = "0.7.0", features = ["ssr", "nightly"] }\n'
                'leptos-mview = { path = "%s", features = ["nightly"] }\n[workspace]\n' % repo)
    shutil.copy(os.path.join(repo, "Cargo.lock"), d) if os.path.exists(os.path.join(repo, "Cargo.lock")) else None
    lines = ["#![allow(warnings)]", "pub fn _start() {}"]
    at = {}
    for how in sorted(hows, key=str):
        for k, p in enumerate(probe(how)):
            lines.append("mod m%d { %s }" % (len(lines), p))
            at[len(lines)] = (how, k)
    bad = {}                     # line -> message
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER")}
    env["CARGO_NET_OFFLINE"] = "true"
    for _ in range(6):
        with open(d + "/src/lib.rs", "w") as f:
            f.write("\n".join("" if i + 1 in bad else x for i, x in enumerate(lines)) + "\n")
        r = subprocess.run(["cargo", "+" + TOOLCHAIN, "check", "--offline", "-q", "--message-format=json", "--manifest-path", d + "/Cargo.toml",
                            "--target-dir", os.path.join(HERE, "build", "witness")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        new, other = {}, []
        for l in r.stdout.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error",):
                continue
            msg = m["message"]
            code = (msg.get("code") or {}).get("code")
            ls = [s["line_start"] for s in msg["spans"] if s["file_name"].endswith("lib.rs") and s["is_primary"]]
            if m["target"]["name"] != "witness":
                raise Failed("the repository does not compile: " + msg["message"][:200])
            for n in ls:
                if n in at and n not in bad:
                    if code in CODES or code is None and "cannot find" in msg["message"]:
                        new[n] = "%s %s" % (code or "", msg["message"])
            other.append(msg["message"])
        if r.returncode == 0 or not new:
            if r.returncode != 0 and not other:
                raise Failed("cargo: " + r.stderr[-300:])
            break
        bad.update(new)
    out = {}
    for how in hows:
        ns = [n for n, (h, k) in at.items() if h == how]
        if ns and all(n in bad for n in ns):
            out[how] = bad[min(ns)]
    return out
