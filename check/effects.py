"""What the code of the macro calls and keeps, besides its input: effects that make an expansion depend on anything else."""
import re

DENY = [
    (r"(^|[<& ])(std|core)::env::", "the environment"),
    (r"(^|[<& ])std::fs::", "the file system"),
    (r"(^|[<& ])std::io::(?!error|_e?print)", "input or output"),
    (r"std::path::Path(Buf)?::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)$", "the file system"),
    (r"(^|[<& ])std::(net|os)::", "the system"),
    (r"(^|[<& ])std::process::", "processes"),
    (r"(^|[<& ])std::thread::(?!local::panicking|panicking)", "threads"),
    (r"(^|[<& ])std::time::", "the time"),
    (r"std::sync::mpsc", "threads"),
    (r"std::random|(^|::)rand::|getrandom|fastrand", "random numbers"),
    (r"(RandomState as core::default::Default>::default|RandomState::new|RandomState as core::hash::BuildHasher)", "randomly seeded hashes"),
    (r"LocalKey", "state that is kept between invocations"),
    (r"proc_macro2?::Span::(start|end|line|column|file|local_file|source_text|byte_range|source_file|source)$", "where the input is in its file"),
    (r"proc_macro2?::(tracked_env|tracked_path|tracked)::", "the environment"),
    (r"core::any::type_name|TypeId::of", "names of types"),
    (r"core::panic::location::Location", "where the macro's own code is"),
    (r"expose_provenance|<\*(const|mut) .*::addr$", "addresses"),
    (r"core::fmt::Pointer", "addresses"),
]
ITER = re.compile(r"hash.*(map|set).*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|extract_if|union|intersection|difference|symmetric_difference)$")
HASHED = re.compile(r"(HashMap|HashSet|hash_map::\w+|hash_set::\w+|hash::map::\w+|hash::set::\w+)<")
ORDERED = re.compile(r"::sort(_by|_by_key|_unstable|_unstable_by|_unstable_by_key|_by_cached_key)?$|BTree(Map|Set)|BinaryHeap|::(any|all|count|sum|max|min|max_by_key|min_by_key|is_empty|len)$")
SPANNED = re.compile(r"\bproc_macro2?::(\w+::)*(Span|Ident|TokenStream|TokenTree|Group|Punct|Literal|DelimSpan)\b")
FOREIGN = re.compile(r"^&*(mut )?(std|core|alloc|syn|quote|proc_macro2?)::")
WRITE_ONCE = re.compile(r"(LazyLock|OnceLock|LazyCell|OnceCell|once::Once)")
INTERIOR = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|ReentrantLock|Atomic\w+)\b")


def defs(x, out):
    """all functions mentioned in a part of a body: [(path, instance, place in the source)]"""
    if isinstance(x, dict):
        if x.get("k") == "def" and "path" in x:
            out.append((x["path"], x.get("inst") or x["path"]))
        for y in x.values():
            defs(y, out)
    elif isinstance(x, list):
        for y in x:
            defs(y, out)


def short_at(at):
    return at or "?"


class Effects:
    def __init__(self, progs):
        self.found = []            # (where, what, detail)
        self.undecided = []
        self.functions = self.calls = 0
        for p in progs:
            self.prog(p)

    def prog(self, p):
        for s in p.statics:
            self.static(p, s)
        for key, f in p.fns.items():
            if not f["local"] or "body" not in f:
                continue
            self.functions += 1
            body = f["body"]
            called = []
            for b in body["blocks"]:
                if b.get("cleanup"):
                    continue
                for stmt in b["s"]:
                    ds = []
                    defs(stmt, ds)
                    self.see(key, f, stmt[-1] if isinstance(stmt[-1], str) else f["at"], ds, called)
                    if stmt[0] == "=" and isinstance(stmt[2], list) and stmt[2] and stmt[2][0] == "cast" and "Expose" in str(stmt[2][1]):
                        self.found.append((key, "addresses", "a pointer is made a number (%s)" % stmt[-1]))
                ds = []
                defs(b["t"], ds)
                at = next((x for x in b["t"] if isinstance(x, str) and ".rs:" in x), f["at"])
                self.see(key, f, at, ds, called)
            self.iteration(key, called)
            self.debug(p, key, called)
            self.write_once(p, key, body, called)

    def see(self, key, f, at, ds, called):
        for path, inst in ds:
            self.calls += 1
            called.append((path, inst, at))
            for rx, what in DENY:
                if re.search(rx, path) or what not in ("threads", "addresses") and re.search(rx, inst):
                    self.found.append((key, what, "%s is used at %s" % (path, short_at(at))))
                    break

    def debug(self, p, key, called):
        """the debug text of a span says where it is in its file, and so does that of everything with spans in it"""
        if not any(path.startswith("alloc::fmt::format") or path.endswith("::to_string") for path, inst, at in called):
            return
        for path, inst, at in called:
            if path.endswith("::new_debug"):
                t = inst[inst.index("new_debug") + 9:]
                local = [x for x in p.types if x["k"] == "adt" and re.search(r"(?<!\w)%s(?!\w)" % re.escape(x["s"].split("<")[0]), t) and "::" in x["s"]]
                if SPANNED.search(t) or any(SPANNED.search(p.types[f]["s"]) for x in local if not FOREIGN.match(x["s"]) for v in x["variants"] for _, f in v["f"]):
                    self.found.append((key, "where the input is in its file", "the debug text of %s at %s" % (t.strip("<>:"), at)))

    def iteration(self, key, called):
        """the order in which a hashed collection is walked differs from run to run"""
        hits = []
        for path, inst, at in called:
            if "BuildHasherDefault" in inst:
                continue
            if ITER.search(path) or (path.endswith(("IntoIterator::into_iter", "::into_iter", "::extend", "Iterator::next", "::from_iter", "::collect")) and walks(path, inst)):
                hits.append((path, inst, at))
        if not hits:
            return
        if any(ORDERED.search(path) for path, inst, at in called):
            self.undecided.append("%s walks a hashed collection and orders something" % key)
            return
        path, inst, at = hits[0]
        self.found.append((key, "the order of a hashed collection", "%s at %s" % (path, at)))

    def static(self, p, s):
        if s["path"].endswith("_DECLS"):
            return
        if s["mut"]:
            self.found.append((s["path"], "state that is kept between invocations", "`static mut` at " + s["at"]))
        elif s["local"]:
            if not s["freeze"] or True:
                self.found.append((s["path"], "state that is kept between invocations", "a thread local at " + s["at"]))
        elif not s["freeze"]:
            t = s["ty"]
            if WRITE_ONCE.search(t) and not INTERIOR.search(WRITE_ONCE.sub("", t)):
                return
            self.found.append((s["path"], "state that is kept between invocations", "a static that can be changed (%s) at %s" % (t, s["at"])))

    def write_once(self, p, key, body, called):
        for path, inst, at in called:
            if re.search(r"Once(Lock|Cell).*::(set|try_insert|insert)$", path):
                self.found.append((key, "state that is kept between invocations", "%s at %s" % (path, at)))
            elif re.search(r"Once(Lock|Cell).*::(get_or_init|get_or_try_init)$", path):
                if any(st[0] == "=" and isinstance(st[2], list) and st[2][:2] == ["agg", "closure"] and st[2][2] for b in body["blocks"] for st in b["s"]):
                    self.found.append((key, "state that is kept between invocations", "%s at %s" % (path, at)))


def walks(path, inst):
    """the hashed collection is what is iterated over (and not only a part of some type)"""
    m = HASHED.search(inst)
    if not m:
        return False
    if path.endswith(("::into_iter", "Iterator::next")):
        # `<HashMap<..> as IntoIterator>::into_iter`, `<&HashMap<..> as ..>`
        return bool(re.match(r"^<(&('\w+ )?(mut )?)?(std::collections::|hashbrown::)?[\w:]*(HashMap|HashSet|hash_map::|hash_set::|hash::map::|hash::set::)", inst))
    if path.endswith("::extend"):
        return bool(re.search(r"::extend::<(&('\w+ )?)?[\w:]*(HashMap|HashSet|hash)", inst))
    return False
