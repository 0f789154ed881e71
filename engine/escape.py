"""Which exceptions may leave a function: a fixed point over the call graph.

For every function the exception types that may escape it are computed from its throw expressions, from the functions it calls
(virtual calls: every override) and from a table of the standard library's throwing operations; try blocks remove what their
handlers catch, by the exception's class hierarchy. A call whose throwing depends on a condition (optional::value, std::get,
substr, at...) is passed to a judge, which may discharge it. Allocation failure is not considered.
"""
import re

from .interp import STD_EXC, std_derived, strip_type

IMMEDIATE_NOT = {"std::function", "std::bind", "std::move", "std::forward", "std::make_shared", "std::make_unique", "std::thread", "std::async",
                 "std::addressof", "std::tie", "std::make_pair", "std::make_tuple", "std::optional", "std::swap", "std::exchange"}

# Qualified name (template arguments stripped) -> exception type. Entries with "?" depend on a condition the judge decides.
STD_THROWS = {
    "std::optional::value": ("std::bad_optional_access", True),
    "std::get": ("std::bad_variant_access", True),
    "std::basic_string::at": ("std::out_of_range", True),
    "std::basic_string::substr": ("std::out_of_range", True),
    "std::basic_string::erase": ("std::out_of_range", True),
    "std::basic_string::replace": ("std::out_of_range", True),
    "std::basic_string::insert": ("std::out_of_range", True),
    "std::basic_string::compare": ("std::out_of_range", True),
    "std::basic_string::copy": ("std::out_of_range", True),
    "std::basic_string_view::at": ("std::out_of_range", True),
    "std::basic_string_view::substr": ("std::out_of_range", True),
    "std::vector::at": ("std::out_of_range", True),
    "std::array::at": ("std::out_of_range", True),
    "std::deque::at": ("std::out_of_range", True),
    "std::map::at": ("std::out_of_range", True),
    "std::unordered_map::at": ("std::out_of_range", True),
    "std::basic_streambuf::sgetc": ("std::ios_base::failure", True),
    "std::basic_streambuf::sgetn": ("std::ios_base::failure", True),
    "std::basic_streambuf::sbumpc": ("std::ios_base::failure", True),
    "std::basic_streambuf::snextc": ("std::ios_base::failure", True),
    "std::basic_streambuf::sputn": ("std::ios_base::failure", True),
    "std::basic_streambuf::sputc": ("std::ios_base::failure", True),
    "std::basic_streambuf::pubsync": ("std::ios_base::failure", True),
    "std::basic_ios::exceptions": ("std::ios_base::failure", True),
    "std::stoi": (("std::invalid_argument", "std::out_of_range"), False), "std::stol": (("std::invalid_argument", "std::out_of_range"), False), "std::stoul": (("std::invalid_argument", "std::out_of_range"), False),
    "std::stoll": (("std::invalid_argument", "std::out_of_range"), False), "std::stoull": (("std::invalid_argument", "std::out_of_range"), False), "std::stof": (("std::invalid_argument", "std::out_of_range"), False),
    "std::stod": (("std::invalid_argument", "std::out_of_range"), False), "std::stold": (("std::invalid_argument", "std::out_of_range"), False),
    "std::any_cast": ("std::bad_any_cast", False),
    "std::rethrow_exception": ("std::exception", False),
    "std::enable_shared_from_this::shared_from_this": ("std::bad_weak_ptr", True),
    "std::bitset::to_ulong": ("std::overflow_error", False),
    "std::bitset::set": ("std::out_of_range", True), "std::bitset::test": ("std::out_of_range", True),
}
FS_FREE = {"file_size", "remove", "remove_all", "rename", "copy", "copy_file", "create_directory", "create_directories", "exists", "is_directory",
           "is_regular_file", "is_empty", "absolute", "canonical", "weakly_canonical", "current_path", "last_write_time", "temp_directory_path",
           "resize_file", "status", "space", "permissions", "equivalent", "read_symlink", "hard_link_count", "is_symlink", "relative", "proximate"}


def plain(q):
    out, d = [], 0
    q = q.replace("<ctor>", "\x05").replace("<dtor>", "\x06")
    q = q.replace("operator<<", "operator\x01").replace("operator<=>", "operator\x02").replace("operator<", "operator\x03").replace("operator->", "operator\x04")
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("__cxx11::", "").replace("\x01", "<<").replace("\x02", "<=>").replace("\x03", "<").replace("\x04", "->").replace("\x05", "<ctor>").replace("\x06", "<dtor>")


class Escape:
    def __init__(self, p, judge=None, callbacks=True, skip=None, barrier=None):
        self.p = p
        self.barrier = barrier or (lambda t: False)   # functions nothing leaves: the program ends instead
        self.cap = {}          # function -> the only types that may leave it, by a finer analysis
        self.judge = judge or (lambda f, n, nd, what: None)
        self.callbacks = callbacks
        self.skip = skip or (lambda f, n, nd, t: False)
        self.why = {}          # (function, type) -> (node, callee or None, text)
        self.sets = {}
        self.sites = {}        # function -> [(node, 'throw'|'call', ...)]
        self.rev = {}
        self.conditional = set()
        for k, f in p.funcs.items():
            self.collect(f)
        self.solve()

    # -- what a function does itself
    def collect(self, f):
        f.prepare()
        own, calls = [], []
        lams = {}
        for i in sorted(f.elements):
            nd = f.nodes[i]
            if nd["k"] == "CXXThrowExpr":
                own.append((i, "rethrow" if nd.get("rethrow") else strip_type(nd.get("tt", "?")), "throws"))
        for i, nd in f.calls():
            ts = self.p.targets(nd)
            for t in ts:
                if not self.skip(f, i, nd, t):
                    calls.append((i, t))
            k = nd.get("f")
            if k is None:
                continue
            if ts:
                continue
            d = self.p.decls.get(k, {})
            q = plain(d.get("q") or k.split("(")[0])
            own += self.library(f, i, nd, k, d, q)
            if (q.startswith("std::") and q not in IMMEDIATE_NOT and not q.endswith("::<ctor>")):
                for a in nd.get("args", ()):
                    for t in self.lambdas_in(f, a):
                        calls.append((i, t))
        self.sites[f.key] = (own, calls)
        for i, t in calls:
            self.rev.setdefault(t, set()).add(f.key)

    def lambdas_in(self, f, a):
        """The call operators of the closures an argument is."""
        t = strip_type(f.nodes[a].get("t", ""))
        r = self.p.records.get(t)
        if r is None:
            return []
        out = []
        for m in r.get("methods", ()):
            k = m["f"] if isinstance(m, dict) else m
            if "::operator()" in k and k in self.p.funcs:
                out.append(k)
        if not out:
            out = [k for k, g in self.p.funcs.items() if g.is_lambda and g.record == t]
        return out

    def library(self, f, i, nd, k, d, q):
        if d.get("noexcept"):
            return []
        e = STD_THROWS.get(q)
        if e is not None:
            tt, cond = e
            if cond:
                v = self.judge(f, i, nd, q)
                if v is True:
                    return []
                self.conditional.add((f.key, i))
            return [(i, x, q) for x in ((tt,) if isinstance(tt, str) else tt)]
        if q.startswith("std::filesystem::") and q.rsplit("::", 1)[1] in FS_FREE and not q.startswith("std::filesystem::path"):
            if not any("error_code" in x for x in d.get("params", ())):
                return [(i, "std::filesystem::filesystem_error", q)]
        if self.callbacks and q in ("std::function::operator()", "std::invoke"):
            return [(i, "callback", q)] if q.endswith("()") or self.invokes_function(f, nd) else []
        return []

    def invokes_function(self, f, nd):
        a = nd.get("args") or ()
        return bool(a) and "std::function<" in f.nodes[a[0]].get("t", "")

    # -- handlers
    def caught(self, f, tid, tt):
        """(caught?, rethrown types are not tracked) by the try block and those around it."""
        while tid is not None and tid >= 0:
            for b in f.blocks.values():
                t = b.get("t")
                if not (t and t.get("k") == "CXXTryStmt" and t.get("tryid") == tid):
                    continue
                for hb in b["s"]:
                    if hb < 0:
                        continue
                    lab = f.blocks[hb].get("label", {})
                    if lab.get("k") != "CXXCatchStmt":
                        continue
                    if lab.get("t") is None:
                        return hb
                    c = strip_type(lab["t"])
                    x = strip_type(tt)
                    if x == c or self.p.is_derived(x, c) or std_derived(x, c, self.p):
                        return hb
            tid = f.trys[tid].get("parent", -1)
        return None

    def solve(self):
        self.sets, self.why = {}, {}
        work = list(self.p.funcs)
        queued = set(work)
        while work:
            k = work.pop()
            queued.discard(k)
            f = self.p.funcs[k]
            new = self.sets.get(k, set())
            before = len(new)
            new = set(new)
            own, calls = self.sites[k]
            inside = [(i, tt, None, text) for i, tt, text in own]
            for i, t in calls:
                for tt in () if self.barrier(t) else self.sets.get(t, ()):
                    inside.append((i, tt, t, None))
            handled = {}
            escaped = []
            for i, tt, t, text in inside:
                if tt == "rethrow":
                    continue
                h = self.caught(f, f.nodes[i].get("try"), tt)
                if h is None:
                    escaped.append((i, tt, t, text))
                else:
                    handled.setdefault(h, set()).add(tt)
            for i, tt, text in own:
                if tt == "rethrow":
                    # Whatever reached a handler of this function may go on.
                    for ts in handled.values():
                        for x in ts:
                            if self.caught(f, f.nodes[i].get("try"), x) is None:
                                escaped.append((i, x, None, "rethrows"))
            for i, tt, t, text in escaped:
                if tt not in new and tt in self.cap.get(k, (tt,)):
                    new.add(tt)
                    self.why.setdefault((k, tt), (i, t, text))
            if len(new) != before:
                self.sets[k] = new
                for c in self.rev.get(k, ()):
                    if c not in queued:
                        queued.add(c)
                        work.append(c)

    def chain(self, k, tt):
        """How the exception gets out of the function: a call path to the throwing construct."""
        out, seen = [], set()
        while k not in seen:
            seen.add(k)
            w = self.why.get((k, tt))
            if w is None:
                break
            f = self.p.funcs[k]
            i, t, text = w
            out.append(f"{f.q} at {f.loc(i).replace('/repo/', '')}" + (f" {text}" if text else ""))
            if t is None:
                break
            k = t
        return out
