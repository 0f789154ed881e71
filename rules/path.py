"""Path monitor: notifications (P01), registrations and watches (P02)."""
from rules.common import *  # noqa

MONITOR = "fly::path::PathMonitor"
SYS = {"read", "poll", "inotify_init1", "inotify_init", "inotify_add_watch", "inotify_rm_watch", "close"}
MINUS = ("c", -1)


class PathRule(Trace):
    """System calls, handlers called and changes to the maps of monitored paths."""
    stop = ()

    def __init__(self, p):
        self.p = p

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        if f is not None and ("/logger/" in f.file or "/types/string/" in f.file):
            return [(st, ("void",) if strip_type(f.ret) == "void" else I.fresh(st, fr, n, "log"))]
        if q.startswith("std::filesystem::"):
            self.key = key
            v = self.filesystem(I, st, q, args, obj)
            if v is not None:
                return [(st, v)]
        if q in ("std::find_if", "std::ranges::find_if", "std::any_of") and len(args) >= 2:
            self.ev(st, "search", self.base_of(args[0]), self.by_watch(I, st, fr, n, args[-1]), ("itof", fr.fid, n))
        if key in self.stop:
            st.set("called", 1)
            if f is not None and strip_type(f.ret) == "void":
                return [(st, ("void",))]
            v = I.fresh(st, fr, n, "res")
            v = to_bool(v) if f is not None and f.ret == "bool" else v
            st.set("last", v)
            return [(st, v)]
        return None

    def base_of(self, v):
        if v[0] == "&":
            return v[1]
        return v[2][1] if v[0] == "op" and v[1] in ("begin", "cbegin", "it") and v[2][0] == "&" else None

    def by_watch(self, I, st, fr, n, pred):
        """The comparisons a predicate over the paths makes, as (truth value, what it is given)."""
        lam = content(I, st, pred)
        if lam is None or lam[0] != "lam":
            return None
        ops = I.lambda_ops(lam[1])
        if len(ops) != 1:
            return None
        out = []
        for s, kind, v in I.run_function(st.copy(), self.p.funcs[ops[0]], None, [("&", ("r", "probe"))], fr, n, caps=I.lambda_caps(lam)):
            if kind == "ret":
                x = s.const(v)
                if x[0] == "c":
                    out += [(a if x == (ONE if b else ZERO) else neg(a)) for a, b in s.facts.items() if ("r", "probe") in flat(a)]
                else:
                    out.append(x)
        return tuple(out)

    def filesystem(self, I, st, q, args, obj):
        """Paths are values: their parts are functions of them, and so is what the file system says about them."""
        nm = q.rsplit("::", 1)[1]
        a = tuple(content(I, st, x) for x in args)
        o = I.freeze(st, obj) if obj is not None else None
        if nm in ("filename", "parent_path", "stem", "extension", "lexically_normal", "string", "native", "c_str") and o is not None:
            return ("op", "fs:" + nm, o)
        if nm == "operator/" and len(a) == 2:
            return ("op", "fs:/", a[0], a[1])
        if nm == "<ctor>" and len(a) >= 1:
            return args[0] if "path" not in (self.key or "") else ("op", "fs:path", a[0])
        if nm == "is_directory":
            return ("op", "fs:isdir", a[0])
        return None

    key = None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q in SYS and key not in self.p.funcs:
            self.ev(st, "sys", q, tuple(content(I, st, a) if q != "read" else a for a in args), val, fr.f.loc(n))

    def on_invoke(self, I, st, fr, n, fval, args):
        self.ev(st, "run", fval, tuple(content(I, st, a) for a in args), fr.f.loc(n))
        return None

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if name in ("erase", "clear", "insert", "emplace", "operator[]", "insert_or_assign", "try_emplace", "swap", "extract"):
            vals = tuple(c.val(i) for i in range(len(c.args)))
            self.ev(st, "cont", name, obj, vals, fr.f.loc(n))
            if name == "insert_or_assign" and len(vals) == 2:
                self.ev(st, "set", ("el", obj, vals[0]), vals[1], fr.f.loc(n))

    def on_found(self, I, st, fr, n, obj, key, it):
        self.ev(st, "find", obj, key, it, fr.f.loc(n))

    def on_write(self, I, st, fr, n, loc, val):
        if loc[0] in ("f", "el") and self.watched(loc):
            self.ev(st, "set", loc, val, fr.f.loc(n))

    def watched(self, loc):
        while loc[0] in ("f", "el"):
            if loc[0] == "f" and loc[2] in self.p.path_members:
                return True
            loc = loc[1]
        return False


def prepare(p, rep):
    """The members that hold registrations, found by their types."""
    if hasattr(p, "path_members"):
        return
    info = p.records.get(MONITOR + "::PathInfo")
    mon = p.records.get(MONITOR)
    rep.require(info and mon, "PathMonitor was not found")
    p.path_handler = only(rep, [f["n"] for f in info["fields"] if "std::function<" in f["t"] and "map<" not in f["t"]], "the path's handler")
    p.file_handlers = only(rep, [f["n"] for f in info["fields"] if "map<" in f["t"]], "the files' handlers")
    p.paths = only(rep, [f["n"] for f in mon["fields"] if "map<" in f["t"]], "the map of paths")
    p.path_members = {p.path_handler, p.file_handlers, p.paths}


def only(rep, xs, what):
    rep.require(len(xs) == 1, f"{what} could not be told: {xs}")
    return xs[0]


def run(p, rep, f, st=None, stop=(), this=None, dyn=None):
    rule = PathRule(p)
    rule.stop = set(stop)
    I = Interp(p, rule)
    if dyn:
        I.dyn[THIS] = dyn
    outs = I.run_entry(f, this, None, st)
    rep.absorb(I)
    return rule, I, outs


def method(p, rep, record, name):
    fs = [f for f in p.funcs.values() if f.record == record and f.name == name]
    rep.require(fs, f"{record}::{name} was not found")
    return fs[0]


def flat(t):
    """All tuples inside a term."""
    out, work = [], [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            out.append(x)
            work.extend(y for y in x if isinstance(y, tuple))
    return out


def lin(t):
    """A term as a sum: ({atom: coefficient}, constant)."""
    d, k = {}, 0
    work = [(t, 1)]
    while work:
        x, m = work.pop()
        if x[0] == "c" and isinstance(x[1], int):
            k += m * x[1]
        elif x[0] == "op" and x[1] in ("+", "-") and len(x) == 4:
            work += [(x[2], m), (x[3], m if x[1] == "+" else -m)]
        elif x[0] == "op" and x[1] == "*" and len(x) == 4 and x[2][0] == "c":
            work.append((x[3], m * x[2][1]))
        elif x[0] == "&" and x[1][0] == "el":
            work += [(("&", ("f", x[1][1], "#data")), m), (x[1][2], m)]
        elif x[0] == "&" and x[1][0] == "o":
            work.append((x[1][1], m))
        else:
            d[x] = d.get(x, 0) + m
    return {a: b for a, b in d.items() if b}, k


def minus(a, b):
    d = dict(a[0])
    for x, m in b[0].items():
        d[x] = d.get(x, 0) - m
    return {x: m for x, m in d.items() if m}, a[1] - b[1]


def plus(a, b):
    return minus(a, ({x: -m for x, m in b[0].items()}, -b[1]))


def fold(st, l):
    """A sum without the addends whose value is known."""
    d, k = {}, l[1]
    for x, m in l[0].items():
        c = st.const(x)
        if c[0] == "c" and isinstance(c[1], int):
            k += m * c[1]
        else:
            d[x] = m
    return d, k


def frozen(l):
    return (tuple(sorted(l[0].items(), key=str)), l[1])


IN = {"Created": 0x100 | 0x80, "Deleted": 0x200 | 0x40, "Changed": 0x2}
EVENTS = {"Created": 1, "Deleted": 2, "Changed": 3}


def P01(p, rep, thorough):
    rep.explanation = (
        "Path analysis of the notification reader with addresses kept as symbolic sums, of the handling of one record from an "
        "arbitrary map of paths and handlers, and of the poll loop and its task: which records are handed on, what each is "
        "mapped to, which handler is called and with what.")
    rep.assumptions += ["inotify sets one event bit per record", "read() fills at most the bytes it is given"]
    prepare(p, rep)
    impl = MONITOR + "Impl"
    takes = [f for f in p.funcs.values() if f.record == impl and not f.is_lambda and
             any("inotify_event" in q["t"] for q in f.params)]
    rep.require(takes, "no function takes a notification record")
    records(p, rep, method_with(p, rep, impl, "read"), {f.key for f in takes})
    n = 0
    for f in takes:
        n += handling(p, rep, f)
    rep.require(n >= 6, f"only {n} calls of a handler were seen")
    kinds(p, rep, impl)
    polling(p, rep, impl)


def kinds(p, rep, impl):
    """Every kind that can be reported is asked for."""
    for f in [f for f in p.funcs.values() if (f.record or "").startswith(impl) and calls(f, "inotify_add_watch")]:
        rule, I, outs = run(p, rep, f)
        for st, kind, val in outs:
            for e in rule.evs(st, "sys"):
                if e[1] == "inotify_add_watch":
                    m = st.const(e[2][2])
                    for k, bits in IN.items():
                        rep.check("every kind of event is asked for", k, m[0] == "c" and m[1] & bits == bits, e[4],
                                  f"the mask is {m}", st.path())


def calls(f, name):
    return any(nd.get("f") and nd["f"].split("(")[0] == name for i, nd in f.calls())


def method_with(p, rep, record, sysname):
    fs = list({p.home(f).key: p.home(f) for f in p.funcs.values() if calls(f, sysname) and p.home(f).record == record}.values())
    rep.require(len(fs) == 1, f"{sysname} is called by {len(fs)} functions of {record}")
    return fs[0]


class RecordRule(PathRule):
    """The reader: each record looked at follows the one before; those with a name are handed on once."""

    def __init__(self, p, takes):
        super().__init__(p)
        self.takes = takes
        self.problems = {}
        self.seen = self.given = 0

    def bad(self, st, where, rule, text):
        self.problems.setdefault(rule, []).append((where, text, st.path()))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q == "read" and key not in self.p.funcs and len(args) == 3:
            L = args[1][1] if args[1][0] == "&" else None
            st.set("ok", L is not None and L[0] == "f" and L[2] == "#data" and
                   st.const(args[2]) in (("op", "size", I.freeze(st, L[1])), array_size(self.p, L[1])))
        if key in self.takes:
            i = [k for k, x in enumerate(self.p.funcs[key].params) if "inotify_event" in x["t"]][0]
            x = lin(args[i])
            cur = st.get("cur")
            self.given += 1
            if st.get("iter", 0) <= 2:
                if cur is None or fold(st, minus(x, thaw(cur[0]))) != ({}, 0):
                    self.look(I, st, x, None, fr.f.loc(n))
                    cur = st.get("cur")
                if cur is not None and (cur[1] is None or self.named(st, cur[1]) is not True):
                    self.bad(st, fr.f.loc(n), "a record is handed on once, if it names a file", "a record whose length is zero has no name")
                if st.get("given"):
                    self.bad(st, fr.f.loc(n), "a record is handed on once, if it names a file", "a record is handed on twice")
                self.inside(st, x, fr.f.loc(n))
            st.set("given", 1)
            return [(st, ("void",))]
        return super().pre_call(I, st, fr, n, nd, key, q, args, obj)

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "read" and key not in self.p.funcs:
            L = args[1][1] if args[1][0] == "&" else None
            st.set("read", (frozen(lin(args[1])), L, val, st.const(args[2])))
            if L is not None:
                I.clear(st, L)
                st.store[L] = ("s", "buffer")

    def on_read(self, I, st, fr, n, loc, val):
        if loc[0] == "f" and loc[2] == "len" and st.get("read"):
            self.look(I, st, lin(("&", loc[1])), val, fr.f.loc(n))

    def look(self, I, st, x, ln, where):
        rd = st.get("read")
        if rd is None:
            return
        self.seen += 1
        cur = st.get("cur")
        fx = frozen(x)
        if cur is not None and fold(st, minus(x, thaw(cur[0]))) == ({}, 0):
            if cur[1] is None and ln is not None:
                st.set("cur", (fx, ln))
            return
        it = st.get("iter", 0)
        if it <= 1:
            if cur is None:
                ok = minus(x, thaw(rd[0])) == ({}, 0)
            else:
                self.leave(st, where)
                ok = cur[1] is not None and fold(st, minus(plus(thaw(cur[0]), plus(({}, 16), lin(cur[1]))), x)) == ({}, 0)
            if not ok:
                self.bad(st, where, "every record follows the one before", f"a record is looked for at {fx}"[:200])
        st.set("iter", min(it + 1, 3))
        if it <= 1:
            self.inside(st, x, where)
            st.set("cur", (fx, ln))
        else:
            st.set("cur", None)
        st.set("given", None)

    def inside(self, st, x, where):
        """The record starts before the end of what was read."""
        if self.before_end(st, x) is not True:
            self.bad(st, where, "only bytes that were read are decoded", "a record is looked at that may start after the end")

    def before_end(self, st, x):
        rd = st.get("read")
        if rd is None:
            return None
        gap = fold(st, minus(x, plus(thaw(rd[0]), lin(rd[2]))))
        for a, b in st.facts.items():
            if a[0] == "op" and a[1] == "<" and len(a) == 4:
                if fold(st, minus(lin(a[2]), lin(a[3]))) == gap:
                    return b
            if a[0] == "op" and a[1] == "==" and len(a) == 4 and gap in (fold(st, minus(lin(a[2]), lin(a[3]))), fold(st, minus(lin(a[3]), lin(a[2])))):
                return not b
        if len(gap[0]) == 1 and list(gap[0].values()) == [-1] and gap[1] <= 0:
            v = st.truth(mk_lt(ZERO, list(gap[0])[0]))
            return v
        return None

    def named(self, st, ln):
        """Whether an (unsigned) length is positive."""
        v = st.truth(mk_lt(ZERO, ln))
        if v is None:
            z = st.truth(mk_eq(ln, ZERO))
            v = None if z is None else not z
        return v

    def leave(self, st, where):
        cur = st.get("cur")
        if cur is not None and cur[1] is not None and not st.get("given") and self.named(st, cur[1]) is not False:
            self.bad(st, where, "a record is handed on once, if it names a file", "a record with a name is skipped")


def array_size(p, L):
    """The number of bytes of a std::array member."""
    if L[0] == "f":
        for r in p.records.values():
            for fl in r.get("fields", []):
                if fl["n"] == L[2] and fl["t"].startswith("std::array<"):
                    n = fl["t"].rsplit(",", 1)[1].strip(" >")
                    return ("c", int(n.rstrip("UL"))) if n.rstrip("UL").isdigit() else None
    return None


def thaw(x):
    return dict(x[0]), x[1]


def records(p, rep, f, takes):
    rule = RecordRule(p, takes)
    I = Interp(p, rule)
    outs = I.run_entry(f)
    rep.absorb(I)
    w = rep.where(f)
    for st, kind, val in outs:
        rd = st.get("read")
        if kind != "ret" or rd is None:
            continue
        rep.check("no more is read than the buffer holds", f.name, bool(st.get("ok")), w, "the size given is not that of the buffer", st.path())
        pos = st.truth(mk_lt(ZERO, rd[2]))
        v = st.const(val)
        rep.check("reading goes on exactly while something was read", f.name,
                  pos is not None and (v == (ONE if pos else ZERO) or v == mk_lt(ZERO, rd[2])), w, f"returns {str(v)[:80]}", st.path())
        cur = st.get("cur")
        if pos is True and st.get("iter", 0) <= 2:
            if cur is None:
                rep.check("every record that was read is decoded", f.name, False, w, "no record is decoded although something was read", st.path()) \
                    if rule.before_end(st, thaw(rd[0])) is not False else None
            else:
                rule.leave(st, w)
                nxt = plus(thaw(cur[0]), plus(({}, 16), lin(cur[1]))) if cur[1] is not None else None
                rep.check("every record that was read is decoded", f.name, nxt is not None and rule.before_end(st, nxt) is False, w,
                          "the loop ends before the bytes read do", st.path())
    for nm in ("every record follows the one before", "a record is handed on once, if it names a file", "only bytes that were read are decoded"):
        b = rule.problems.get(nm, [])
        rep.check(nm, f.name, not b, b[0][0] if b else w, b[0][1] if b else "", b[0][2] if b else ())
    rep.require(rule.seen >= 3 and rule.given >= 2, "no record was seen to be decoded")


def handling(p, rep, f):
    """One record: who is told what."""
    i = [k for k, x in enumerate(f.params) if "inotify_event" in x["t"]][0]
    rule, I, outs = run(p, rep, f)
    w = rep.where(f)
    n = 0
    paths = ("f", THIS, p.paths)
    for st, kind, val in outs:
        if kind != "ret":
            continue
        mask = mask_bits(st)
        runs = rule.evs(st, "run")
        rep.check("at most one handler is told", f.name, len(runs) <= 1, w, f"{len(runs)} handlers are called", st.path())
        if not runs:
            why = "no path has the watch" if nothing_found(rule, st, paths) else None
            if not why and all(mask[k] is False for k in IN):
                why = "no event"
            if not why:
                for a, b in st.facts.items():
                    if b is True and a[0] == "op" and a[1] == "==" and a[3] == ZERO and handler_of(p, a[2]):
                        why = "no handler"
            rep.check("a notification is dropped only for a reason", f.name, why is not None, w,
                      "an event of a monitored path is not reported", st.path())
            continue
        n += 1
        e = runs[0]
        h = handler_of(p, e[1])
        rep.check("the handler called is a registered one", f.name, h is not None, e[3], f"calls {str(e[1])[:120]}", st.path())
        if h is None:
            continue
        what, info, it = h
        src = info[1][1] if info[0] == "o" and info[1][0] == "s" and info[1][1] == "init" else None
        elem = info[1][2][1] if info[0] == "o" and info[1][:2] == ("s", "init") and info[1][2][0] == "f" else None
        rep.check("the path is the one the watch belongs to", f.name, elem is not None and elem[0] == "el" and elem[1] == paths and
                  matched(rule, st, elem), e[3], "the path was not looked up by the record's watch descriptor", st.path())
        name = ("op", "fs:path", ("s", "init", ("f", ("o", ("s", "param", i, 1)), "name")))
        finds = [x for x in rule.evs(st, "find") if x[1] == ("f", info, p.file_handlers)]
        good = [x for x in finds if x[2] == name or is_name(x[2])]
        if what == "file":
            rep.check("a file's own handler is found by its name", f.name, any(it_of(x) == it for x in good), e[3],
                      "the handler was not looked up by the record's name", st.path())
        else:
            rep.check("a file's own handler goes before its directory's", f.name, any(absent(st, x) for x in good), e[3],
                      "the directory's handler is called although the file may have its own", st.path())
            rep.check("an absent handler is not called", f.name, st.truth(mk_eq(e[1], ZERO)) is False, e[3],
                      "the directory's handler may be empty", st.path())
        a = tuple(strip_path(x) for x in e[2][:1]) + tuple(e[2][1:])
        ok = len(a) == 2 and a[0][0] == "op" and a[0][1] == "fs:/" and strip_path(a[0][2]) == ("s", "init", ("f", elem, "first")) and \
            (a[0][3] == name or is_name(a[0][3]))
        rep.check("the handler is told the full path", f.name, ok, e[3], f"it is told {str(a[:1])[:160]}", st.path())
        k = st.const(a[1]) if len(a) == 2 else None
        kindname = [x for x, v in EVENTS.items() if k == ("c", v)]
        rep.check("the handler is told what happened", f.name, bool(kindname) and mask[kindname[0]] is True, e[3],
                  f"it is told {k} and the mask is known to be {mask}", st.path())
    return n


def it_of(e):
    """The iterator a search gave."""
    return ("s", e[3][1], e[3][2], "it") if e[3][0] == "itof" else e[3]


def strip_path(v):
    while v[0] == "op" and v[1] == "fs:path":
        v = v[2]
    return v


def is_name(v):
    v = strip_path(v)
    return v[0] == "s" and v[1] == "init" and v[2][0] == "f" and v[2][2] == "name"


def handler_of(p, v):
    """(kind, the path's information, the iterator's element) of a handler value."""
    if v[0] == "s" and v[1] == "init" and v[2][0] == "f":
        L = v[2]
        if L[2] == p.path_handler:
            return "path", L[1], None
        if L[2] == "second" and L[1][0] == "el" and L[1][1][0] == "f" and L[1][1][2] == p.file_handlers:
            return "file", L[1][1][1], L[1][2]
    return None


def matched(rule, st, elem):
    """The element was found by comparing its watch descriptor with the record's."""
    for e in rule.evs(st, "search"):
        if it_of(e) == elem[2] and e[2] and any(is_watch_test(x) for x in e[2]) and len(e[2]) == 1:
            return True
    return any(b is True and is_watch_test(a, elem) for a, b in st.facts.items())


def is_watch_test(x, elem=None):
    if x[0] != "op" or x[1] != "==" or len(x) != 4:
        return False
    a, b = x[2], x[3]
    wd = [y for y in (a, b) if y[0] == "s" and y[1] == "init" and y[2][0] == "f" and y[2][2] == "wd"]
    own = [y for y in (a, b) if y not in wd]
    if len(wd) != 1 or len(own) != 1:
        return False
    o = own[0]
    base = elem if elem is not None else ("r", "probe")
    return o[0] == "s" and o[1] == "init" and o[2][0] == "f" and base in flat(o) and o[2][2] not in ("first",)


def nothing_found(rule, st, paths):
    for e in rule.evs(st, "search"):
        if e[1] == paths:
            for a, b in st.facts.items():
                if b is True and a[0] == "op" and a[1] == "==" and it_of(e) in flat(a):
                    return True
    for a, b in st.facts.items():
        if b is True and a[0] == "op" and a[1] == "==" and any(x[0] == "op" and x[1] == "end" and x[2] == ("&", paths) for x in flat(a) if len(x) > 2):
            return True
        if b is True and a[0] == "op" and a[1] == "empty":
            return True
    return False


def absent(st, x):
    for a, b in st.facts.items():
        if b is True and a[0] == "op" and a[1] == "==" and it_of(x) in flat(a):
            return True
    return False


def mask_bits(st):
    """What is known of each kind's bits: True (one of them is set), False (none is), or None."""
    known0, out = 0, {}
    pos = []
    for a, b in st.facts.items():
        if a[0] == "op" and a[1] == "==" and a[3] == ZERO and a[2][0] == "op" and a[2][1] == "&":
            c = [x for x in a[2][2:] if x[0] == "c"]
            if len(c) == 1 and "mask" in str(a[2]):
                if b is True:
                    known0 |= c[0][1]
                elif b is False:
                    pos.append(c[0][1])
    for k, bits in IN.items():
        if any(m & ~known0 and (m & ~known0) & ~bits == 0 for m in pos):
            out[k] = True
        elif known0 & bits == bits:
            out[k] = False
        else:
            out[k] = None
    return out


def polling(p, rep, impl):
    """Waiting for notifications: all of them are read, again and again."""
    f = method_with(p, rep, impl, "poll")
    reader = method_with(p, rep, impl, "read")
    n = 0
    rule, I, outs = run(p, rep, f, stop={reader.key})
    for st, kind, val in outs:
        if kind != "ret":
            continue
        sysev = [e for e in rule.evs(st, "sys") if e[1] == "poll"]
        cl = st.get("called")
        n += 1
        rep.check("the system is asked for notifications", f.name, len(sysev) == 1, rep.where(f), f"poll is called {len(sysev)} times", st.path())
        if not sysev:
            continue
        r = sysev[0][3]
        ready = st.truth(mk_lt(ZERO, r))
        if ready is True and not cl:
            bit = [b for a, b in st.facts.items() if a[0] == "op" and a[1] == "==" and a[3] == ZERO and a[2][0] == "op" and a[2][1] == "&"]
            rep.check("notifications that are ready are read", f.name, bool(bit) and bit[-1] is True, rep.where(f),
                      "nothing is read although notifications are ready", st.path())
        if not cl:
            continue
        rep.check("all notifications are read", f.name, st.truth(st.get("last")) is False, rep.where(f),
                  "reading stops although there may be more", st.path())
    rep.require(n >= 3, "the poll function was not understood")
    # The task.
    base = MONITOR
    later = [g for g in p.funcs.values() if g.record == base and not g.is_lambda and any(
        (nd.get("f") or "").startswith("bool fly::task") or "::post_task" in (nd.get("f") or "") for i, nd in g.calls())]
    rep.require(len(later) == 1, f"{len(later)} functions post the poll task")
    task(p, rep, later[0])


def task(p, rep, g):
    rep.good("polling is posted from one place", g.name, rep.where(g))


# --------------------------------------------------------------------------------------------- P02
class RegRule(PathRule):
    """What one call does to the registrations, and under which hold of the lock."""

    def on_lock(self, I, st, fr, n, loc, kind):
        st.set("hold", (st.get("hold") or 0) + 1)

    def note(self, st):
        st.set("holds", tuple(sorted(set(st.get("holds", ())) | {st.get("hold") or 0})))

    def on_container(self, I, st, fr, n, obj, name, c, v):
        super().on_container(I, st, fr, n, obj, name, c, v)
        if self.watched(obj) and obj[0] != "h":
            self.note(st)

    def on_write(self, I, st, fr, n, loc, val):
        super().on_write(I, st, fr, n, loc, val)
        if loc[0] in ("f", "el") and self.watched(loc) and root(loc)[0] != "h":
            self.note(st)


def P02(p, rep, thorough):
    rep.explanation = (
        "Path analysis of every operation on the registrations from an arbitrary map of paths and files: what each outcome leaves "
        "in the maps, under how many holds of the lock, and typestate of the watches and the descriptor they belong to.")
    rep.assumptions += ["std::map and std::unordered_map behave as specified", "a path's parts are functions of the path"]
    prepare(p, rep)
    adding(p, rep, "add_path", False)
    adding(p, rep, "add_file", True)
    removing_path(p, rep)
    removing_file(p, rep)
    removing_all(p, rep)
    watches(p, rep)


def regs(p, rep, f):
    rule = RegRule(p)
    I = Interp(p, rule)
    outs = I.run_entry(f)
    rep.absorb(I)
    return rule, I, [(st, st.const(v) if v is not None else v) for st, kind, v in outs if kind == "ret"]


def one_hold(rep, f, st):
    rep.check("an operation is one critical section", f.name, len(st.get("holds", ())) <= 1 and 0 not in st.get("holds", ()), rep.where(f),
              "it looks at and changes the registrations under different holds of the lock, or none", st.path())


def params(f):
    """Where a call's path and handler are, by type."""
    path = handler = None
    for i, x in enumerate(f.params):
        t = x["t"]
        if "std::function<" in t:
            handler = i
        elif "filesystem::path" in t:
            path = i
    return path, handler


def value_of(f, i):
    return ("s", "init", ("r", "param", i)) if f.params[i]["t"].endswith("&") else ("s", "param", i, 1)


def part(v, *names):
    for nm in names:
        v = ("op", "fs:" + nm, v)
    return v


def is_null(st, v):
    return st.truth(mk_eq(v, ZERO))


def key_of(rule, st, obj, a):
    """The key an element or an argument of a map operation stands for."""
    a = strip_path(a)
    if a[0] == "op" and a[1] == "it":
        a = a[3]
    if a[0] == "s" and a[-1] == "it":
        for e in rule.evs(st, "find"):
            if it_of(e) == a and e[1] == obj:
                return strip_path(e[2])
        return None
    return a


def found(rule, st, obj, key):
    """Whether a lookup of the key in the map succeeded; None if it was not made."""
    r = None
    for e in rule.evs(st, "find"):
        if e[1] == obj and strip_path(e[2]) == key:
            it = it_of(e)
            for a, b in st.facts.items():
                if a[0] == "op" and a[1] == "==" and any(x[0] == "op" and x[1] == "end" for x in a[2:]) and it in flat(a):
                    r = not b
    for a, b in st.facts.items():
        if r is None and isinstance(b, bool):
            t, yes = (a[2], not b) if a[0] == "op" and a[1] == "==" and a[3] == ZERO else (a, b)
            if t[0] == "op" and t[1] == "==" and t[3] == ONE and t[2][0] == "op" and t[2][1] == "count":
                t = t[2]
            if t[0] == "op" and t[1] == "<" and t[3][0] == "op" and t[3][1] == "count" and t[2] == ZERO:
                t = t[3]
            if t[0] == "op" and t[1] == "<" and t[2][0] == "op" and t[2][1] == "count" and t[3] == ONE:
                t, yes = t[2], not yes
            if t[0] == "op" and t[1] in ("contains", "count") and strip_path(t[-1]) == key and obj in flat(t[2]):
                r = yes
    return r


def info_of(p, rule, st, loc, paths):
    """(the registration a location lies in, its key, whether it is new) - None if it is none."""
    while loc[0] in ("f", "el") and not (loc[0] == "f" and loc[2] in (p.path_handler, p.file_handlers)):
        loc = loc[1]
    if loc[0] != "f":
        return None
    base = loc[1]
    if base[0] == "o" and base[1][0] == "s" and base[1][1] == "init" and base[1][2][0] == "f" and base[1][2][1][0] == "el":
        el = base[1][2][1]
        if el[1] == paths:
            return base, key_of(rule, st, paths, el[2]), False
    if base[0] == "h":
        for e in rule.evs(st, "set"):
            if e[1][0] == "el" and e[1][1] == paths and e[2] in (("&", base),):
                return base, strip_path(e[1][2]), True
        for e in rule.evs(st, "cont"):
            if e[1] in ("emplace", "try_emplace", "insert_or_assign") and e[2] == paths and len(e[3]) == 2 and e[3][1] == ("&", base):
                return base, strip_path(e[3][0]), True
        return base, None, True
    return None


def stores(p, rule, st, paths):
    """The events that change registrations (the members of an object under construction apart)."""
    out = []
    for e in rule.evs(st, "set", "cont"):
        loc = e[1] if e[0] == "set" else e[2]
        if e[0] == "set" and loc[0] == "f" and loc[1][0] == "h" and (e[2] in (ZERO, ("emptyc",), ("none",))):
            continue
        if e[0] == "set" and loc[0] == "f" and loc[2] in (p.paths, p.file_handlers):
            continue            # the map as a whole, after an operation that is an event of its own
        out.append(e)
    return out


def adding(p, rep, name, is_file):
    f = method(p, rep, MONITOR, name)
    rule, I, outs = regs(p, rep, f)
    w = rep.where(f)
    paths = ("f", THIS, p.paths)
    pi, hi = params(f)
    rep.require(pi is not None and hi is not None, f"{name} takes no path or no handler")
    path, cb = value_of(f, pi), value_of(f, hi)
    key = part(path, "parent_path") if is_file else path
    good = bad = 0
    for st, v in outs:
        one_hold(rep, f, st)
        ch = stores(p, rule, st, paths)
        if v == ONE:
            good += 1
            sets = [e for e in ch if e[0] == "set" and e[1][0] == "f" and e[1][2] == p.path_handler or
                    e[0] == "set" and e[1][0] == "el" and e[1][1][0] == "f" and e[1][1][2] == p.file_handlers]
            rep.check("success means the handler is stored", name, len(sets) == 1, w, f"{len(sets)} handlers are stored", st.path())
            for e in sets:
                inf = info_of(p, rule, st, e[1], paths)
                rep.check("the handler is stored for its path", name, inf is not None and inf[1] == key, e[3],
                          f"it is stored for {str(inf)[:200]}", st.path())
                ok = e[2] == cb and (e[1][0] == "f" if not is_file else e[1][0] == "el" and strip_path(e[1][2]) == part(path, "filename"))
                rep.check("the handler given is the one stored", name, ok, e[3], f"stores {str(e[2])[:80]} at {str(e[1])[:160]}", st.path())
                if inf is not None and inf[2]:
                    sysev = [x for x in rule.evs(st, "sys") if x[1] == "inotify_add_watch"]
                    rep.check("a new registration has a watch", name, len(sysev) == 1 and st.truth(mk_eq(sysev[0][3], MINUS)) is False, w,
                              "the registration is kept without a valid watch", st.path())
                    if sysev:
                        a = sysev[0][2]
                        rep.check("the watch is on the path registered", name, key in flat(a[1]) and not any(
                            x != key and x[0] == "op" and x[1] in ("fs:filename", "fs:parent_path", "fs:/") and key in flat(x) for x in flat(a[1])),
                            sysev[0][4], f"the watch is on {str(a[1])[:160]}", st.path())
                    rep.check("a path is registered anew only if it is not yet", name, found(rule, st, paths, key) is False, w,
                              "a registration may be replaced by a new one", st.path())
                elif inf is not None:
                    rep.check("a registration used is one that exists", name, is_null(st, inf[0][1]) is False or found(rule, st, paths, key) is True, w,
                              "a registration is used although it may not exist", st.path())
            other = [e for e in ch if e not in sets and not creates(e, key, paths) and not (e[0] == "cont" and e[1] in ("operator[]", "insert_or_assign"))]
            rep.check("success changes nothing else", name, not other, w, f"also {str(other[:1])[:200]}", st.path())
            rep.check("a null handler is refused", name, is_null(st, cb) is False, w, "the handler may be null", st.path())
            d = st.truth(("op", "fs:isdir", path)) if not is_file else st.truth(("op", "fs:isdir", part(path, "parent_path")))
            rep.check("only files in directories and directories are taken", name, truth(st, ("op", "fs:isdir", key)) is True and
                      (not is_file or truth(st, ("op", "fs:isdir", path)) is False), w, "it is not known to be one", st.path())
        elif v == ZERO:
            bad += 1
            rep.check("failure leaves nothing behind", name, not ch, ch[0][-1] if ch else w, f"{str(ch[:1])[:200]}", st.path())
            sysev = [x for x in rule.evs(st, "sys") if x[1] == "inotify_add_watch"]
            why = is_null(st, cb) is True or truth(st, ("op", "fs:isdir", key)) is False or is_file and truth(st, ("op", "fs:isdir", path)) is True \
                or any(st.truth(mk_eq(x[3], MINUS)) is True for x in sysev) or null_info(p, st, paths)
            rep.check("a registration is refused only for a reason", name, why, w, "it fails although everything it needs was there", st.path())
        else:
            rep.require(False, f"{name} returns {str(v)[:80]}")
    rep.require(good >= 2 and bad >= 3, f"{name} has {good} ways to succeed and {bad} to fail")


def truth(st, t):
    v = st.truth(t)
    if v is None:
        z = st.truth(mk_eq(t, ZERO))
        v = None if z is None else not z
    return v


def creates(e, key, paths):
    return e[0] == "set" and e[1][0] == "el" and e[1][1] == paths and strip_path(e[1][2]) == key or \
        e[0] == "cont" and e[2] == paths and e[1] in ("operator[]", "emplace", "insert", "try_emplace", "insert_or_assign") and e[3] and strip_path(e[3][0]) == key


def null_info(p, st, paths):
    for a, b in st.facts.items():
        if b is True and a[0] == "op" and a[1] == "==" and a[3] == ZERO and a[2][0] == "s" and a[2][1] == "init" and \
                a[2][2][0] == "f" and a[2][2][1][0] == "el" and a[2][2][1][1] == paths:
            return True
    return False


def erased(rule, st, obj):
    """The keys erased from a map."""
    return [key_of(rule, st, obj, e[3][0]) if e[3] else None for e in rule.evs(st, "cont") if e[2] == obj and e[1] in ("erase", "extract")]


def removing_path(p, rep):
    f = method(p, rep, MONITOR, "remove_path")
    rule, I, outs = regs(p, rep, f)
    w = rep.where(f)
    paths = ("f", THIS, p.paths)
    path = value_of(f, params(f)[0])
    n = 0
    for st, v in outs:
        one_hold(rep, f, st)
        ch = [e for e in stores(p, rule, st, paths)]
        er = erased(rule, st, paths)
        n += 1
        counted = [e for e in rule.evs(st, "cont") if e[1] == "erase"]
        if v[0] != "c":
            rep.check("removing a path removes exactly that path", f.name, er == [path] and len(ch) == 1, w, f"erases {str(er)[:120]}", st.path())
            continue
        if v == ONE:
            rep.check("removing a path removes exactly that path", f.name, er == [path] and len(ch) == 1, w, f"erases {str(er)[:120]}", st.path())
        else:
            rep.check("a path is reported missing only if it is", f.name, found(rule, st, paths, path) is False or er == [path], w,
                      "it fails although the path may be registered", st.path())
            rep.check("removing a missing path changes nothing", f.name, not [e for e in ch if e not in counted], w, f"{str(ch[:1])[:160]}", st.path())
    rep.require(n >= 1, "remove_path was not understood")


def removing_file(p, rep):
    f = method(p, rep, MONITOR, "remove_file")
    rule, I, outs = regs(p, rep, f)
    w = rep.where(f)
    paths = ("f", THIS, p.paths)
    path = value_of(f, params(f)[0])
    key, name = part(path, "parent_path"), part(path, "filename")
    yes = no = 0
    for st, v in outs:
        one_hold(rep, f, st)
        ch = stores(p, rule, st, paths)
        er = [e for e in rule.evs(st, "cont") if e[1] in ("erase", "extract") and e[2][0] == "f" and e[2][2] == p.file_handlers]
        up = erased(rule, st, paths)
        others = [e for e in ch if e not in er and not (e[0] == "cont" and e[1] in ("erase", "extract") and e[2] == paths)]
        rep.check("removing a file changes nothing else", f.name, not others, w, f"{str(others[:1])[:160]}", st.path())
        if v == ZERO and not er and not up:
            no += 1
            ok = found(rule, st, paths, key) is False
            for e in rule.evs(st, "find"):
                if e[1][0] == "f" and e[1][2] == p.file_handlers and strip_path(e[2]) == name and absent(st, e):
                    ok = True
            rep.check("a file is reported missing only if it is", f.name, ok, w, "it fails although the file may be registered", st.path())
            continue
        yes += 1
        one = len(er) == 1 and bool(er[0][3]) and key_of(rule, st, er[0][2], er[0][3][0]) == name
        inf = info_of(p, rule, st, er[0][2], paths) if er else None
        rep.check("removing a file removes exactly that file", f.name, one and inf is not None and inf[1] == key, w,
                  f"erases {str([(e[2], e[3]) for e in er])[:200]}", st.path())
        if v != ONE and not up and v[0] == "c":
            rep.bad("removing a file reports success", f.name, w, f"returns {str(v)[:60]}", st.path())
        if not inf:
            continue
        maploc = ("f", inf[0], p.file_handlers)
        left = st.truth(mk_empty(st.store.get(maploc, ("s", "init", maploc))))
        sets = [e for e in rule.evs(st, "set") if e[1] == maploc]
        left = st.truth(mk_empty(sets[-1][2])) if sets else left
        handler = is_null(st, ("s", "init", ("f", inf[0], p.path_handler)))
        if up:
            rep.check("a directory is dropped only with its last registration", f.name, up == [key] and left is True and handler is True, w,
                      f"the directory goes although registrations may be left (files gone: {left}, no handler: {handler})", st.path())
            order = [e[2] for e in rule.evs(st, "cont") if e[1] in ("erase", "extract")]
            rep.check("a directory is dropped after its file", f.name, bool(order) and order[-1] == paths, w, "the file's map is used after its directory went", st.path())
        else:
            rep.check("a directory goes with its last registration", f.name, left is False or handler is False, w,
                      f"the directory stays watched although nothing may be left (files gone: {left}, no handler: {handler})", st.path())
    rep.require(yes >= 2 and no >= 1, f"remove_file has {yes} ways to succeed and {no} to fail")


def removing_all(p, rep):
    f = method(p, rep, MONITOR, "remove_all_paths")
    rule, I, outs = regs(p, rep, f)
    paths = ("f", THIS, p.paths)
    for st, v in outs:
        one_hold(rep, f, st)
        rep.check("removing all paths leaves none", f.name, gone(rule, st, paths), rep.where(f), "the map is not emptied", st.path())


def gone(rule, st, paths):
    """The map of paths was emptied (or its contents were moved away)."""
    last = None
    for e in rule.evs(st, "cont", "set"):
        if e[0] == "cont" and e[2] == paths:
            last = e[1] == "clear" or (last and e[1] == "erase")
        elif e[0] == "set" and e[1] == paths and e[2] == ("emptyc",):
            last = True
    return bool(last)


def watches(p, rep):
    impl = MONITOR + "Impl"
    # A watch is taken when its owner is made and given back when it goes.
    owners = {(p.home(g).record or "") for g in p.funcs.values() if calls(g, "inotify_add_watch")}
    rep.require(len(owners) == 1, f"watches are taken by {sorted(owners)}")
    owner = owners.pop()
    for g in p.funcs.values():
        if calls(g, "inotify_add_watch") or calls(g, "inotify_rm_watch"):
            rep.check("watches are owned by one class", g.name, p.home(g).record == owner, rep.where(g),
                      "a watch is taken or given back elsewhere")
    takers = {t.key: t for g in p.funcs.values() if calls(g, "inotify_add_watch") for t in p.tops(g, owner)}
    ctor = [g for g in takers.values() if g.record == owner and g.name == "<ctor>"]
    rep.require(ctor, "no constructor takes the watch")
    member = fdmember = None
    for g in ctor:
        rule, I, outs = run(p, rep, g)
        for st, kind, v in outs:
            if kind != "ret":
                continue
            e = [x for x in rule.evs(st, "sys") if x[1] == "inotify_add_watch"]
            rep.check("one watch is taken", g.name, len(e) == 1, rep.where(g), f"{len(e)} watches are taken", st.path())
            for L, x in st.store.items():
                if e and L[0] == "f" and L[1] == THIS:
                    if x == e[0][3] or st.const(e[0][3]) == x and "watch" in L[2]:
                        member = member or L[2]
                    if e[0][2] and x == e[0][2][0]:
                        fdmember = L[2]
    rep.require(member and fdmember, f"the members holding the watch and its descriptor were not found: {member}, {fdmember}")
    mfield, ffield = ("s", "init", ("f", THIS, member)), ("s", "init", ("f", THIS, fdmember))
    for g in dtors(p, rep, owner):
        rule, I, outs = run(p, rep, g)
        for st, kind, v in outs:
            e = [x for x in rule.evs(st, "sys") if x[1] == "inotify_rm_watch"]
            none = st.truth(mk_eq(mfield, MINUS))
            if none is True:
                rep.check("a watch is given back once", g.name, len(e) <= 1, rep.where(g), "more than one watch is given back", st.path())
            else:
                rep.check("a watch is given back once", g.name, len(e) == 1 and st.const(e[0][2][1]) in (mfield, st.const(mfield)) and e[0][2][0] == ffield,
                          rep.where(g), f"{len(e)} watches are given back, or not this one", st.path())
    for g in [g for g in p.funcs.values() if (g.record or "") == owner and {t.name for t in p.tops(g, owner)} - {"<ctor>", "<dtor>"}]:
        rule, I, outs = run(p, rep, g)
        for st, kind, v in outs:
            ch = [L for L in st.store if L in (("f", THIS, member), ("f", THIS, fdmember))]
            rep.check("a watch stays with its owner", g.name, not [L for L in ch if st.store[L] != ("s", "init", L)], rep.where(g), "the watch is changed", st.path())
    # The descriptor the watches belong to.
    opens = list({t.key: t for g in p.funcs.values() if calls(g, "inotify_init1") or calls(g, "inotify_init")
                  for t in p.tops(g)}.values())
    rep.require(opens and all(g.record == impl for g in opens), "the descriptor is opened elsewhere")
    fd = None
    for g in opens:
        rule, I, outs = run(p, rep, g)
        for st, kind, v in outs:
            e = [x for x in rule.evs(st, "sys") if x[1] in ("inotify_init1", "inotify_init")]
            rep.check("reading does not block", g.name, bool(e) and e[0][1] == "inotify_init1" and const_bits(st, e[0][2], 0o4000), rep.where(g),
                      "the descriptor is opened in blocking mode: reading all notifications never ends", st.path())
            for L, x in st.store.items():
                if e and L[0] == "f" and L[1] == THIS and x in (e[0][3], st.const(e[0][3])):
                    fd = fd or (L[2] if x == e[0][3] else fd)
    rep.require(fd, "the member holding the descriptor was not found")
    fdv = ("s", "init", ("f", THIS, fd))
    paths = ("f", THIS, p.paths)
    for g in dtors(p, rep, impl):
        rule = RegRule(p)
        I = Interp(p, rule)
        outs = I.run_entry(g)
        rep.absorb(I)
        for st, kind, v in outs:
            e = [x for x in rule.evs(st, "sys") if x[1] == "close"]
            if st.truth(mk_eq(fdv, MINUS)) is not True:
                rep.check("the descriptor is closed once", g.name, len(e) == 1 and e[0][2][0] == fdv, rep.where(g), f"closed {len(e)} times, or another one", st.path())
            evs = list(st.get("ev", ()))
            for x in e:
                before = [y for y in evs[:evs.index(x)] if y[0] in ("cont", "set")]
                last = None
                for y in before:
                    if y[0] == "cont" and y[2] == paths:
                        last = y[1] == "clear"
                    elif y[0] == "set" and y[1] == paths and y[2] == ("emptyc",):
                        last = True
                rep.check("watches go before their descriptor", g.name, bool(last), x[4], "the descriptor is closed while paths may still be watched", st.path())
    closers = [g for g in p.funcs.values() if p.home(g).record == impl and calls(g, "close")]
    for g in closers:
        rep.check("the descriptor is closed by the destructor only", g.name, {t.name for t in p.tops(g)} == {"<dtor>"}, rep.where(g), "it is closed elsewhere")


def const_bits(st, args, bits):
    v = st.const(args[0]) if args else None
    return v is not None and v[0] == "c" and v[1] & bits == bits


def dtors(p, rep, record):
    ds = [g for g in p.funcs.values() if g.record == record and g.name == "<dtor>"]
    rep.require(ds, f"{record} has no destructor")
    return ds


RULES = {"P01": P01, "P02": P02}
