"""Locking discipline over the whole library (K01, K02) and the concurrent containers (K03)."""
import pickle
from .common import *

# The state that several threads share, by owner and type (public class, what the field holds).
GUARDED = [
    ("fly::config::Config", "fly::Json", "configuration values"),
    ("fly::config::ConfigManager", "std::map<", "registered configurations"),
    ("fly::config::ConfigManager", "fly::Json", "values last read"),
    ("fly::path::PathMonitor", "std::map<", "watched paths"),
    ("fly::task::SequencedTaskRunner", "std::queue<|std::deque<|std::list<", "waiting tasks"),
    ("fly::task::SequencedTaskRunner", "bool", "in-flight flag"),
    ("fly::logger::detail::Registry", "std::map<|std::unordered_map<", "logger registry"),
    ("fly::task::TaskManager", "TaskHolder", "delayed tasks"),
    ("fly::detail::ConcurrentContainer", "std::queue<|std::stack<|std::deque<", "container items"),
]
MODULES = ("/fly/task/", "/fly/config/", "/fly/path/", "/fly/logger/", "/fly/net/", "/fly/system/",
           "/fly/types/concurrency/")


class Summary:
    """What a function may do through any callee: mutexes it may lock, unknown callables it may run, waits."""

    def __init__(self, p):
        self.p = p
        self.direct = {}
        self.memo = {}

    def facts(self, key):
        d = self.direct.get(key)
        if d is None:
            f = self.p.funcs[key]
            locks, calls, waits, out = set(), [], [], set()
            for i, nd in enumerate(f.nodes):
                if nd["k"] == "MemberExpr" and is_mutex(nd.get("t", "")):
                    mr = nd.get("mr", "")
                    locks.add((mr.split("<")[0] + "::" + nd["m"]))
                lam = nd.get("lambda")
                if isinstance(lam, str):
                    pass
            for i, nd in f.calls():
                q = self.p.decl_q(nd.get("f")) if nd.get("f") else ""
                if q in ("std::invoke", "std::apply") and nd.get("args"):
                    t = f.nodes[nd["args"][0]].get("t", "")
                    if "std::function<" in t and "lambda@" not in t.split("std::function<")[0]:
                        calls.append(f.loc(i))
                elif q == "std::function::operator()":
                    calls.append(f.loc(i))
                if q in BLOCKING:
                    waits.append((q, f.loc(i)))
                out |= set(self.p.targets(nd))
            d = self.direct[key] = (locks, calls, waits, out)
        return d

    def of(self, key):
        r = self.memo.get(key)
        if r is None:
            seen, work = {key}, [key]
            locks, calls, waits = {}, [], []
            while work:
                k = work.pop()
                if k not in self.p.funcs:
                    continue
                l, c, w, out = self.facts(k)
                for m in l:
                    locks.setdefault(m, self.p.funcs[k].q)
                calls += [(x, self.p.funcs[k].q) for x in c]
                waits += w
                for o in out:
                    if o not in seen:
                        seen.add(o)
                        work.append(o)
            r = self.memo[key] = (locks, calls, waits)
        return r


BLOCKING = ("std::future::get", "std::future::wait", "std::__basic_future::wait", "std::thread::join",
            "std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable::wait_until",
            "std::condition_variable_any::wait", "std::condition_variable_any::wait_for",
            "std::condition_variable_any::wait_until", "std::this_thread::sleep_for", "std::this_thread::sleep_until")


class LockRule(Rule):
    quiet_files = ("fly/types/string/", "fly/types/json/", "fly/types/numeric/", "fly/assert/", "fly/coders/",
                   "fly/parser/")
    max_depth = 8

    def __init__(self, p, shared):
        self.p = p
        self.shared = shared            # {(record, field)}
        self.acc = {}                   # (record, field) -> list
        self.edges = {}                 # (mutexA, mutexB) -> (where, path)
        self.again = []                 # re-acquisition
        self.calls = []                 # unknown callables run under a lock
        self.waits = []                 # blocking under a lock
        self.rec = {}
        self.locs = {}
        self.summary = Summary(p)
        self.escapes = []
        self.split = []                 # acted in one critical section on what was read in an earlier one
        self.atomic = {}
        self.kin = {}

    def family(self, rec):
        """A class with what encloses it (lambdas and nested classes share its state)."""
        return rec.split("::lambda@")[0]

    def inline(self, key, fr):
        """Functions of the same class, of its bases and derived classes, of the same file, and their lambdas."""
        f, g = self.p.funcs[key], fr.f
        k = (key, g.key)
        r = self.kin.get(k)
        if r is None:
            r = f.file == g.file or f.is_lambda
            g = self.p.home(g)
            if not r and f.record and g.record:
                r = self.p.is_derived(f.record, g.record) or self.p.is_derived(g.record, f.record)
            self.kin[k] = r
        return r

    def held_call(self, I, st, fr, n, nd, key):
        for k in self.p.targets(nd):
            if self.inline(k, fr) and not self.quiet(k, I) and fr.stack().count(k) < 1 and fr.depth < self.max_depth:
                continue
            locks, calls, waits = self.summary.of(k)
            hs = tuple(self.mutex_id(m) for m, kd in st.held)
            for m, via in locks.items():
                for h in hs:
                    if m == h:
                        self.again.append((m, fr.f.loc(n) + f" through {via}", st.path(), fr.f.q))
                    else:
                        self.edges.setdefault((h, m), (fr.f.loc(n) + f" through {via}", st.path()))
            for w, via in calls:
                self.calls.append((hs, fr.f.loc(n) + f" through {via} ({w})", st.path(), fr.f.q))
            for w, loc in waits:
                self.waits.append((w, hs, loc, st.path(), fr.f.q))

    def mutex_id(self, loc):
        f = loc[2] if loc[0] == "f" else str(loc)
        r = self.rec.get(loc)
        return f"{r}::{f}" if r else f

    def base_rec(self, mr):
        i = mr.find("<")
        return mr[:i] if i > 0 else mr

    def on_field(self, I, st, fr, n, loc, nd):
        if loc[0] != "f":
            return
        mr = self.base_rec(nd.get("mr", ""))
        if is_mutex(nd.get("t", "")):
            self.rec[loc] = mr
            return
        k = (mr, nd.get("m"))
        if k in self.shared:
            self.locs[loc] = k
            self.note(st, fr, n, loc, k, "use")

    def note(self, st, fr, n, loc, k, kind):
        b = loc[1]
        # Under construction or destruction by this thread, or made here and not published.
        r = root(b)
        if r is not None and r[0] in ("v", "t", "h"):
            return
        x = fr
        while x is not None:
            if x.f.name in ("<ctor>", "<dtor>") and x.this == b and self.p.is_derived(x.f.record or "", x.f.record or ""):
                return
            x = x.parent
        held = frozenset((m[2], kd) for m, kd in st.held if m[0] == "f" and m[1] == b)
        top = fr
        while top.parent is not None:
            top = top.parent
        if top.f.key in self.public and b == top.this and held:
            first = st.get(("sec", k))
            now = st.get("cs", 0)
            if first is None:
                st.set(("sec", k), now)
                first = now
            if kind == "write":
                self.atomic[(k, top.f.q)] = top.f.loc()
                if first != now:
                    self.split.append((k, fr.f.loc(n), st.path(), top.f.q))
        L = self.acc.setdefault(k, {})
        key = (fr.f.key, n, kind)
        old = L.get(key)
        if old is None or not held >= old[0]:
            L[key] = (held if old is None else old[0] & held, fr.f.loc(n), st.path(), fr.f.q)

    def on_write(self, I, st, fr, n, loc, val):
        x = loc
        while x and x[0] in ("f", "el"):
            if x[0] == "f":
                k = self.fieldkey(x)
                if k is not None:
                    self.note(st, fr, n, x, k, "write")
                    return
            x = x[1]

    def fieldkey(self, loc):
        return self.locs.get(loc)

    def on_lock(self, I, st, fr, n, loc, kind):
        st.set("cs", min(st.get("cs", 0) + 1, 3))
        for m, kd in st.held:
            if m == loc:
                if not (kd == "s" and kind == "s" and False):
                    self.again.append((self.mutex_id(loc), fr.f.loc(n), st.path(), fr.f.q))
            else:
                e = (self.mutex_id(m), self.mutex_id(loc))
                self.edges.setdefault(e, (fr.f.loc(n), st.path()))
        self.locked = getattr(self, "locked", {})
        self.locked.setdefault(self.mutex_id(loc), set()).add(fr.f.loc(n))

    def on_invoke(self, I, st, fr, n, fval, args):
        if st.held:
            self.calls.append((tuple(self.mutex_id(m) for m, k in st.held), fr.f.loc(n), st.path(), fr.f.q))
        return None

    def on_return(self, I, st, fr, val):
        if fr.parent is None and fr.f.ret.endswith("&") and val is not None and val[0] == "&":
            x = val[1]
            while x and x[0] in ("f", "el"):
                if x[0] == "f" and self.fieldkey(x) and root(x)[0] == "r":
                    self.escapes.append((self.fieldkey(x), fr.f.loc(0), st.path(), fr.f.q))
                    return
                x = x[1]

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if st.held and key:
            self.held_call(I, st, fr, n, nd, key)
        if obj is not None and key in self.p.funcs and not key.rstrip().endswith("const") and \
                not self.p.decls.get(key, {}).get("static"):
            self.on_write(I, st, fr, n, obj, None)
        if st.held and (q in ("std::future::get", "std::future::wait", "std::__basic_future::wait", "std::thread::join")
                        or q == "std::this_thread::sleep_for"):
            self.waits.append((q, tuple(self.mutex_id(m) for m, k in st.held), fr.f.loc(n), st.path(), fr.f.q))
        return None

    def on_wait(self, I, st, fr, n, cv, lockloc, mutex, pred):
        others = [m for m, k in st.held if m not in (mutex if isinstance(mutex, (list, tuple)) and mutex and
                                                     isinstance(mutex[0], tuple) else (mutex,))]
        if others:
            self.waits.append(("wait", tuple(self.mutex_id(m) for m in others), fr.f.loc(n), st.path(), fr.f.q))


def shared_fields(p):
    """(record, field) -> description; records that vary by template argument are folded together."""
    out, found = {}, {}
    for name, r in p.records.items():
        if not r.get("file", "").startswith(p_repo(p)) or "::lambda@" in name:
            continue
        base = name[:name.find("<")] if "<" in name else name
        for rec, tys, what in GUARDED:
            if base == rec:
                for fl in r["fields"]:
                    if any(t in fl["t"] for t in tys.split("|")) and not is_mutex(fl["t"]) and \
                            "ConcurrentQueue" not in fl["t"] and "condition_variable" not in fl["t"]:
                        if what == "in-flight flag" and strip_type(fl["t"]) != "bool":
                            continue
                        out[(base, fl["n"])] = what
                        found.setdefault((rec, what), set()).add(fl["n"])
    return out, found


def p_repo(p):
    from engine.load import REPO
    return REPO


_memo = {}


def whole_run(p, rep):
    """Runs every function of the concurrent modules once; shared by K01 and K02."""
    if "run" in _memo:
        return _memo["run"]
    shared, found = shared_fields(p)
    rule = LockRule(p, shared)
    funcs = [f for f in p.funcs.values() if any(m in f.file for m in MODULES) and not f.d.get("defaulted")]
    access = {}
    for rn, r in p.records.items():
        for m in r.get("methods", []):
            access[m["f"]] = m["access"]
    done = set()
    called = {k for k in p.callers()}
    stats = []

    rule.public = {f.key for f in funcs if not f.is_lambda and access.get(f.key, "public") == "public" and
                   f.name not in ("<ctor>", "<dtor>")}

    def go(f):
        I = Interp(p, rule)
        rule.locs, rule.rec = {}, {}
        try:
            outs = I.run_entry(f)
        except Limit as e:
            raise Limit(f"{e} (entry {f.q} {rep.where(f)})")
        rep.absorb(I)
        done.update(I.stats["functions"])
        for st, kind, val in outs:
            if st.held and f.name not in ("lock", "unlock"):
                rule.waits.append(("leaks", tuple(rule.mutex_id(m) for m, k in st.held), rep.where(f), st.path(), f.q))
    first = [f for f in funcs if not f.is_lambda and (access.get(f.key, "public") == "public" or
                                                       p.decls.get(f.key, {}).get("virtual") and "pop_internal" not in f.q
                                                       and "push_internal" not in f.q or f.key not in called)]
    for f in sorted(first, key=lambda f: f.key):
        go(f)
    # Whatever was not reached from there runs on its own (posted closures, thread functions).
    # A closure that some function calls itself is reached with that function.
    for f in sorted([f for f in funcs if f.is_lambda], key=lambda f: (f.key in called, f.line, f.key)):
        if f.key not in done:
            go(f)
    for f in sorted(funcs, key=lambda f: f.key):
        if f.key not in done:
            go(f)
    _memo["run"] = (rule, shared, found, len(funcs))
    return _memo["run"]


def K01(p, rep, thorough):
    rep.explanation = (
        "Lockset analysis: every function of the concurrent modules (and every posted closure and thread function) is run "
        "abstractly, tracking the locks held on the object accessed; for each shared field, all accesses outside "
        "construction and destruction must hold one common lock of the same object, and writes must hold it exclusively.")
    rep.assumptions += ["objects under construction or destruction, and objects made but not yet published, are private"]
    rule, shared, found, nf = whole_run(p, rep)
    rep.count("functions of the concurrent modules", nf)
    for rec, tys, what in GUARDED:
        rep.require((rec, what) in found, f"no field of {rec} holds the {what}")
    for k in sorted(shared):
        acc = rule.acc.get(k, {})
        rep.require(acc, f"no access to the {shared[k]} ({k[0]}::{k[1]}) was seen")
        # The guard: the lock held at most accesses.
        tally = {}
        for (fk, n, kind), (held, loc, path, q) in acc.items():
            for m, kd in held:
                tally[m] = tally.get(m, 0) + 1
        guard = max(tally, key=lambda m: (tally[m], m)) if tally else None
        inst = f"{shared[k]} ({k[0].split('::')[-1]})"
        rep.check("one guard", inst, guard is not None, "", f"no lock is held at any of {len(acc)} accesses")
        for (fk, n, kind), (held, loc, path, q) in sorted(acc.items(), key=lambda x: x[1][1]):
            have = {m: kd for m, kd in held}
            ok = guard in have
            rep.check("accessed under its guard", f"{inst} in {q}", ok, loc,
                      f"{kind} of the {shared[k]} without holding {guard}", path)
            if kind == "write" and ok:
                rep.check("written under an exclusive lock", f"{inst} in {q}", have[guard] == "x" or
                          (guard, "x") in held, loc, "written while only a shared lock is held", path)
            rep.count("accesses checked")
    for (k, q), loc in sorted(rule.atomic.items()):
        bad = [x for x in rule.split if x[0] == k and x[3] == q]
        rep.check("one critical section per operation", f"{shared[k]} in {q}", not bad, bad[0][1] if bad else loc,
                  f"modified under a lock taken anew after it was examined under an earlier one: another thread may have "
                  f"changed it in between", bad[0][2] if bad else None)
    for k in sorted(shared):
        e = [x for x in rule.escapes if x[0] == k]
        rep.check("no reference to it outlives the lock", f"{shared[k]} ({k[0].split('::')[-1]})", not e,
                  e[0][1] if e else "", f"{e[0][3]} returns a reference to it" if e else "", e[0][2] if e else None)


def K02(p, rep, thorough):
    rep.explanation = (
        "Lock-order analysis on the same run: the relation 'acquired while holding' over all mutexes of the library is "
        "collected along every path through all callees and must be acyclic; no held mutex is acquired again; every lock is "
        "released on every path; no lock is held while an unknown callable runs or while waiting for another thread.")
    rep.assumptions += ["mutexes are identified by class and field, so two objects of one class count as one mutex"]
    rule, shared, found, nf = whole_run(p, rep)
    mutexes = sorted(getattr(rule, "locked", {}))
    rep.require(len(mutexes) >= 6, f"only {len(mutexes)} mutexes seen: {mutexes}")
    for m in mutexes:
        a = [x for x in rule.again if x[0] == m]
        rep.check("not acquired again by its holder", m, not a, a[0][1] if a else "",
                  "acquired while already held by the same thread", a[0][2] if a else None)
        l = [x for x in rule.waits if x[0] == "leaks" and m in x[1]]
        rep.check("released on every path", m, not l, l[0][2] if l else "", "still held when the function ends",
                  l[0][3] if l else None)
    graph = {}
    for (a, b), (where, path) in rule.edges.items():
        graph.setdefault(a, set()).add(b)
        rep.sample("acquired while holding", f"{a} -> {b} at {where}", 40)
    rep.count("lock-order edges", len(rule.edges))

    def reach(a, b, seen):
        if a == b:
            return True
        seen.add(a)
        return any(reach(x, b, seen) for x in graph.get(a, ()) if x not in seen)
    for (a, b), (where, path) in sorted(rule.edges.items()):
        rep.check("one order", f"{a} before {b}", a != b and not reach(b, a, set()), where,
                  f"{b} is acquired while holding {a}, and elsewhere the other way round", path)
    callers = {}
    for held, loc, path, q in rule.calls:
        callers.setdefault(q, (held, loc, path))
    for q, (held, loc, path) in sorted(callers.items()):
        cls = q.split("::lambda@")[0].rsplit("::", 1)[0].split("(")[0].split("<")[0]
        rep.bad("no callback under a lock", f"{cls} holding {' and '.join(sorted(set(held)))}", loc,
                f"{q} runs a user's callable while {', '.join(held)} is held", path)
    if not callers:
        rep.good("no callback under a lock", "every function of the concurrent modules")
    blk = [x for x in rule.waits if x[0] != "leaks"]
    for q, held, loc, path, fq in blk:
        rep.bad("no waiting under a lock", f"{q} in {fq}", loc, f"waits while {', '.join(held)} is held", path)
    if not blk:
        rep.good("no waiting under a lock", "every function of the concurrent modules")




CONT = "fly::detail::ConcurrentContainer"


class ContRule(Trace):
    """Item operations, notifications and waits of one call on a concurrent container."""

    def __init__(self, p, cont, rec):
        self.p, self.cont, self.rec = p, ("f", THIS, cont), rec

    def filter_targets(self, I, st, nd, key, obj, cands):
        if obj != THIS:
            return cands
        best = None
        for t in cands:
            r = self.p.funcs[t].record
            if self.p.is_derived(self.rec, r) and (best is None or self.p.is_derived(r, self.p.funcs[best].record)):
                best = t
        return [best] if best else []

    def held(self, st):
        return tuple(m for m, k in st.held if k == "x" and m[0] == "f" and m[1] == THIS)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj != self.cont:
            return
        known = "?"
        if v == ("emptyc",):
            known = "empty"
        else:
            t = st.truth(("op", "empty", v))
            known = {True: "empty", False: "some", None: "?"}[t]
        arg = None
        if c.args:
            a = c.args[0]
            arg = a[1] if a[0] == "&" else a
        self.ev(st, "item", name, known, bool(self.held(st)), fr.f.loc(n), arg, v)

    def on_write(self, I, st, fr, n, loc, val):
        if loc == ("r", "param", 0):
            self.ev(st, "out", val, fr.f.loc(n))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q.startswith("std::condition_variable") and q.rsplit("::", 1)[1] in ("notify_one", "notify_all"):
            self.ev(st, "notify", obj, fr.f.loc(n), bool(self.held(st)))
        return None

    def on_unlock(self, I, st, fr, n, loc):
        self.ev(st, "unlock")

    def on_wait(self, I, st, fr, n, cv, lockloc, mutex, pred):
        self.ev(st, "wait", cv, fr.f.loc(n))


def K03(p, rep, thorough):
    rep.explanation = (
        "Typestate on each public operation of the concurrent containers, for the queue and the stack, along every path "
        "through the virtual item operations: which item operations run, under which lock, in what known emptiness, what "
        "is notified and waited on, and what is returned.")
    recs = sorted(n for n, r in p.records.items() if "::lambda@" not in n and
                  any(str(b["n"] if isinstance(b, dict) else b).startswith(CONT + "<") for b in r.get("bases", [])))
    rep.require(any("Queue" in r for r in recs) and any("Stack" in r for r in recs), f"queue and stack not found: {recs}")
    for rec in recs:
        base = [b["n"] if isinstance(b, dict) else b for b in p.records[rec]["bases"]][0]
        conts = [fl["n"] for fl in p.records[base]["fields"] if "std::queue<" in fl["t"] or "std::stack<" in fl["t"]]
        rep.require(len(conts) == 1, f"no item container in {base}")
        short = rec.replace("fly::", "")
        ops = {}
        for f in p.funcs.values():
            if f.record in (base, rec) and f.name in ("push", "pop", "empty", "size") and not f.is_lambda:
                ops[f.key] = f
        rep.require({f.name for f in ops.values()} >= {"push", "pop"} | ({"empty", "size"} if "<int>" in rec else set()),
                    f"operations of {rec} not found")
        waits, notes = set(), set()
        for f in sorted(ops.values(), key=lambda f: f.key):
            rule = ContRule(p, conts[0], rec)
            I = Interp(p, rule)
            timed = f.name == "pop" and len(f.params) == 2
            nm = f"{short}::{f.name}" + (" with a time limit" if timed else "")
            outs = I.run_entry(f)
            rep.absorb(I)
            for st, kind, val in outs:
                if kind != "ret":
                    continue
                its = rule.evs(st, "item")
                ins = [e for e in its if e[1] in ("push", "emplace", "push_back")]
                rem = [e for e in its if e[1] in ("pop", "pop_front", "pop_back")]
                look = [e for e in its if e[1] in ("front", "top", "back")]
                outw = rule.evs(st, "out")
                w = rep.where(f)
                for e in its:
                    rep.check("under the container's lock", f"{nm}: {e[1]}", e[3], e[4], "without the container's lock", st.path())
                if f.name == "push":
                    rep.check("adds the item once", nm, len(ins) == 1 and not rem, w,
                              f"{len(ins)} insertions, {len(rem)} removals on a path", st.path())
                    ev = rule.evs(st)
                    i = max([k for k, e in enumerate(ev) if e[0] == "item" and e in ins], default=-1)
                    nt = [e for e in ev if e[0] == "notify"]
                    notes |= {e[1] for e in nt}
                    # A reader woken while the lock is held goes on only once it is released.
                    late = [e for k, e in enumerate(ev) if e[0] == "notify" and
                            (k > i or e[3] and not any(x[0] == "unlock" for x in ev[k:i]))]
                    rep.check("wakes a waiting reader", nm, nt and (late or i < 0), w, "a path adds an item and notifies nobody afterwards", st.path())
                    rep.check("adds what was given", nm, all(e[5] == ("r", "param", 0) for e in ins), w,
                              "something else than the argument is added", st.path())
                elif f.name == "pop":
                    waits |= {e[1] for e in rule.evs(st, "wait")}
                    for e in rem + look:
                        rep.check("takes only from a container known to hold an item", f"{nm}: {e[1]}", e[2] == "some", e[4],
                                  "the container may be empty here", st.path())
                    truth = None
                    if timed:
                        truth = [t for t in (True, False) if st.copy().assume(to_bool(val), t)]
                        rep.check("decides its result", nm, len(truth) == 1, w, f"the result {val} is not determined", st.path())
                        took = len(rem) == 1
                        rep.check("true exactly when an item was delivered", nm,
                                  truth == [took] and len(rem) <= 1 and bool(outw) == took, w,
                                  f"returns {truth}, having removed {len(rem)} items and written the result "
                                  f"{len(outw)} times", st.path())
                    else:
                        rep.check("delivers one item", nm, len(rem) == 1 and len(outw) >= 1, w,
                                  f"{len(rem)} removals, {len(outw)} writes of the result", st.path())
                    if rem:
                        ev = rule.evs(st)
                        a = [k for k, e in enumerate(ev) if e in look]
                        b = [k for k, e in enumerate(ev) if e in rem]
                        c = [k for k, e in enumerate(ev) if e[0] == "out"]
                        rep.check("the delivered item is the removed one", nm, a and b and a[-1] < b[0] and len(look) == 1 and
                                  c and a[-1] < c[-1], w, "the item is not read before it is removed", st.path())
                        if "Queue" in rec:
                            rep.check("first in, first out", nm, all(e[1] == "front" for e in look), w,
                                      f"takes {[e[1] for e in look]}", st.path())
                        else:
                            rep.check("last in, first out", nm, all(e[1] in ("top", "back") for e in look), w,
                                      f"takes {[e[1] for e in look]}", st.path())
                else:
                    names = [e[1] for e in its]
                    rep.check("reports the container", nm, (f.name == "empty" and ("empty" in names or "size" in names)) or
                              (f.name == "size" and "size" in names), w, f"it evaluates {names}", st.path())
        rep.check("readers wait on what writers notify", short, waits and waits <= notes, "",
                  f"waits on {waits}, notifies {notes}")


RULES = {"K01": K01, "K02": K02, "K03": K03}
