"""Periodic monitoring: it goes on, stops with its owner, and publishes only figures of complete samples (S01)."""
from engine.bounds import entails_le
from rules.common import *  # noqa
from rules.common import short_q as short

BASE = "fly::system::SystemMonitor"
PATHS = "fly::path::PathMonitor"
POST = ("fly::task::TaskRunner::post_task", "fly::task::TaskRunner::post_task_with_delay", "fly::task::TaskRunner::post_task_with_reply")
FAILS = ("sysinfo", "times", "getrusage", "clock_gettime", "statvfs")  # -1 on failure
SCANS = {"sscanf": 2, "fscanf": 2, "vsscanf": 2}


def last(q):
    return q.split("::")[-1]


class Sample(Trace):
    """Follows an update function: which figures are published of which samples."""
    numeric = True
    max_states = 4000

    def __init__(self, p, rep, f, atomics):
        self.p, self.rep, self.f, self.atomics = p, rep, f, atomics
        self.divided = self.published = self.diffs = 0
        self.need = set()       # atomic fields divided by
        self.stores = []        # (field, known not to be zero, where, path, what)

    def inline(self, key, fr):
        g = self.p.funcs.get(key)
        return g is not None and (g.record or g.q).startswith("fly::system::")

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        name = last(q)
        if name in SCANS and q in (name, "std::" + name):
            outs = args[SCANS[name]:]
            res = []
            for r in range(-1, len(outs) + 1):
                full = r == len(outs)
                s = st if full else st.copy()
                for i, a in enumerate(outs):
                    if i < r and a[0] == "&":
                        I.write(s, a[1], I.fresh(s, fr, n, ("all" if full else "part") + str(i)))
                s.set("partial", None if full else True)
                s.note("%s converts %d of %d values at %s" % (name, max(r, 0), len(outs), fr.f.loc(n)))
                res.append((s, ("c", r)))
            return res[-1:] + res[:-1]
        if name in FAILS and q == name:
            bad = st.copy()
            bad.note("%s fails at %s" % (name, fr.f.loc(n)))
            bad.set("failed", True)
            for i, a in enumerate(args):
                if a[0] == "&":
                    I.havoc(st, a[1], fr, n, i)
            if name != "times":
                return [(st, ZERO), (bad, ("c", -1))]
            ok = I.fresh(st, fr, n, name)
            st.assume(mk_eq(ok, ("c", -1)), False)
            return [(st, ok), (bad, ("c", -1))]
        return None

    def nonzero(self, st, v):
        while v[0] == "op" and v[1] in ("fcast", "cast") and len(v) >= 3:
            v = v[2]
        v = st.const(v)
        if v[0] == "c":
            return v[1] != 0
        if entails_le(st, ONE, v) or st.truth(mk_eq(v, ZERO)) is False:
            return True
        if v[0] == "op" and v[1] == "-" and len(v) == 4 and entails_le(st, v[3], v[2], -1):
            return True
        if v[0] == "op" and v[1] == "+" and len(v) == 4:
            return self.nonzero(st, v[2]) or self.nonzero(st, v[3])
        for sym, fld in st.get("loads") or ():
            if sym == v:
                self.need.add(fld)
                return True
        return False

    def at(self, fr, n):
        return "%s, line %d" % (short(fr.f.q), (fr.f.nodes[n].get("l") or fr.f.line) - fr.f.line)

    def on_arith(self, I, st, fr, n, op, a, b, nd):
        if op in ("/", "%"):
            self.divided += 1
            self.rep.check("nothing is divided by zero", self.at(fr, n), self.nonzero(st, b), fr.f.loc(n), "the divisor may be zero", st.path())
        if op == "-" and previous(b):
            self.diffs += 1
            self.rep.check("a difference of samples never wraps", self.at(fr, n), entails_le(st, b, a), fr.f.loc(n),
                           "the counter may have gone backwards", st.path())
            cur = st.get("pairs") or ()
            if (b[2], a) not in cur and len(cur) < 12:
                st.set("pairs", cur + ((b[2], a),))

    def on_read(self, I, st, fr, n, loc, val):
        if loc is not None and loc[0] == "f" and loc[2] in self.atomics and val[0] == "s":
            cur = tuple(x for x in (st.get("loads") or ()) if x[0] != val)
            st.set("loads", (cur + ((val, loc[2]),))[-8:])

    def on_write(self, I, st, fr, n, loc, new):
        if loc is None or loc[0] != "f" or root(loc) != THIS:
            return
        what = "%s: %s" % (short(self.f.q), loc[2])
        why = ""
        tags = [str(x[3]) for x in symbols(new) if x[0] == "s" and len(x) > 3]
        if st.get("failed"):
            why = "written although the system call failed"
        elif any(t.startswith("part") for t in tags):
            why = "written from an incomplete scan"
        elif st.get("partial") and not any(t.startswith("all") for t in tags):
            why = "written although the scan was incomplete"
        self.rep.check("only complete samples count", what, not why, fr.f.loc(n), why, st.path())
        if loc[2] in self.atomics:
            self.published += 1
            self.stores.append((loc[2], self.nonzero(st, new), fr.f.loc(n), st.path(), what))


def previous(v):
    """The earlier sample: a field of the monitor as the function found it."""
    return v[0] == "s" and v[1] == "init" and v[2][0] == "f" and root(v[2]) == THIS


class Post(Trace):
    """Follows the function that posts the periodic task; `stop` are functions taken as posting it."""

    def __init__(self, p, f, atomics, stop=()):
        self.p, self.f, self.atomics, self.stop = p, f, atomics, stop

    def inline(self, key, fr):
        g = self.p.funcs.get(key)
        return g is not None and g.record == self.f.record and key not in self.stop

    def on_read(self, I, st, fr, n, loc, val):
        if loc is not None and loc[0] == "f" and loc[2] in self.atomics:
            st.set("loads", ((st.get("loads") or ()) + ((val, loc[2]),))[-8:])

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q in POST or key in self.stop:
            v = I.fresh(st, fr, n, "posted")
            self.ev(st, "post", v, tuple(content(I, st, a) for a in args), fr.f.loc(n))
            return [(st, v)]
        return None


class Getter(Trace):
    def __init__(self):
        self.read = set()

    def on_read(self, I, st, fr, n, loc, val):
        if loc is not None and loc[0] == "f" and root(loc) == THIS:
            while loc[1][0] == "f":
                loc = loc[1]
            self.read.add(loc[2])


def periodic(p):
    """[(function that posts, the task's operator(), its LambdaExpr)]: the task leads back to the function."""
    out = []
    for f in p.funcs.values():
        if not f.record or "::lambda@" in f.key or not any(plain_name(nd.get("f")) in POST for nd in f.nodes):
            continue
        for nd in f.nodes:
            if nd["k"] != "LambdaExpr":
                continue
            for g in p.funcs.values():
                if g.key.startswith(nd["lambda"] + "::operator()"):
                    calls = {x.get("f") for x in g.nodes}
                    near = [c for c in calls if c in p.funcs and p.funcs[c].record == f.record]
                    if f.key in calls or any(x.get("f") == f.key for c in near for x in p.funcs[c].nodes):
                        out.append((f, g, nd))
    return out


def plain_name(key):
    return (key or "").split("(")[0].split("<")[0]


def S01(p, rep, thorough):
    found = [x for x in periodic(p) if x[0].record in (BASE, PATHS)]
    rep.require({f.record for f, _g, _l in found} == {BASE, PATHS}, "the periodic tasks of the system and the path monitor")
    types = {x["n"]: x["t"] for x in p.records[BASE]["fields"]}
    atomics = {n for n, t in types.items() if "std::atomic" in t}
    for f, g, lam in found:
        task(p, rep, f, g, lam, atomics)
    figures(p, rep, found, atomics)
    rep.explanation = ("The periodic tasks are found as closures that lead back to the function that posts them; every path of the task, of the posting "
                       "function and of the start is followed. Every update function is followed with each system call failing and each scan converting "
                       "any number of its values; what is published, divided and subtracted is checked against the facts of the path.")
    rep.assumptions += ["the kernel's counts of total and free memory are consistent", "system calls and scanf report failures by their results, as specified"]


def task(p, rep, f, g, lam, atomics):
    name = short(f.q)
    strong = [c for c in lam.get("caps", ()) if c.get("v") is None or "shared_ptr" in (c.get("t") or "") or (c.get("t") or "").rstrip().endswith("*")]
    rep.check("the task never keeps its monitor alive", name, not strong, rep.where(f), "a strong or raw reference is captured")
    R = Post(p, f, atomics)
    I = Interp(p, R)
    for st, kind, val in I.run_entry(f):
        if kind != "ret":
            continue
        posts = R.evs(st, "post")
        rep.check("one run is posted at a time", name, len(posts) <= 1, rep.where(f), "several runs are posted", st.path())
        if posts:
            rep.check("the task is bound to a weak owner", name, any(weakly(a) for a in posts[0][2]), posts[0][3], "the posted task has no weak owner",
                      st.path())
        reports(rep, st, val, posts, f)
    rep.absorb(I)
    R = Post(p, f, atomics, {f.key})
    I = Interp(p, R)
    for st, kind, val in I.run_entry(g):
        if kind == "ret":
            n = len(R.evs(st, "post"))
            rep.check("every run posts the next one, once", name, n == 1, rep.where(g), "the task posts itself %d times" % n, st.path())
    rep.absorb(I)
    # A monitor is only handed out if its task was posted.
    starts = {h.key for h in p.funcs.values() if h.record == f.record and h.key != f.key and "::lambda@" not in h.key and h.ret == "bool"
              and any(x.get("f") == f.key for x in h.nodes)}
    makers = [h for h in p.funcs.values() if h.record == f.record and "shared_ptr" in h.ret and "::lambda@" not in h.key
              and any(x.get("f") in starts | {f.key} for x in h.nodes)]
    rep.require(makers, "the function that creates " + f.record)
    for h in [p.funcs[k] for k in sorted(starts)] + makers:
        stop = {f.key} if h.key in starts else starts | {f.key}
        R = Post(p, f, atomics, stop)
        I = Interp(p, R)
        for st, kind, val in I.run_entry(h):
            if kind == "ret":
                reports(rep, st, val, R.evs(st, "post"), h)
        rep.absorb(I)


def reports(rep, st, val, posts, f):
    """Success (true, or a monitor) is only reported if the task was posted."""
    R = "success means that the task was posted"
    v = st.const(val)
    none = v == ZERO or v[0] in ("none", "null") or st.truth(mk_eq(val, ZERO)) is True
    if posts:
        rep.check(R, short(f.q), none or val == posts[0][1] or st.truth(mk_eq(posts[0][1], ZERO)) is False, rep.where(f),
                  "success is reported although posting may have failed", st.path())
    else:
        rep.check(R, short(f.q) + ", not posted", none, rep.where(f), "success is reported although nothing was posted", st.path())


def weakly(v):
    return "weak" in repr(v)


def figures(p, rep, found, atomics):
    getters = [f for f in p.funcs.values() if f.record == BASE and not f.params and f.key.endswith("const") and f.name.startswith("get_")]
    rep.require(len(getters) >= 4, "the getters of the system monitor")
    for f in getters:
        R = Getter()
        I = Interp(p, R)
        I.run_entry(f)
        rep.check("figures are read atomically", short(f.q), bool(R.read) and R.read <= atomics, rep.where(f),
                  "reads %s, which the task writes" % ", ".join(sorted(R.read - atomics)))
        rep.absorb(I)
    impl = sorted((f for f in p.funcs.values() if f.record and BASE in bases_of(p, f.record) and not f.name.startswith(("~", "<")) and f.ret == "void"
                   and "::lambda@" not in f.key and f.name.startswith("update_")), key=lambda f: f.key)
    rep.require(len(impl) >= 4, "the implementation of the system monitor")
    need, stores, dividers = set(), [], set()
    for f in impl:
        R = Sample(p, rep, f, atomics)
        I = Interp(p, R)
        outs = I.run_entry(f)
        rep.absorb(I)
        need |= R.need
        stores += R.stores
        if R.divided:
            dividers.add(f.name)
        rep.count("divisions", R.divided)
        rep.count("differences of samples", R.diffs)
        rep.check("every update publishes a figure", short(f.q), R.published > 0, rep.where(f), "no path publishes anything")
        for st, kind, val in outs:
            for loc, cur in (st.get("pairs") or ()) if kind == "ret" else ():
                rep.check("a difference is taken to the previous sample", "%s: %s" % (short(f.q), loc[2]), I.read(st, loc) == cur, rep.where(f),
                          "the sample is not kept for the next difference", st.path())
    written = {x[0] for x in stores}
    for n in sorted(atomics):
        rep.check("every figure is published by some update", n, n in written, rep.where(impl[0]), "never written")
    for fld in sorted(need):
        for n, ok, where, path, what in stores:
            if n == fld:
                rep.check("a divisor is never published as zero", what, ok, where, "zero may be published", path)
        for f, g, lam in found:
            if f.record != BASE:
                continue
            R = Post(p, f, atomics)
            I = Interp(p, R)
            S = Sample(p, rep, f, ())
            for st, kind, val in I.run_entry(f):
                if R.evs(st, "post"):
                    rep.check("the task runs only with its divisors known", fld, any(x[1] == fld and S.nonzero(st, x[0]) for x in st.get("loads") or ()),
                              rep.where(f), "posted although the divisor may still be zero", st.path())
            for h in p.funcs.values():
                if h.record == BASE and h.key != g.key and not h.name.startswith("update_"):
                    calls = sorted({last(plain_name(x.get("f"))) for x in h.nodes} & dividers)
                    rep.check("the task runs only with its divisors known", short(h.q), not calls, rep.where(h), "calls %s itself" % calls)
    rep.count("figures", len(atomics))


def bases_of(p, rec):
    out, todo = set(), [rec]
    while todo:
        r = p.records.get(todo.pop())
        for b in (r or {}).get("bases", []):
            bn = b["n"] if isinstance(b, dict) else b
            if bn not in out:
                out.add(bn)
                todo.append(bn)
    return out


RULES = {"S01": S01}
