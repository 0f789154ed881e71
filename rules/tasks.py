"""Task runners and the worker pool (T01-T07)."""
from .common import *

RUNNER = "fly::task::TaskRunner"
SEQ = "fly::task::SequencedTaskRunner"
PAR = "fly::task::ParallelTaskRunner"
POOL = "fly::task::TaskManager"
TASK_T = "std::function<void (fly::task::TaskRunner *"


def has_task(f_or_decl):
    ps = f_or_decl.params if hasattr(f_or_decl, "params") else f_or_decl.get("params", [])
    return any(TASK_T in (q["t"] if isinstance(q, dict) else q) for q in ps)


def has_delay(f):
    return any("std::chrono::duration" in q["t"] for q in f.params)


def task_index(f):
    for i, q in enumerate(f.params):
        if TASK_T in q["t"]:
            return i
    return None


def handover(p):
    """The pool's entry points for a task: {key: parameter index of the task}, immediate and delayed."""
    now, later = {}, {}
    for f in p.funcs.values():
        if f.record == POOL and has_task(f):
            (later if has_delay(f) else now)[f.key] = task_index(f)
    return now, later


def virtuals(p):
    """The runner's virtual posting and completion functions (keys of the base declarations)."""
    post, done = set(), set()
    for k, d in p.decls.items():
        if d.get("record") == RUNNER and d.get("virtual") and not d["q"].endswith("<dtor>"):
            (post if has_task(d) else done).add(k)
    if not post or not done:
        raise AnalysisBroken("the runner's virtual posting/completion functions were not found")
    return post, done


def with_overriders(p, keys):
    out = set(keys)
    for k in keys:
        out |= set(p.all_overriders(k))
    return out


class SeqRule(Trace):
    """One call of a sequenced runner's entry: hand-overs, queue operations, flag accesses."""

    def __init__(self, p, queue, flag):
        self.p, self.queue, self.flag = p, ("f", THIS, queue), ("f", THIS, flag)
        self.hand, self.later = handover(p)
        self.last = {}

    def held(self, st):
        return tuple(m for m, k in st.held if k == "x" and m[0] == "f" and m[1] == THIS)

    def where(self, fr, n):
        return fr.f.loc(n)

    def acc(self, st, fr, n, what):
        self.ev(st, "acc", what, self.held(st), st.get("cs", 0), self.where(fr, n))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if key in self.hand:
            i = self.hand[key]
            r = [a for a in args if a[0] == "weak" or (a[0] == "&" and a[1] == THIS)]
            self.acc(st, fr, n, "hand-over")
            t = content(I, st, args[i])
            self.ev(st, "hand", t, r[0] if r else None, self.where(fr, n))
            if args[i][0] == "&":
                I.moved_from(st, fr, n, args[i][1], "std::function<>")
            return [(st, ("void",))]
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "std::weak_ptr::lock" and POOL in fr.f.nodes[n].get("t", ""):
            st.set("mgr", val)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj == self.queue:
            self.acc(st, fr, n, name)
            if name in ("pop", "pop_front", "pop_back", "erase", "clear"):
                self.ev(st, "pop", ("front", v), st.truth(("op", "empty", v)), name, self.where(fr, n))
            elif name in ("push", "push_back", "emplace", "emplace_back", "push_front", "emplace_front", "insert"):
                self.ev(st, "push", tuple(content(I, st, a) for a in c.args), name, self.where(fr, n))

    def on_read(self, I, st, fr, n, loc, val):
        if loc == self.flag:
            self.acc(st, fr, n, "read in-flight flag")

    def on_write(self, I, st, fr, n, loc, val):
        if loc == self.flag:
            self.acc(st, fr, n, "write in-flight flag")

    def on_lock(self, I, st, fr, n, loc, kind):
        if loc[0] == "f" and loc[1] == THIS:
            st.set("cs", st.get("cs", 0) + 1)


def T01(p, rep, thorough):
    rep.explanation = (
        "Path-sensitive dataflow over the sequenced runner's two entries (post, completion), started from an arbitrary "
        "state of the pending queue and the in-flight flag. On every path: all accesses to the queue, the flag and the "
        "hand-over to the pool lie in one critical section of one mutex; a hand-over from a post happens only with the "
        "flag known clear; it hands the queue's oldest task unless the queue is known empty; the posted task is handed "
        "over or pushed at the back exactly once, or refused; the flag left behind equals whether a task is in flight; "
        "the result equals acceptance; a completion hands over the oldest waiting task when there is one.")
    rep.assumptions += ["std::mutex, std::queue and std::weak_ptr behave as specified",
                        "a completion is reported only for the task in flight (T02)"]
    post, done = virtuals(p)
    recs = fields_of(p, SEQ, lambda f: "PendingTask" in f["t"] or "std::queue" in f["t"] or "std::deque" in f["t"]
                     or "std::list" in f["t"])
    flags = fields_of(p, SEQ, lambda f: strip_type(f["t"]) in ("bool", "std::atomic<bool>", "std::atomic_bool"), False)
    rep.require(len(recs) == 1 and len(flags) == 1,
                f"expected one pending queue and one in-flight flag, found {recs} and {flags}")
    queue, flag = recs[0][1], flags[0][1]
    entries = overrides_of(p, RUNNER, SEQ)
    posts = [f for o, f in entries if o in post]
    comps = [f for o, f in entries if o in done]
    rep.require(len(posts) == 1 and len(comps) >= 1, "the sequenced runner's entries were not found")
    analysed = set()
    for f in posts + comps:
        is_post = f in posts
        rule = SeqRule(p, queue, flag)
        I = Interp(p, rule)
        st = None
        ti = task_index(f)
        init = ("s", "init", ("r", "param", ti)) if is_post else None
        from engine.interp import State
        st = State()
        if is_post:
            st.assume(mk_eq(init, ZERO), False)
        outs = I.run_entry(f, st=st)
        rep.absorb(I)
        analysed |= set(I.stats["functions"])
        rep.count("entry paths", len(outs))
        rep.require(outs, f"no path through {f.q}")
        what = "post" if is_post else "completion"
        for st, kind, val in outs:
            seq_path(p, rep, I, rule, f, st, kind, val, is_post, init, what)
    # Nobody else touches the queue or the flag.
    for g in p.funcs.values():
        for n, nd in enumerate(g.nodes):
            if nd["k"] == "MemberExpr" and nd.get("mr") == SEQ and nd.get("m") in (queue, flag):
                ok = g.key in analysed or g.name in ("<ctor>", "<dtor>")
                rep.check("state confined to the two entries", g.q, ok, rep.where(g, n),
                          "the queue or the in-flight flag is used outside the analysed entries")
    # The parallel runner posts straight to the pool.
    for o, f in overrides_of(p, RUNNER, PAR):
        if o in post:
            rule = SeqRule(p, "#none", "#none")
            I = Interp(p, rule)
            ti = task_index(f)
            for st, kind, val in I.run_entry(f):
                hands = rule.evs(st, "hand")
                mgr = st.get("mgr")
                gone = mgr is not None and st.truth(to_bool(mgr)) is False
                ok = (len(hands) == 1 and hands[0][1] == ("s", "init", ("r", "param", ti)) and st.const(val) == ONE) or \
                    (not hands and gone and st.const(val) == ZERO)
                rep.check("a parallel runner hands over every task at once", f.q, ok, rep.where(f),
                          "the task is not handed over exactly once with a matching result", st.path())
            rep.absorb(I)


def seq_path(p, rep, I, rule, f, st, kind, val, is_post, init, what):
    acc = rule.evs(st, "acc")
    hands, pops, pushes = rule.evs(st, "hand"), rule.evs(st, "pop"), rule.evs(st, "push")
    flag0 = ("s", "init", rule.flag)
    queue0 = ("s", "init", rule.queue)
    f0 = st.truth(to_bool(flag0))
    e0 = st.truth(("op", "empty", queue0))
    mgr = st.get("mgr")
    gone = mgr is not None and st.truth(to_bool(mgr)) is False
    path = st.path()
    inst = lambda s: f"{what}: {s}"
    where = rep.where(f)
    if kind == "throw":
        return
    # One critical section around everything.
    common = None
    for a in acc:
        common = set(a[2]) if common is None else common & set(a[2])
    rep.check("decision is atomic", inst("every access and hand-over under one mutex"), not acc or bool(common), where,
              "accesses outside the lock: " + ", ".join(f"{a[1]} at {a[4]}" for a in acc if not a[2]), path)
    rep.check("decision is atomic", inst("one critical section"), len({a[3] for a in acc}) <= 1, where,
              "the lock is released between the decision and its effects", path)
    rep.check("one at a time", inst("at most one hand-over"), len(hands) <= 1, where,
              f"{len(hands)} tasks handed over by one call", path)
    if is_post and hands:
        rep.check("one at a time", inst("hand-over only when nothing is in flight"), f0 is False, where,
                  f"handed over at {hands[0][3]} without knowing the in-flight flag to be clear", path)
    front = ("el", rule.queue, ("front", queue0))
    for h in hands:
        rep.check("handed to the pool for this runner", inst("hand-over names this runner"),
                  h[2] in (("weak", ("&", THIS)), ("&", THIS)), where, f"handed over for {h[2]}", path)
        from_front = front in set(subterms(h[1], set()) or ()) or repr(front) in repr(h[1])
        if from_front:
            rep.check("oldest first", inst("the handed-over waiting task is removed"),
                      len(pops) == 1 and pops[0][3] in ("pop", "pop_front", "erase"), where,
                      "the waiting task is handed over but not removed exactly once", path)
            rep.check("oldest first", inst("front of a non-empty queue"), e0 is False, where,
                      "the front is taken without knowing the queue to be non-empty", path)
        elif is_post and h[1] == init:
            rep.check("oldest first", inst("new task only past an empty queue"), e0 is True, where,
                      "the new task is handed over while older tasks may be waiting", path)
        else:
            rep.bad("oldest first", inst("what is handed over"), where, f"handed over: {h[1]}", path)
    if pops and not hands:
        rep.check("nothing lost", inst("a removed task is handed over"), gone, where,
                  "a waiting task is removed but not handed over", path)
    for q in pops:
        rep.check("nothing lost", inst("remove from a non-empty queue"), q[2] is False, where,
                  "removal from a queue not known to be non-empty", path)
        rep.check("nothing lost", inst("remove one oldest"), q[3] in ("pop", "pop_front", "erase"), where, q[3], path)
    rep.check("nothing lost", inst("at most one removal"), len(pops) <= 1, where, f"{len(pops)} removals", path)
    fin = I.read(st, rule.flag)
    ft = st.truth(to_bool(fin))
    if is_post:
        mine = [h for h in hands if h[1] == init]
        queued = [q for q in pushes if repr(init) in repr(q[1])]
        for q in pushes:
            rep.check("oldest first", inst("waiting tasks are added at the back"),
                      q[2] in ("push", "push_back", "emplace", "emplace_back"), where, f"added by {q[2]}", path)
            rep.check("nothing lost", inst("only the posted task is queued"), q in queued, where, str(q[1]), path)
        rep.check("nothing lost", inst("the posted task is placed at most once"), len(mine) + len(queued) <= 1, where,
                  "the posted task is both handed over and queued, or queued twice", path)
        r = st.truth(to_bool(val))
        placed = bool(mine or queued)
        rep.check("result is faithful", inst("success exactly when accepted"), r is placed, where,
                  f"returns {val} although the task was {'accepted' if placed else 'not accepted'}", path)
        if not placed:
            rep.check("nothing lost", inst("refused only without a pool"), gone, where,
                      "the task is refused although the pool is alive", path)
        if f0 is False and not hands:
            rep.check("nothing waits for nothing", inst("idle runner hands over"), gone, where,
                      "nothing is in flight, yet nothing is handed over", path)
        if f0 is None and not hands:
            rep.bad("nothing waits for nothing", inst("in-flight flag consulted"), where,
                    "a task is queued without consulting the in-flight flag", path)
        want = True if hands else (f0 if f0 is not None else None)
        if f0 is True and not hands:
            want = True
        rep.check("flag says what is in flight", inst("flag after the call"), ft is want, where,
                  f"the flag is {fin} although a task is {'' if want else 'not '}in flight", path)
    else:
        if e0 is False and not hands:
            rep.check("nothing waits for nothing", inst("completion starts the next task"), gone, where,
                      "tasks are waiting, but none is handed over", path)
        if e0 is None:
            rep.check("nothing waits for nothing", inst("completion looks at the queue"), bool(hands) or gone, where,
                      "the queue is not consulted", path)
        want = bool(hands)
        rep.check("flag says what is in flight", inst("flag after the call"), ft is want, where,
                  f"the flag is {fin} although a task is {'' if want else 'not '}in flight", path)


# ---- T02: worker ----------------------------------------------------------------------------------
def thread_functions(p):
    """Functions the pool runs on threads of its own: arguments of std::async / std::thread."""
    out = {}
    for f in p.funcs.values():
        if not (p.home(f).record or "").startswith(POOL):
            continue
        for n, nd in enumerate(f.nodes):
            q = p.funcs[nd["f"]].q if nd.get("f") in p.funcs else p.decls.get(nd.get("f"), {}).get("q", "")
            if q in ("std::async", "std::thread::<ctor>", "std::jthread::<ctor>"):
                stack = list(nd.get("args", []))
                while stack:
                    a = stack.pop()
                    x = f.nodes[a]
                    if x.get("f") in p.funcs and x["k"] in ("DeclRefExpr", "MemberExpr", "UnaryOperator"):
                        out.setdefault(x["f"], []).append((f, n))
                    if x.get("lambda"):
                        for op in [g.key for g in p.funcs.values() if g.record == x["lambda"]]:
                            for m, cn in p.funcs[op].calls():
                                k = cn.get("f")
                                if k in p.funcs and p.home(p.funcs[k]).record == POOL:
                                    out.setdefault(k, []).append((f, n))
                    stack += list(x.get("c", [])) + list(x.get("args", []))
    return out


def is_worker(p, key, queue_pop=True):
    """A thread function that (transitively) pops tasks."""
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in seen or k not in p.funcs:
            continue
        seen.add(k)
        f = p.funcs[k]
        for n, nd in f.calls():
            q = p.decls.get(nd.get("f"), {}).get("q", "")
            if q.startswith("std::queue::pop") or q.startswith("std::deque::pop"):
                return True
            for t in p.targets(nd):
                if "fly/types/concurrency" in p.funcs[t].file or p.home(p.funcs[t]).record == POOL:
                    todo.append(t)
    return False


class WorkerRule(Rule):
    def __init__(self, p, rep, f):
        self.p, self.rep, self.f = p, rep, f
        post, done = virtuals(p)
        self.done = with_overriders(p, done)
        self.post = with_overriders(p, post)

    def taken_container(self, obj):
        r = root(obj)
        return r == THIS and "TaskHolder" in self.elem_type(obj)

    def elem_type(self, obj):
        return self.types.get(obj, "")

    types = {}

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if name in ("pop", "pop_front") and obj is not None and root(obj) == THIS:
            self.end(I, st, fr.f.loc(n))
            st.set("el", ("el", obj, ("front", v)))
            st.set("phase", "taken")
            st.set("chk", None)
            st.set("loads", ())
            st.set("run", None)

    def end(self, I, st, where):
        """The previous task's handling is over."""
        ph = st.get("phase")
        path = st.path()
        if ph is None:
            return
        run = st.get("run")
        if ph == "taken":
            dead = run is not None and st.truth(to_bool(run)) is False
            stopped = any(st.truth(to_bool(c)) is False for c in st.get("loads", ()))
            self.rep.check("every taken task is run", "worker", dead or stopped, self.rep.where(self.f),
                           "a task is taken and then dropped although its runner is alive and the pool is running", path)
        elif ph == "invoked":
            self.rep.bad("completion is reported", "worker", self.rep.where(self.f),
                         "a task was run, but its runner is not told that it is complete", path)
        st.set("phase", None)

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if key in self.done:
            ph = st.get("phase")
            self.rep.check("completion is reported", "after the task, once", ph == "invoked", fr.f.loc(n),
                           {"taken": "completion is reported before the task has run", None:
                            "completion is reported although no task has run",
                            "completed": "completion is reported twice"}.get(ph, str(ph)), st.path())
            run = st.get("run")
            self.rep.check("completion is reported", "to the runner of the task",
                           run is not None and obj == I.deref(run), fr.f.loc(n), f"reported to {obj}", st.path())
            st.set("phase", "completed")
            self.seen_done = True
            return [(st, ("void",))]
        return None

    seen_done = seen_inv = False

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "std::weak_ptr::lock":
            el = st.get("el")
            if el is not None and repr(el) in repr(val):
                st.set("run", val)
        if q.endswith("::load") or q.startswith("std::atomic::operator") or q.startswith("std::__atomic_base::operator"):
            st.set("chk", val)
            old = st.get("loads", ())
            if val not in old and len(old) < 4:
                st.set("loads", old + (val,))

    def on_invoke(self, I, st, fr, n, fval, args):
        ph, el = st.get("phase"), st.get("el")
        if el is None or repr(el) not in repr(fval):
            if "TaskRunner" in fr.f.file or "task" in fr.f.file:
                self.rep.bad("every taken task is run", "what is run", fr.f.loc(n), f"runs {fval}, not the taken task",
                             st.path())
            return [(st, ("void",))]
        self.seen_inv = True
        self.rep.check("every taken task is run", "at most once", ph == "taken", fr.f.loc(n),
                       "the task is run a second time", st.path())
        run = st.get("run")
        alive = run is not None and st.truth(to_bool(run)) is True
        self.rep.check("runner is alive while its task runs", "strong reference held", alive, fr.f.loc(n),
                       "the task is run without a reference to its runner", st.path())
        if args:
            a = content(I, st, args[0])
            loc = a[1] if a[0] == "&" else (I.deref(a))
            # a call of the function object itself hands over the pointer, std::invoke a reference to it
            given = [loc, I.deref(a), args[0][1] if args[0][0] == "&" else I.deref(args[0])]
            self.rep.check("task gets its own runner", "first argument", run is not None and I.deref(run) in given,
                           fr.f.loc(n), f"given {a}", st.path())
        chk = st.get("chk")
        self.rep.check("no task starts after stop", "pool state re-read after the task was taken",
                       chk is not None and st.truth(to_bool(chk)) is True, fr.f.loc(n),
                       "the task is started without re-reading that the pool is running", st.path())
        st.set("phase", "invoked")
        return [(st, ("void",))]


def run_worker(p, rep):
    tf = thread_functions(p)
    workers = [k for k in tf if is_worker(p, k)]
    rep.require(workers, "no worker thread function was found")
    for k in workers:
        f = p.funcs[k]
        rule = WorkerRule(p, rep, f)
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        rep.require(rule.seen_inv or rep.violations, f"no task invocation reached from {f.q}")
        if rule.seen_inv:
            rep.check("completion is reported", "worker", rule.seen_done, rep.where(f),
                      "no completion is ever reported")
        for st, kind, val in outs:
            rule.end(I, st, "")
            if kind != "throw":
                chk = st.get("chk")
                rep.check("worker runs until stopped", f.q, chk is not None and st.truth(to_bool(chk)) is False,
                          rep.where(f), "a worker ends although the pool was not stopped", st.path())
        # Nothing in the worker waits without a bound.
        for key in I.stats["functions"]:
            g = p.funcs.get(key)
            for n, cn in (g.calls() if g else ()):
                q = p.decls.get(cn.get("f"), {}).get("q", "")
                if q.startswith("std::condition_variable") and q.endswith("::wait"):
                    rep.bad("worker runs until stopped", f"unbounded wait in {g.q}", rep.where(g, n),
                            "a worker waits without a time limit, so stopping the pool can hang")
    return tf, workers


def only(rep, rules):
    """Keeps the obligations of the named rules."""
    rep.obligations = [o for o in rep.obligations if o[0] in rules]
    rep.violations = [v for v in rep.violations if v["rule"] in rules]


def T02(p, rep, thorough):
    rep.explanation = (
        "Typestate of one taken task (taken, invoked, completed) over every path of the worker thread function, through "
        "the runner's execution and completion functions: taken tasks are dropped only when their runner is gone or the "
        "pool was stopped; the callable invoked is the one taken, given its own runner, which is held strongly; each "
        "invocation is followed by exactly one completion report to that runner before the next task is taken.")
    rep.assumptions += ["the task returns normally", "std::weak_ptr::lock and std::atomic behave as specified"]
    run_worker(p, rep)
    only(rep, {"every taken task is run", "completion is reported", "runner is alive while its task runs",
               "task gets its own runner"})


# ---- T06: start/stop ------------------------------------------------------------------------------
class StartStop(Trace):
    def __init__(self, futures):
        self.futures = futures

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q.startswith("std::atomic") and ("compare_exchange" in q or q.endswith("exchange")):
            self.ev(st, "rmw", q.rsplit("::", 1)[1], obj, val, tuple(content(I, st, a) for a in args))
        elif q in ("std::async", "std::thread::<ctor>", "std::jthread::<ctor>"):
            self.ev(st, "spawn", val, fr.f.loc(n))
            st.set("sp", min(3, st.get("sp", 0) + 1))
            st.set("open", min(3, st.get("open", 0) + 1))
        elif q.startswith("std::future::") or q.startswith("std::__basic_future::") or q.startswith("std::thread::"):
            m = q.rsplit("::", 1)[1]
            if m in ("get", "wait", "join"):
                st.set("visit", None)
                self.joins = True
            elif m == "valid" or m == "joinable":
                st.set("valid", val)
            elif m == "detach":
                self.ev(st, "detach", fr.f.loc(n))

    joins = False

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj is not None and obj[0] == "f" and obj[2] == self.futures and name in (
                "push_back", "emplace_back", "insert", "emplace"):
            st.set("open", max(0, st.get("open", 0) - 1))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q.endswith("::operator*") and "iterator" in q and "std::future" in nd.get("t", "") + str(nd):
            self.close(I, st, fr.f.loc(n))
            st.set("visit", fr.f.loc(n))
            st.set("valid", None)
        return None

    def close(self, I, st, where):
        if st.get("visit"):
            v = st.get("valid")
            if not (v is not None and st.truth(to_bool(v)) is False):
                self.missed = (st.get("visit"), st.path())
        st.set("visit", None)

    missed = None


def T06(p, rep, thorough):
    rep.explanation = (
        "Dataflow over the pool's start, stop and worker functions: state changes are made by one atomic "
        "read-modify-write whose success guards spawning and joining; every spawned thread's future is stored with the "
        "pool and every stored valid future is waited for before stop reports success; the worker re-reads the running "
        "flag between taking a task and invoking it, never waits unboundedly, and ends only when the flag is clear.")
    rep.assumptions += ["std::async(std::launch::async) starts a thread, std::future::get waits for its end"]
    tf, workers = run_worker(p, rep)
    only(rep, {"no task starts after stop", "worker runs until stopped"})
    futs = fields_of(p, POOL, lambda f: "std::future<" in f["t"] or "std::thread" in f["t"])
    rep.require(len(futs) == 1, f"expected one field holding the pool's threads, found {futs}")
    futures = futs[0][1]
    start, stop = p.q(POOL + "::start"), p.q(POOL + "::stop")
    rep.require(len(start) == 1 and len(stop) == 1, "start/stop of the pool were not found")
    spawned = set()
    for f, name in ((start[0], "start"), (stop[0], "stop")):
        rule = StartStop(futures)
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        oks = 0
        for st, kind, val in outs:
            rule.close(I, st, "")
            r = st.truth(to_bool(val)) if kind == "ret" else None
            rmw = rule.evs(st, "rmw")
            won = [e for e in rmw if (e[1] != "exchange" and st.truth(to_bool(e[3])) is True) or
                   (e[1] == "exchange" and st.truth(to_bool(e[3])) is (name == "stop"))]
            if r is True:
                oks += 1
                rep.check("one winner", f"{name} succeeds only by an atomic transition", bool(won), rep.where(f),
                          "reports success without having changed the state atomically", st.path())
            elif r is False:
                rep.check("one winner", f"{name} fails only when it lost", not won, rep.where(f),
                          "changed the state but reports failure", st.path())
            if name == "start":
                if st.get("sp"):
                    rep.check("one winner", "threads are started by the winner only", bool(won), rep.where(f),
                              "threads are started without winning the transition", st.path())
                rep.check("threads are kept for joining", "every started thread", not st.get("open"), rep.where(f),
                          "a started thread is not stored with the pool", st.path())
            rep.check("threads are kept for joining", f"{name}: no thread is detached", not rule.evs(st, "detach"),
                      rep.where(f), "a thread is detached", st.path())
        rep.check("one winner", f"{name} can succeed", oks > 0, rep.where(f), "no path reports success")
        if name == "stop":
            rep.check("stop joins every thread", "every valid future is waited for", rule.missed is None and rule.joins,
                      rep.where(f), "a thread is not waited for" if not rule.missed else
                      f"the thread visited at {rule.missed[0]} is not waited for", rule.missed[1] if rule.missed else None)
        # Expected and desired constants of the transition.
        for st, kind, val in outs:
            for e in rule.evs(st, "rmw"):
                a = e[4]
                if "compare_exchange" in e[1] and len(a) >= 2:
                    rep.check("one winner", f"{name}: transition", a[1] == (ONE if name == "start" else ZERO), rep.where(f),
                              f"changes the state to {a[1]}")
    # Spawned with the async policy and a strong reference to the pool.
    n = 0
    for k, sites in tf.items():
        for f, site in sites:
            n += 1
            nd = f.nodes[site]
            args = [f.nodes[a] for a in nd.get("args", [])]
            txt = " ".join(str(a.get("t", "")) for a in args)
            cvs = [a.get("cv") for a in args]
            q = p.decls.get(nd.get("f"), {}).get("q", "")
            short = p.funcs[k].q
            if q == "std::async":
                rep.check("threads run at once", short, 1 in cvs[:1] or any(
                    f.nodes[x].get("cv") == 1 for x in nd.get("args", [])[:1]), rep.where(f, site),
                    "std::async is not asked for a thread of its own")
            rep.check("threads keep the pool alive", short, "std::shared_ptr<fly::task::TaskManager>" in txt or
                      "shared_ptr" in txt or any(a.get("lambda") for a in args), rep.where(f, site),
                      "the thread does not hold a strong reference to the pool")
    rep.require(n >= 2, f"only {n} thread starts found")


# ---- T05: timer -----------------------------------------------------------------------------------
class TimerRule(Rule):
    def __init__(self, p, rep, f):
        self.p, self.rep, self.f = p, rep, f
        post, _ = virtuals(p)
        self.post = with_overriders(p, post)
        self.hand, self.later = handover(p)
        self.handed = self.erased = 0

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q.startswith("std::chrono::") and q.endswith("_clock::now"):
            steady = "steady_clock" in q
            return [(st, I.fresh(st, fr, n, "now" if steady else "wall"))]
        if key in self.post or key in self.hand:
            self.handed += 1
            i = task_index(self.p.funcs[key]) if key in self.p.funcs else len(args) - 1
            t = content(I, st, args[i])
            direct = key in self.hand
            self.rep.check("through the runner", "hand-over of a due task", not direct, fr.f.loc(n),
                           "the due task bypasses its runner", st.path())
            # Which element?
            el = elem_in(t)
            self.rep.check("due tasks only", "the element handed over", el is not None, fr.f.loc(n),
                           f"hands over {t}", st.path())
            if el is not None:
                due = is_due(st, el)
                self.rep.check("due tasks only", "steady clock has reached the schedule", due, fr.f.loc(n),
                               "a task is handed over without knowing that its time has come", st.path())
                run = st.get("run")
                self.rep.check("dropped only without a runner", "hand-over to the live runner",
                               direct or (run is not None and repr(el) in repr(run) and obj == I.deref(run)
                                          and st.truth(to_bool(run)) is True), fr.f.loc(n),
                               f"handed to {obj}", st.path())
                self.rep.check("at most once", "hand-over", st.get("done") != el, fr.f.loc(n),
                               "the same task is handed over twice", st.path())
                st.set("done", el)
            return [(st, I.fresh(st, fr, n, "posted"))]
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "std::weak_ptr::lock":
            st.set("run", val)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj is None or root(obj) != THIS:
            return
        if name in ("pop_back", "pop_front", "pop", "clear", "resize", "swap"):
            self.rep.bad("forgotten once handled", f"removal by {name}", fr.f.loc(n),
                         "delayed tasks are removed other than one by one", st.path())
        if name == "erase":
            self.erased += 1
            el = elem_in(c.val(0)) or elem_of_it(c.val(0))
            run = st.get("run")
            d = st.get("done")
            mine = el is not None and d == el
            dead = run is not None and el is not None and repr(el) in repr(run) and \
                st.truth(to_bool(run)) is False and is_due(st, el)
            self.rep.check("dropped only without a runner", "removal", mine or dead, fr.f.loc(n),
                           "a task is removed that was not handed over although its runner may be alive", st.path())
            st.set("done", None)
            st.set("run", None)

    def on_step(self, I, st, fr, n, *a):
        pass


def elem_of_it(v):
    from engine.models import elem_of, iter_base
    if iter_base(v) is not None:
        return elem_of(v)
    return None


def elem_in(v, depth=0):
    """The container element a value was read from."""
    if not isinstance(v, tuple):
        return None
    if v and v[0] == "el":
        return v
    for x in v:
        if isinstance(x, tuple):
            r = elem_in(x, depth + 1)
            if r is not None:
                return r
    return None


def is_due(st, el):
    """Known: schedule of el <= a steady-clock reading."""
    for k, v in st.facts.items():
        if k[0] == "op" and k[1] == "<" and len(k) == 4:
            a, b = k[2], k[3]
            if v is False and is_now(a) and repr(el) in repr(b):
                return True
            if v is True and repr(el) in repr(a) and is_now(b):
                return True
    return False


def is_now(v):
    return v[0] == "s" and v[-1] == "now"


def T05(p, rep, thorough):
    rep.explanation = (
        "Dataflow over the timer thread function and the delayed posting path: the stored schedule is a steady-clock "
        "reading plus the delay asked for; an element is handed over only with the fact 'schedule <= steady now' for "
        "that element established on the path, through the virtual posting function of its own live runner, at most once, "
        "and is removed exactly when handed over or when its runner is gone.")
    rep.assumptions += ["std::chrono::steady_clock is monotonic"]
    tf = thread_functions(p)
    timers = [k for k in tf if not is_worker(p, k)]
    rep.require(timers, "no timer thread function was found")
    for k in timers:
        f = p.funcs[k]
        rule = TimerRule(p, rep, f)
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        rep.check("due tasks are handed over", "timer", rule.handed > 0, rep.where(f), "no task is ever handed over")
        rep.check("forgotten once handled", "timer", rule.erased > 0, rep.where(f), "handled tasks are never removed")
        # The element handed over is removed before the next iteration: no path ends the pass with it still stored.
        for st, kind, val in outs:
            rep.check("forgotten once handled", "removed after hand-over", st.get("done") is None, rep.where(f),
                      "a task stays stored after it was handed over", st.path())
    _, later = handover(p)
    rep.require(later, "the pool's delayed entry was not found")
    for k, ti in later.items():
        f = p.funcs[k]
        di = [i for i, q in enumerate(f.params) if "duration" in q["t"]][0]
        res = []

        class R(Trace):
            def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
                if q.startswith("std::chrono::") and q.endswith("_clock::now"):
                    return [(st, I.fresh(st, fr, n, "now" if "steady" in q else "wall"))]

            def on_container(self, I, st, fr, n, obj, name, c, v):
                if obj is not None and root(obj) == THIS and name in ("push_back", "emplace_back", "push", "emplace", "insert"):
                    self.ev(st, "store", tuple(content(I, st, a) for a in c.args), fr.f.loc(n), st.held)
        rule = R()
        I = Interp(p, rule)
        delay = ("s", "init", ("r", "param", di)) if f.params[di]["t"].endswith("&") else None
        args = None
        for st, kind, val in I.run_entry(f):
            ev = rule.evs(st, "store")
            rep.check("stored with its schedule", "every delayed post is stored once", len(ev) == 1 or kind == "throw",
                      rep.where(f), f"stored {len(ev)} times", st.path())
            for e in ev:
                ok = stored_schedule(e[1], di)
                rep.check("stored with its schedule", "steady now + delay", ok, e[2],
                          f"the stored schedule is not 'steady now + delay': {e[1]}", st.path())
                rep.check("stored with its schedule", "the posted task", repr(("r", "param", ti)) in repr(e[1]) or
                          repr(("s", "param", ti)) [:-1] in repr(e[1]), e[2], "another task is stored", st.path())
        rep.absorb(I)


def stored_schedule(vals, di):
    found = []

    def walk(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "op" and len(v) == 4 and v[1] == "+":
            found.append(v)
        for x in v:
            walk(x)
    for v in vals:
        walk(v)

    def is_delay(x):
        while x[0] == "op" and x[1] in ("make", "cast"):
            x = x[-1]
        return x[:3] == ("s", "param", di) or x == ("s", "init", ("r", "param", di))
    return any((is_now(v[2]) and is_delay(v[3])) or (is_now(v[3]) and is_delay(v[2])) for v in found)


# ---- T03/T04/T07: posted closures -----------------------------------------------------------------
class PostRule(Trace):
    """Intercepts hand-over to the runner: the closure is captured, not run."""

    def __init__(self, p):
        self.p = p
        post, _ = virtuals(p)
        self.post = with_overriders(p, post)
        self.hand, self.later = handover(p)

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if key in self.post or key in self.hand or key in self.later:
            f = self.p.funcs.get(key)
            i = task_index(f) if f else len(args) - 1
            delayed = key in self.later
            target = obj
            if key in self.hand or key in self.later:
                w = [a for j, a in enumerate(args) if j != i and a[0] in ("weak", "&")]
                target = None
                for a in w:
                    if a[0] == "weak" and a[1][0] == "&":
                        target = a[1][1]
            self.ev(st, "post", unwrap(content(I, st, args[i])), target, delayed, fr.f.loc(n))
            return [(st, ("s", "accepted"))]
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "std::weak_ptr::lock":
            self.ev(st, "lock", val, fr.f.loc(n))

    def on_invoke(self, I, st, fr, n, fval, args):
        self.ev(st, "call", fval, tuple(content(I, st, a) for a in args), fr.f.loc(n))
        return [(st, ("s", "result", repr(fval)))]


STUB = "verif_stub::entry_"


def closures(p, rep):
    """Every posting overload, run up to the hand-over; then its closure, run as the worker would."""
    out = []
    entries = [f for f in p.match(STUB + "*") if "api_tasks" in f.file]
    rep.require(len(entries) >= 15, "the posting overloads could not be instantiated")
    for f in sorted(entries, key=lambda f: f.q):
        rule = PostRule(p)
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        out.append((f, rule, I, outs))
    return out


def run_closure(p, I, st, lam):
    ops = I.lambda_ops(lam[1])
    if len(ops) != 1:
        raise AnalysisBroken(f"closure {lam[1]} has no single body")
    s = st.copy()
    s.set("ev", ())
    return I.run_function(s, p.funcs[ops[0]], None, [("&", ("r", "runner")), ("s", "loc")], None, None,
                          caps=I.lambda_caps(lam))


def entry_values(f):
    """The abstract values of the stub's runner, owner, task and reply parameters."""
    r = {}
    for i, q in enumerate(f.params):
        ref = q["t"].endswith("&")
        v = ("s", "init", ("r", "param", i)) if ref else ("s", "param", i)
        r[q["v"].split("#")[0]] = v
    return r


def same(v, want):
    """v is the parameter value `want` (symbols carry the frame id at the end)."""
    if v is None:
        return False
    if v[:len(want)] == want:
        return True
    # Held by reference: the callable is what the reference denotes.
    return repr(want) in repr(v) or repr(want)[:-1] + "," in repr(v)


def first_level(p, rep):
    for f, rule, I, outs in closures(p, rep):
        for st, kind, val in outs:
            posts = rule.evs(st, "post")
            yield f, rule, I, st, kind, val, posts


def T03(p, rep, thorough):
    rep.explanation = (
        "Each owner-bound posting overload is followed to the hand-over, and the closure it builds is analysed as the "
        "worker runs it: the closure stores the owner weakly only; the callable runs only on the path where locking that "
        "weak owner succeeded, gets the locked reference, and runs nothing otherwise; a reply is bound to the same weak "
        "owner.")
    closure_rules(p, rep, {"owner"})


def T04(p, rep, thorough):
    rep.explanation = (
        "Each posting overload with a reply is followed to the hand-over, its closure analysed as the worker runs it, and "
        "the reply's own closure analysed in turn: the reply is posted exactly once, after the task was invoked, to the "
        "runner given to the closure; the reply receives the value the task returned; no reply is posted when the task "
        "is skipped.")
    closure_rules(p, rep, {"reply"})


def closure_rules(p, rep, want):
    rep.assumptions += ["std::bind, std::invoke and std::function behave as specified"]
    n = 0
    for f, rule, I, st, kind, val, posts in first_level(p, rep):
        name = f.q[len(STUB):]
        owned, reply = "owned" in name, "reply" in name
        if ("owner" in want and not owned) or ("reply" in want and not reply):
            continue
        V = entry_values(f)
        where = rep.where(f)
        path = st.path()
        first = posts[:1]
        r = st.truth(to_bool(val)) if kind == "ret" else None
        gone = any(st.truth(to_bool(x[1])) is False for x in rule.evs(st, "lock"))
        rep.check("posted", f"{name}: handed to its runner once", len(posts) == 1 or (not posts and gone and r is False),
                  where, f"{len(posts)} closures handed over, result {val}", path)
        for e in first:
            lam = e[1]
            if lam[0] != "lam":
                rep.bad("posted", f"{name}: a closure", where, f"hands over {lam}", path)
                continue
            n += 1
            site = e[4]
            if "owner" in want:
                strong = [c for c in lam[2] if has_lock(c[2])]
                rep.check("owner is held weakly", name, not strong and "shared_ptr<verif_stub::Owner>" not in
                          capture_types(p, lam[1]), site, "the stored closure holds a strong reference to the owner", path)
            rep.check("delay is honoured", name, e[3] == name.startswith("delay"), site,
                      "delayed and immediate posting are mixed up", path)
            for s2, k2, v2 in run_closure(p, I, st, lam):
                ev = rule.evs(s2)
                calls = [x for x in ev if x[0] == "call"]
                tasks = [x for x in calls if same(x[1], V["task"])]
                locks = [x for x in ev if x[0] == "lock"]
                reps = [x for x in ev if x[0] == "post"]
                p2 = s2.path()
                live = None
                if owned:
                    mine = [x for x in locks if same(x[1], V["owner"])]
                    live = mine and s2.truth(to_bool(mine[0][1]))
                    if "owner" in want:
                        rep.check("owner is locked when the task starts", name, bool(mine), site,
                                  "the owner is never locked", p2)
                        if tasks:
                            a = tasks[0][2]
                            got = a[-1] if a else None
                            ok = bool(mine) and live is True and got is not None and same(got, V["owner"]) and has_lock(got)
                            rep.check("runs only with a live owner", name, ok, tasks[0][3],
                                      f"the task is run with {got}, locked: {live}", p2)
                        else:
                            rep.check("runs only with a live owner", name + ": skipped", live is False, site,
                                      "the task is skipped although its owner is alive", p2)
                skip = owned and live is False
                rep.check("task runs once", name, len(tasks) == (0 if skip else 1), site,
                          f"the task is run {len(tasks)} times", p2)
                others = [x for x in calls if x not in tasks]
                rep.check("reply is posted, not run", name, not others, site,
                          "something other than the task is run by the task's closure", p2)
                if not reply:
                    rep.check("no stray posts", name, not reps, site, "an unexpected task is posted", p2)
                    continue
                rep.check("one reply per task run", name, len(reps) == (0 if skip else 1), site,
                          f"{len(reps)} replies posted", p2)
                for r in reps:
                    order = ev.index(r) > max([ev.index(x) for x in tasks] or [10 ** 6])
                    rep.check("reply after task", name, order, r[4], "the reply is posted before the task has run", p2)
                    rep.check("reply on the same runner", name, r[2] == ("r", "runner"), r[4], f"posted to {r[2]}", p2)
                    rep.check("reply at once", name, not r[3], r[4], "the reply is delayed", p2)
                    if r[1][0] != "lam":
                        rep.bad("reply runs", name, r[4], f"posted: {r[1]}", p2)
                        continue
                    pass
                    for s3, k3, v3 in run_closure(p, I, s2, r[1]):
                        ev3 = rule.evs(s3)
                        rc = [x for x in ev3 if x[0] == "call"]
                        l3 = [x for x in ev3 if x[0] == "lock" and owned and same(x[1], V["owner"])]
                        gone = owned and l3 and s3.truth(to_bool(l3[-1][1])) is False
                        p3 = s3.path()
                        if owned and "owner" in want:
                            rep.check("reply is bound to the same owner", name, bool(l3) and
                                      "shared_ptr<verif_stub::Owner>" not in capture_types(p, r[1][1]), r[4],
                                      "the reply is not bound weakly to the task's owner", p3)
                        rep.check("reply runs", name, len(rc) == (0 if gone else 1) and
                                  all(same(x[1], V["reply"]) for x in rc), r[4],
                                  f"{[x[1] for x in rc]} run", p3)
                        for x in rc:
                            a = x[2]
                            if "result" in name or "lvalue" in name:
                                ok = bool(a) and a[0][:2] == ("s", "result") and tasks and \
                                    a[0] == ("s", "result", repr(tasks[0][1]))
                                rep.check("reply gets the result", name, ok, r[4], f"given {a}", p3)
                            if owned:
                                rep.check("reply gets the owner", name, bool(a) and has_lock(a[-1]), r[4], f"given {a}", p3)
    rep.require(n >= 6, f"only {n} closures analysed")


def has_lock(v):
    if not isinstance(v, tuple):
        return False
    if len(v) > 1 and v[0] == "op" and v[1] == "lock":
        return True
    return any(has_lock(x) for x in v if isinstance(x, tuple))


def capture_types(p, rec, seen=None):
    """All field types a closure stores, through the library's own classes."""
    seen = seen if seen is not None else set()
    if rec in seen:
        return ""
    seen.add(rec)
    r = p.records.get(rec) or {}
    out = []
    for fl in r.get("fields", []):
        t = fl["t"]
        out.append(t)
        out.append(capture_types(p, strip_type(t), seen))
    for c in r.get("caps", []) or []:
        t = c.get("t", "") if isinstance(c, dict) else str(c)
        out.append(t)
        out.append(capture_types(p, strip_type(t), seen))
    return " ; ".join(out)


def stored_refs(p, rec, seen=None, path=()):
    """References and raw pointers among what a closure stores (through the library's own classes)."""
    seen = seen if seen is not None else set()
    if rec in seen:
        return []
    seen.add(rec)
    r = p.records.get(rec) or {}
    out = []
    items = [(fl["n"], fl["t"]) for fl in r.get("fields", [])]
    for n, t in items:
        if t.rstrip().endswith(("&", "*")):
            out.append(".".join(path + (n,)) + " : " + t)
        out += stored_refs(p, strip_type(t), seen, path + (n,))
    return out


def T07(p, rep, thorough):
    rep.explanation = (
        "Type-level ownership of posted closures: for every posting overload, instantiated with temporaries and with named "
        "callables, the closure handed to the pool (and the closure of its reply) stores no reference and no raw pointer, "
        "through every library class it stores.")
    n = 0
    for f, rule, I, st, kind, val, posts in first_level(p, rep):
        name = f.q[len(STUB):]
        for i, q in enumerate(f.params):
            if q["t"].endswith("&") and kind == "ret":
                v = I.freeze(st, ("r", "param", i))
                rep.check("named callables are left alone", f"{name}: {q['v'].split('#')[0]}",
                          v == ("s", "init", ("r", "param", i)), rep.where(f),
                          f"the caller's object is modified or moved from: {v}", st.path())
        for e in posts:
            if e[1][0] != "lam":
                rep.bad("closure owns what it uses", name, e[4], f"hands over {e[1]}", st.path())
                continue
            n += 1
            refs = stored_refs(p, e[1][1])
            caps = [c for c in e[1][2] if c[1] == "ref"]
            rep.check("closure owns what it uses", name, not refs and not caps, e[4],
                      "the stored closure refers to the caller's objects: " + ", ".join(refs or [c[0] for c in caps]),
                      st.path())
            for s2, k2, v2 in run_closure(p, I, st, e[1]):
                for r in rule.evs(s2, "post"):
                    if r[1][0] == "lam":
                        refs = stored_refs(p, r[1][1])
                        rep.check("closure owns what it uses", name + ": reply", not refs, r[4],
                                  "the reply's closure refers to the task's objects: " + ", ".join(refs), s2.path())
    rep.require(n >= 15, f"only {n} closures analysed")


RULES = {"T01": T01, "T02": T02, "T03": T03, "T04": T04, "T05": T05, "T06": T06, "T07": T07}
