"""Logger: the registry (L01), the file sink (L02) and the way of a record to its sink (L03)."""
from rules.common import *  # noqa
from rules.path import flat, one_hold, found, key_of, only

REG = "fly::logger::detail::Registry"
LOGGER = "fly::logger::Logger"
SINK = "fly::logger::Sink"
LOG = "fly::logger::Log"
QUIET = ("fly/types/", "fly/assert/", "fly/coders/", "fly/parser/", "fly/system/", "fly/config/", "logger_config", "logger/styler",
         "logger/detail/styler")
DESTROYS = {"remove", "remove_all", "rename", "resize_file", "copy", "copy_file", "create_hard_link", "create_symlink"}


class LogRule(Trace):
    """Registry operations, stream operations and hand-overs of records."""
    quiet_files = QUIET
    LIMIT = 80
    stop_sink = False
    stop = ()

    def __init__(self, p):
        self.p = p

    # -- locks -------------------------------------------------------------------------------
    def on_lock(self, I, st, fr, n, loc, kind):
        st.set("hold", st.get("hold", 0) + 1)
        st.set("locked", 1)

    def on_unlock(self, I, st, fr, n, loc):
        st.set("locked", 0)

    def note(self, st):
        h = st.get("hold", 0) if st.get("locked", 0) else 0
        st.set("holds", st.get("holds", frozenset()) | {h})

    # -- the registry's map ------------------------------------------------------------------
    def is_map(self, loc):
        while loc[0] in ("f", "el"):
            if loc[0] == "f" and loc[2] == getattr(self.p, "registry_map", None):
                return True
            loc = loc[1]
        return False

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if self.is_map(obj):
            self.note(st)
            if name in ("erase", "clear", "insert", "emplace", "operator[]", "insert_or_assign", "try_emplace", "swap", "extract"):
                vals = tuple(c.val(i) for i in range(len(c.args)))
                self.ev(st, "cont", name, obj, vals, fr.f.loc(n))

    def on_found(self, I, st, fr, n, obj, key, it):
        if self.is_map(obj):
            self.note(st)
        self.ev(st, "find", obj, key, it, fr.f.loc(n))

    def on_write(self, I, st, fr, n, loc, val):
        if loc[0] in ("f", "el"):
            if self.is_map(loc) and loc[0] == "el":
                self.note(st)
            self.ev(st, "set", loc, val, fr.f.loc(n))

    def on_step(self, I, st, fr, n, loc, old, new, op):
        self.ev(st, "step", loc, old, new, op)

    def on_read(self, I, st, fr, n, loc, val):
        if loc == getattr(self, "flag", None):
            self.ev(st, "load", val)

    # -- calls -------------------------------------------------------------------------------
    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        w = fr.f.loc(n)
        nm = q.rsplit("::", 1)[-1]
        if q.startswith("std::filesystem::") and nm in DESTROYS and "path::" not in q:
            self.ev(st, "fs", nm, tuple(content(I, st, a) for a in args), w)
            return None
        if nm == "encode_file" and "coders" in q:
            v = to_bool(I.fresh(st, fr, n, "enc"))
            self.ev(st, "encode", tuple(content(I, st, a) for a in args), v, w)
            return [(st, v)]
        if q == "fly::string::format" or q.startswith("fly::string::format("):
            return [(st, ("op", "format") + tuple(content(I, st, a) for a in args))]
        if nm == "<ctor>" and "BasicFormatString" in q and args:
            return None
        if nm in ("operator<<", "write", "put") and (args or obj is not None):
            stream = obj if obj is not None else args[0]
            rest = args if obj is not None else args[1:]
            sl = stream if obj is not None else (stream[1] if stream[0] == "&" else None)
            if q.startswith("std::") and "stream" in str(I.p.decls.get(key, {}).get("ret", "basic_ostream")) and sl is not None:
                v = content(I, st, rest[0]) if rest else None
                if v is not None and v[0] == "fn":
                    self.ev(st, "flush", sl, v[1], w)
                else:
                    self.ev(st, "out", sl, v, w)
                return [(st, ("&", sl))]
        if obj is not None and q.startswith("std::basic_") and "stream" in q.split("::")[1] or q.startswith("std::basic_ios::"):
            if nm in ("good", "fail", "bad", "eof", "operator!", "operator bool", "is_open") and obj is not None:
                v = to_bool(I.fresh(st, fr, n, "st"))
                self.ev(st, "state", nm, v, obj, w)
                return [(st, v)]
            if nm == "close":
                self.ev(st, "close", obj, w)
                return [(st, ("void",))]
            if nm == "flush":
                self.ev(st, "flush", obj, "flush", w)
                return [(st, ("&", obj))]
            if nm == "open" or nm == "<ctor>" and args and "ofstream" in q:
                self.ev(st, "open", obj, content(I, st, args[0]), w)
                if nm == "open":
                    return [(st, ("void",))]
            if nm in ("clear", "setstate", "exceptions", "swap", "operator="):
                self.ev(st, "state-set", nm, obj, w)
        if self.stop_sink and nm == "stream" and self.is_sink_call(key):
            v = to_bool(I.fresh(st, fr, n, "acc"))
            self.ev(st, "sink", content(I, st, args[0]), v, w)
            return [(st, v)]
        if self.stop_sink and nm in ("post_task", "post_task_with_delay", "post_task_with_reply") and "TaskRunner" in q:
            v = to_bool(I.fresh(st, fr, n, "post"))
            self.ev(st, "post", nm, content(I, st, obj) if obj is not None and obj[0] == "&" else obj,
                    tuple(unwrap(content(I, st, a)) for a in args), w)
            return [(st, v)]
        if key in self.stop:
            v = I.fresh(st, fr, n, "res")
            f = I.p.decls.get(key, {})
            v = to_bool(v) if f.get("ret") == "bool" else v
            self.ev(st, "call", self.stop[key], tuple(content(I, st, a) for a in args), v, w, tuple(args) + ((obj,) if obj is not None else ()))
            return [(st, v)]
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q.rsplit("::", 1)[-1] in ("expired", "use_count") and "weak_ptr" in q and obj is not None:
            self.ev(st, "gone", q.rsplit("::", 1)[-1], obj, val)

    def is_sink_call(self, key):
        d = self.p.decls.get(key, {})
        return d.get("record") == SINK or any(self.p.decls.get(o, {}).get("record") == SINK for o in d.get("overrides", []))


def run(p, rep, f, st=None, numeric=False, **kw):
    rule = LogRule(p)
    rule.numeric = numeric
    for k, v in kw.items():
        setattr(rule, k, v)
    I = Interp(p, rule)
    outs = I.run_entry(f, None, None, st)
    rep.absorb(I)
    return rule, I, [(s, k, s.const(v) if v is not None else v) for s, k, v in outs]


def method(p, rep, record, name, nparams=None):
    fs = [f for f in p.funcs.values() if f.record == record and f.name == name and (nparams is None or len(f.params) == nparams)]
    rep.require(len(fs) >= 1, f"{record}::{name} was not found")
    return fs[0]


def field(p, rep, record, pred, what):
    return only(rep, [fl["n"] for fl in p.records.get(record, {}).get("fields", []) if pred(fl["t"])], what)


# ------------------------------------------------------------------------------------- registry
def L01(p, rep, thorough):
    rep.explanation = (
        "Path analysis of the registry's operations from an arbitrary map of names to loggers: what each outcome leaves in the map "
        "and returns, under one hold of the lock; and of the creation and destruction of a logger, which must use them.")
    rep.assumptions += ["std::map and std::weak_ptr behave as specified",
                        "the name given to the registry's own default logger is reserved: users do not create a logger of that name"]
    p.registry_map = field(p, rep, REG, lambda t: "map<" in t and "weak_ptr" in t, "the registry's map of weak references")
    registering(p, rep)
    unregistering(p, rep)
    looking_up(p, rep)
    creating(p, rep)
    defaults(p, rep)


def changes(rule, st, m):
    out = []
    for e in rule.evs(st, "set", "cont"):
        loc = e[1] if e[0] == "set" else e[2]
        if e[0] == "set" and loc == m:
            continue            # the map as a whole, after an operation that is an event of its own
        if loc == m or loc[0] == "el" and loc[1] == m:
            out.append(e)
    return out


def inserted(st, rule, m, key):
    """The truth of 'the insertion took place', as tested through the pair emplace/insert returned."""
    return None


def name_of(I, st, v):
    """The name of the logger a pointer refers to."""
    return ("s", "init", ("f", ("o", v), None))


def registering(p, rep):
    f = method(p, rep, REG, "register_logger")
    w = rep.where(f)
    rule, I, outs = run(p, rep, f)
    m = ("f", THIS, p.registry_map)
    lg = ("s", "param", 0, 1) if not f.params[0]["t"].endswith("&") else ("s", "init", ("r", "param", 0))
    nm = field(p, rep, LOGGER, lambda t: "basic_string<" in t and "ptr" not in t, "the logger's name")
    key = ("s", "init", ("f", ("o", lg), nm))
    yes = no = 0
    for st, kind, v in outs:
        if kind != "ret":
            continue
        one_hold(rep, f, st)
        ch = changes(rule, st, m)
        fd = found(rule, st, m, key)
        ins = [e for e in ch if e[0] == "cont" and e[1] in ("emplace", "insert", "try_emplace")]
        if ins and v[0] != "c":
            # The outcome of an insertion that keeps an entry already there.
            rep.check("a name is registered only if it is free", f.name, ins[0][3][:1] == (key,) and len(ins) == 1 and
                      v == st.const(("op", "inserted", m)) or "second" in str(v), w, f"returns {str(v)[:100]}", st.path())
            yes, no = yes + 1, no + 1
            continue
        if v == ONE:
            yes += 1
            sets = [e for e in ch if e[0] == "set"]
            good = [e for e in sets if e[1] == ("el", m, key) and e[2] in (("weak", lg), lg)] + \
                   [e for e in ins if len(e[3]) == 2 and e[3][0] == key and e[3][1] in (lg, ("weak", lg))]
            rep.check("a logger registered is stored under its own name", f.name, len(good) == 1 and
                      len([e for e in ch if e not in good and not (e[0] == "cont" and e[1] == "operator[]")]) == 0, w,
                      f"changes {str([e[:4] for e in ch])[:200]}", st.path())
            rep.check("a name is registered only if it is free", f.name, fd is False or expired(st, rule, m) is True, w,
                      "an entry may be replaced by another logger's", st.path())
        elif v == ZERO:
            no += 1
            rep.check("a refusal changes nothing", f.name, not ch, w, f"changes {str([e[:4] for e in ch])[:200]}", st.path())
            rep.check("a logger is refused only if the name is taken", f.name, fd is True, w,
                      "it is refused although the name may be free", st.path())
        else:
            rep.require(False, f"{f.q} returns {str(v)[:100]}")
    rep.require(yes and no, "registering never succeeds, or never fails")


def expired(st, rule, m, it=None):
    """What is known of the entry found being expired: its weak reference was tested or locked."""
    def entry(x):
        return any(y[0] == "el" and y[1] == m for y in flat(x))
    for a, b in st.facts.items():
        if not isinstance(b, bool):
            continue
        t, val = a, b
        if t[0] == "op" and t[1] == "==" and ZERO in t[2:]:
            t, val = (t[2] if t[3] == ZERO else t[3]), not b
        if t[0] == "op" and t[1] == "lock" and entry(t):
            return not val
    for e in rule.evs(st, "gone"):
        if entry(e[2]):
            z = st.truth(mk_eq(e[3], ZERO))
            if z is None and st.truth(e[3]) is not None:
                z = not st.truth(e[3])
            if z is None and e[1] == "use_count" and st.truth(mk_lt(ZERO, e[3])) is not None:
                z = not st.truth(mk_lt(ZERO, e[3]))
            if z is not None:
                return (not z) if e[1] == "expired" else z
    return None


def unregistering(p, rep):
    f = method(p, rep, REG, "unregister_logger")
    w = rep.where(f)
    rule, I, outs = run(p, rep, f)
    m = ("f", THIS, p.registry_map)
    key = ("s", "init", ("r", "param", 0)) if f.params[0]["t"].endswith("&") else ("s", "param", 0, 1)
    n = 0
    for st, kind, v in outs:
        if kind != "ret":
            continue
        ch = changes(rule, st, m)
        reserved = any(b is True and a[0] == "op" and a[1] == "==" and key in a[2:] and any(
            x[0] == "s" and x[1] == "init" and x[2][0] == "g" for x in a[2:]) for a, b in st.facts.items())
        one_hold(rep, f, st)
        if ch:
            n += 1
            erased = [key_of(rule, st, m, e[3][0]) if e[3] else None for e in ch if e[0] == "cont" and e[1] in ("erase", "extract")]
            rep.check("unregistering removes the entry of that name and no other", f.name, erased == [key] and len(ch) == 1, ch[0][-1], f"changes {str([e[:4] for e in ch])[:200]}", st.path())
            rep.check("an entry is removed only once its logger is gone", f.name, expired(st, rule, m) is True, w,
                      "the entry may be another logger's, which is still alive", st.path())
        else:
            rep.check("the entry of a logger that is gone is removed", f.name, reserved or found(rule, st, m, key) is False or
                      expired(st, rule, m) is False, w, "an expired entry stays, so that its name can never be used again", st.path())
    rep.require(n, "unregistering removes nothing")


def looking_up(p, rep):
    for f in (method(p, rep, REG, "get_logger"), method(p, rep, LOGGER, "get")):
        w = rep.where(f)
        rule, I, outs = run(p, rep, f)
        key = ("s", "init", ("r", "param", 0)) if f.params[0]["t"].endswith("&") else ("s", "param", 0, 1)
        hits = 0
        for st, kind, v in outs:
            if kind != "ret":
                continue
            fs = [e for e in rule.evs(st, "find") if rule.is_map(e[1])]
            m = fs[0][1] if fs else None
            if f.record == REG:
                one_hold(rep, f, st)
            if v == ZERO:
                rep.check("a logger is reported missing only if it is", f.q, m is not None and found(rule, st, m, key) is False or
                          m is not None and expired(st, rule, m) is True, w, "nothing is returned for a name that may be registered", st.path())
                continue
            hits += 1
            rep.check("a lookup returns the logger of that name", f.q, m is not None and found(rule, st, m, key) is True, w,
                      f"returns {str(v)[:120]}", st.path())
            ok = v[0] == "op" and v[1] == "lock" and m is not None and any(y[0] == "el" and y[1] == m and key_of(rule, st, m, y[2]) == key
                                                                           for y in flat(v))
            rep.check("a lookup returns a live reference or none", f.q, ok, w, f"returns {str(v)[:160]}", st.path())
            rep.check("a lookup changes nothing", f.q, not changes(rule, st, m), w, "it changes the registry", st.path())
        rep.require(hits, f"{f.q} finds nothing")


def creating(p, rep):
    reg = method(p, rep, REG, "register_logger")
    unreg = method(p, rep, REG, "unregister_logger")
    fs = [f for f in p.funcs.values() if f.record == LOGGER and f.name == "create"]
    rep.require(fs, "Logger::create was not found")
    inits = {f.key for f in p.funcs.values() if f.name == "initialize" and f.record == LOGGER}
    rep.require(inits, "Logger::initialize was not found")
    stop = {reg.key: "register", **{k: "initialize" for k in inits}}
    for f in fs:
        w = rep.where(f)
        rule, I, outs = run(p, rep, f, stop=stop, quiet_files=QUIET + ("registry.cpp",))
        good = 0
        for st, kind, v in outs:
            if kind != "ret":
                continue
            regs = [e for e in rule.evs(st, "call") if e[1] == "register"]
            ini = [e for e in rule.evs(st, "call") if e[1] == "initialize"]
            r = st.truth(regs[0][3]) if len(regs) == 1 else None
            i = st.truth(ini[0][3]) if len(ini) == 1 else None
            if v == ZERO:
                rep.check("creation fails only for a reason", f"{f.name}/{len(f.params)}", r is False or i is False, w,
                          "it fails although the logger was registered and initialized", st.path())
            else:
                good += 1
                rep.check("a logger created was registered and initialized", f"{f.name}/{len(f.params)}", r is True and i is True, w,
                          "a logger is returned that is not", st.path())
                if regs:
                    rep.check("the logger created is the one registered", f"{f.name}/{len(f.params)}", v in regs[0][5] or v in regs[0][2], w,
                              f"{str(regs[0][5])[:100]} is registered, {str(v)[:80]} returned", st.path())
        rep.require(good, f"{f.q} never succeeds")
    dt = [f for f in p.funcs.values() if f.record == LOGGER and f.name == "<dtor>"]
    rep.require(dt, "the logger's destructor was not found")
    nm = field(p, rep, LOGGER, lambda t: "basic_string<" in t and "ptr" not in t, "the logger's name")
    rule, I, outs = run(p, rep, dt[0], stop={unreg.key: "unregister"}, quiet_files=QUIET + ("registry.cpp",))
    for st, kind, v in outs:
        c = rule.evs(st, "call")
        rep.check("a logger destroyed unregisters its name", dt[0].name, len(c) == 1 and ("s", "init", ("f", THIS, nm)) in c[0][2], rep.where(dt[0]),
                  f"{len(c)} times, {str(c[:1])[:120]}", st.path())


def defaults(p, rep):
    cur, init = None, None
    g = method(p, rep, REG, "get_default_logger")
    rule, I, outs = run(p, rep, g)
    for st, kind, v in outs:
        rep.require(v[0] == "s" and v[1] == "init" and v[2][0] == "f", f"{g.q} returns {str(v)[:80]}")
        cur = v[2][2]
    init = [n["n"] for n in p.records[REG]["fields"] if "shared_ptr" in n["t"] and "map" not in n["t"] and n["n"] != cur]
    f = method(p, rep, REG, "set_default_logger")
    lg = ("s", "param", 0, 1) if not f.params[0]["t"].endswith("&") else ("s", "init", ("r", "param", 0))
    rule, I, outs = run(p, rep, f)
    for st, kind, v in outs:
        e = [x for x in rule.evs(st, "set") if x[1] == ("f", THIS, cur)]
        null = st.truth(mk_eq(lg, ZERO))
        ok = len(e) == 1 and (e[0][2] == lg and null is False or null is True and e[0][2] in [("s", "init", ("f", THIS, x)) for x in init])
        rep.check("there is always a default logger", f.name, ok, rep.where(f), f"null: {null}, sets {str([x[1:3] for x in e])[:160]}", st.path())


# ------------------------------------------------------------------------------------ file sink
GOOD = {"good": True, "operator bool": True, "fail": False, "bad": False, "operator!": False}


def healthy(rule, st, sl, after=-1, before=10 ** 6):
    """What the state tests of a stream made between two events say: True, False or None."""
    r = None
    for i, e in enumerate(rule.evs(st)):
        if after < i < before and e[0] == "state" and e[3] == sl and e[1] in GOOD:
            t = st.truth(e[2])
            if t is not None:
                x = t == GOOD[e[1]]
                if e[1] != "bad" or x is False:
                    r = x
    return r


def sinks(p):
    out = []
    for q, rec in p.records.items():
        if any((b["n"] if isinstance(b, dict) else b) == SINK for b in rec.get("bases", [])) and "/fly/" in str(rec.get("file", "/fly/")):
            if any("ofstream" in fl["t"] for fl in rec.get("fields", [])):
                out.append(q)
    return out


def L02(p, rep, thorough):
    rep.explanation = (
        "Typestate of the file sink's stream and files over every path of its operations: the stream's state is tested before a record "
        "is written and after, success is reported only on a stream known to be good, and a file is removed only if it is the one that "
        "was closed and whose encoding, to another file, is known to have succeeded.")
    rep.assumptions += ["stream operations record a failure in the stream's state (the standard library does)",
                        "the encoder's result is right (property C02)"]
    recs = sinks(p)
    rep.require(recs, "no sink that writes files was found")
    for rec in recs:
        file_sink(p, rep, rec)


def file_sink(p, rep, rec):
    stream = field(p, rep, rec, lambda t: "ofstream" in t, "the sink's stream")
    sl = ("f", THIS, stream)
    wrote = rotated = opened = removed = 0
    for name in ("initialize", "stream"):
        f = method(p, rep, rec, name)
        w = rep.where(f)
        rule, I, outs = run(p, rep, f)
        for st, kind, v in outs:
            if kind != "ret":
                continue
            ev = rule.evs(st)
            outs_ = [i for i, e in enumerate(ev) if e[0] == "out" and e[1] == sl]
            opens = [i for i, e in enumerate(ev) if e[0] == "open" and e[1] == sl]
            closes = [i for i, e in enumerate(ev) if e[0] == "close" and e[1] == sl]
            flushes = [i for i, e in enumerate(ev) if e[0] == "flush" and e[1] == sl]
            others = [e for e in ev if e[0] == "open" and e[1] != sl or e[0] == "state-set"]
            rep.check("the sink opens no other file", f.name, not others, others[0][-1] if others else w, f"{str(others[:1])[:160]}", st.path())
            if outs_:
                wrote += 1
                rep.check("a record is written only to a stream known to be good", f.name, healthy(rule, st, sl, -1, outs_[0]) is True,
                          ev[outs_[0]][3], "the stream's state is not known", st.path())
                rep.check("a record is written before the file is closed", f.name, not [c for c in closes + opens if c < outs_[-1]],
                          ev[outs_[0]][3], "it is written across files", st.path())
            if outs_ and (v == ONE or v[0] != "c"):
                last = max(outs_ + flushes + [-1])
                fl = [i for i in flushes + closes if i > outs_[-1]]
                rep.check("a record reported written was flushed", f.name, bool(fl), w, "it may still be in the stream's buffer", st.path())
                # The state seen before the file is closed or another one opened.
                end = min([c for c in closes + opens if c > last] or [10 ** 6])
                ok = healthy(rule, st, sl, last, end) is True or self_value(ev, v, sl, last, end)
                rep.check("a record is reported written only if the stream took it", f.name, ok, w,
                          "success is reported without looking at the stream's state after the write", st.path())
            if name == "stream" and not outs_:
                rep.check("a record that is not written is reported", f.name, v == ZERO, w, f"nothing is written, and {v} returned", st.path())
                rep.check("a record is dropped only if the stream is not good", f.name, healthy(rule, st, sl) is False, w,
                          "it is dropped although the stream may be good", st.path())
            if opens:
                opened += 1
                rep.check("one file is opened", f.name, len(opens) == 1, w, f"{len(opens)} are", st.path())
                o = opens[-1]
                ok = v == ZERO or (healthy(rule, st, sl, o) is True and v == ONE) or self_value(ev, v, sl, o, 10 ** 6)
                rep.check("success means the new file is open", f.name, ok, ev[o][3], f"returns {str(v)[:80]}", st.path())
                path = ev[o][2]
                cur = [fl["n"] for fl in p.records[rec]["fields"] if "filesystem::path" in fl["t"] and
                       I.freeze(st, ("f", THIS, fl["n"])) == path]
                rep.check("the sink remembers the file it writes to", f.name, len(cur) == 1 and path != ("s", "init", ("f", THIS, cur[0])), ev[o][3],
                          f"{str(path)[:100]} is opened", st.path())
                old = ("s", "init", ("f", THIS, cur[0])) if cur else None
                rep.check("a file is opened on a closed stream", f.name, bool(closes) and closes[0] < o or not_open(ev, st, sl, o), ev[o][3],
                          "the stream may still be open, so that opening it fails", st.path())
            elif closes:
                rep.check("a stream closed is opened again", f.name, v == ZERO, w, "success is reported on a closed stream", st.path())
            for i, e in enumerate(ev):
                if e[0] != "fs":
                    continue
                removed += 1
                enc = [x for x in ev[:i] if x[0] == "encode"]
                ok = e[1] == "remove" and enc and st.truth(enc[-1][2]) is True and e[2][:1] == enc[-1][1][:1] and \
                    enc[-1][1][1] != enc[-1][1][0]
                rep.check("a log file is deleted only after it was compressed", f.name, ok, e[3],
                          f"{e[1]} of {str(e[2][:1])[:100]} is reached when the encoder did not report success", st.path())
                ok = opens and old is not None and e[2][:1] == (old,)
                rep.check("only the file that was closed is deleted", f.name, ok and closes and closes[0] < i, e[3],
                          f"{str(e[2][:1])[:100]} is deleted", st.path())
            for i, e in enumerate(ev):
                if e[0] == "encode":
                    rotated += 1
                    rep.check("a file is compressed only after it was closed", f.name, any(c < i for c in closes), e[3],
                              "records may still be in the stream's buffer", st.path())
                    rep.check("the compressed copy is another file", f.name, len(e[1]) == 2 and e[1][0] != e[1][1], e[3],
                              "it is encoded onto itself", st.path())
                    rep.check("the file compressed is the one closed", f.name, opens and old is not None and e[1][0] == old, e[3],
                              f"{str(e[1][0])[:80]} is encoded", st.path())
    rep.require(wrote and opened and rotated and removed, f"{rec}: {wrote} writes, {opened} opens, {rotated} encodings, {removed} removals seen")


def not_open(ev, st, sl, before):
    for i, e in enumerate(ev):
        if i < before and e[0] == "state" and e[1] == "is_open" and e[3] == sl and st.truth(e[2]) is False:
            return True
    return False


def self_value(ev, v, sl, after, before):
    """Whether the value returned is the outcome of a test of the stream."""
    for i, e in enumerate(ev):
        if after < i < before and e[0] == "state" and e[3] == sl and e[1] in ("good", "operator bool", "fail", "operator!"):
            if v == e[2] and GOOD[e[1]] or v == neg(e[2]) and not GOOD[e[1]]:
                return True
    return False


# --------------------------------------------------------------------------------------- records
def L03(p, rep, thorough):
    rep.explanation = (
        "Path analysis of a record's way from the logging call to its sink, for a logger with and without a task runner (the task it posts "
        "is analysed as the runner runs it, with the posting overloads verified by T03): how often it is delivered, with which data, "
        "after which tests of the failure flag, and what is left in the flag and the counter; and of the copying and writing of records.")
    rep.assumptions += ["tasks of one sequenced runner run one at a time, in the order posted (properties T01, T02)",
                        "a trace's views refer to string literals (the logging macros pass __FILE__ and __FUNCTION__)"]
    L = {"index": "uintmax_t unsigned long", "level": "Level", "trace": "Trace", "time": "double", "message": "string"}
    names = {}
    for k, t in L.items():
        def is_t(x, k=k):
            s = strip_type(x)
            return {"index": s in ("std::uintmax_t", "unsigned long", "uintmax_t", "__uintmax_t"), "level": s.endswith("::Level") or s == "Level",
                    "trace": s.endswith("Trace"), "time": s == "double", "message": s.startswith("std::") and "string" in s}[k]
        names[k] = field(p, rep, LOG, is_t, f"the record's {k}")
    logging(p, rep, names)
    copying(p, rep, names)
    writing(p, rep, names)


def logging(p, rep, names):
    runner = field(p, rep, LOGGER, lambda t: "TaskRunner" in t, "the logger's task runner")
    failed = field(p, rep, LOGGER, lambda t: "atomic" in t and "bool" in t, "the logger's failure flag")
    counter = field(p, rep, LOGGER, lambda t: strip_type(t) in ("std::uintmax_t", "unsigned long", "uintmax_t"), "the logger's counter")
    fs = [f for f in p.funcs.values() if f.record == LOGGER and f.name == "log" and len(f.params) == 3 and
          any("Trace" in q["t"] for q in f.params) and any("string" in q["t"] for q in f.params)]
    rep.require(fs, "Logger::log was not found")
    f = fs[0]
    w = rep.where(f)

    def arg(pred):
        i = [i for i, q in enumerate(f.params) if pred(q["t"])][0]
        return ("s", "init", ("r", "param", i)) if f.params[i]["t"].endswith("&") else ("s", "param", i, 1)
    want = {"level": arg(lambda t: "Level" in t), "trace": arg(lambda t: "Trace" in t), "message": arg(lambda t: "string" in t)}
    rule, I, outs = run(p, rep, f, stop_sink=True, numeric=True, flag=("f", THIS, failed))
    top = max(x[1] for x in p.enums["fly::logger::Level"]["c"])
    sync = posted = 0
    fl = ("f", THIS, failed)
    for st, kind, v in outs:
        rule.flag = fl
        ev = rule.evs(st)
        s, ps = [e for e in ev if e[0] == "sink"], [e for e in ev if e[0] == "post"]
        has_runner = st.truth(mk_eq(("s", "init", ("f", THIS, runner)), ZERO))
        bad = flag(rule, st)
        out_of_range = beyond(st, want["level"], top)
        if not s and not ps:
            rep.check("a record is dropped only after a failure or with an unknown level", f.name, bad is True or out_of_range, w,
                      "a record is dropped although its level is valid and nothing failed", st.path())
            continue
        rep.check("a record is delivered once", f.name, len(s) + len(ps) == 1, w, f"to the sink {len(s)} times, posted {len(ps)} times", st.path())
        rep.check("nothing is delivered once the sink failed", f.name, bad is False, w, "the failure flag was not tested", st.path())
        if s:
            sync += 1
            rep.check("only a logger without a runner writes at once", f.name, has_runner is True, s[0][3],
                      "the sink may be used by several threads at once, and out of order", st.path())
            delivered(p, rep, rule, I, st, s[0], want, names, ("f", THIS, counter), fl, "log")
        for e in ps:
            posted += 1
            rep.check("an asynchronous record is posted at once", f.name, e[1] == "post_task", e[4], f"{e[1]}", st.path())
            rep.check("a record is posted to the logger's own runner", f.name, root_of(e[2]) == ("f", THIS, runner) or
                      ("f", THIS, runner) in flat(e[2]), e[4], f"posted to {str(e[2])[:100]}", st.path())
            lam = [x for x in e[3] if x is not None and x[0] == "lam"]
            weak = [x for x in e[3] if x is not None and x[0] == "weak"]
            rep.check("the task of a record is bound weakly to the logger", f.name, len(weak) == 1 and THIS in flat(weak[0]) or len(weak) == 1 and
                      "'this'" in str(weak[0]), e[4], f"{str(weak[:1])[:100]}", st.path())
            rep.require(len(lam) == 1, "the task posted for a record is not a closure of its own")
            caps = lam[0][2]
            refs = [c[0] for c in caps if c[1] == "ref"]
            rep.check("the task of a record owns its data", f.name, not refs, e[4], f"{refs} are captured by reference", st.path())
            types = [t for t in p.records.get(lam[0][1], {}).get("fields", []) if "basic_string_view" in t["t"] or t["t"].strip().endswith("*")]
            rep.check("the task of a record owns its message", f.name, not types, e[4], f"{str(types)[:100]}", st.path())
            s0 = st.copy()
            s0.set("ev", ())
            me = ("o", ("s", "self"))
            rule.flag = ("f", me, failed)
            g = p.funcs[I.lambda_ops(lam[0][1])[0]]
            n = 0
            args = [("s", "self") if "shared_ptr" in q["t"] else None for q in g.params]
            for s2, k2, v2 in I.run_function(s0, g, None, args, None, None, caps=I.lambda_caps(lam[0])):
                s2s = [x for x in rule.evs(s2) if x[0] == "sink"]
                b2 = flag(rule, s2)
                if not s2s:
                    rep.check("a posted record is dropped only after a failure", f.name, b2 is True, e[4], "it is dropped although nothing failed",
                              s2.path())
                    continue
                n += 1
                rep.check("a posted record is delivered once", f.name, len(s2s) == 1 and not [x for x in rule.evs(s2) if x[0] == "post"], e[4],
                          f"{len(s2s)} times", s2.path())
                rep.check("no posted record is delivered once the sink failed", f.name, b2 is False, e[4],
                          "the failure flag is not tested when the task runs", s2.path())
                delivered(p, rep, rule, I, s2, s2s[0], want, names, ("f", me, counter), ("f", me, failed), "task")
            rep.require(n, "the task posted for a record never delivers it")
    rep.require(sync and posted, "a record is never written at once, or never posted")


def root_of(v):
    return v[1] if v is not None and v[0] == "&" else v


def flag(rule, st):
    """What the failure flag was found to be before the record was delivered: the last test made."""
    r = None
    for e in rule.evs(st):
        if e[0] in ("sink", "post"):
            break
        if e[0] == "load":
            x = st.truth(e[1])
            if x is None:
                x = st.truth(mk_eq(e[1], ZERO))
                x = None if x is None else not x
            r = x if x is not None else r
    return r


def beyond(st, level, top):
    """Whether the level is known to be none of those there are."""
    if all(st.truth(mk_eq(level, ("c", i))) is False for i in range(top)):
        return True
    for a, b in st.facts.items():
        if a[0] == "op" and a[1] == "<" and level in a[2:] and isinstance(b, bool):
            if a[2] == level and a[3][0] == "c" and b is False and a[3][1] >= top:
                return True
            if a[3] == level and a[2][0] == "c" and b is True and a[2][1] >= top - 1:
                return True
            if a[2] == level and a[3] == ZERO and b is True:
                return True
        if a[0] == "op" and a[1] == "==" and level in a[2:] and b is True and any(x[0] == "c" and x[1] >= top for x in a[2:]):
            return True
    return False


def parts_of(v, name):
    """A member of a value put together."""
    if v is None:
        return None
    if v[0] == "agg":
        for n, x in v[2]:
            if n == name:
                return x
        return parts_of(v[1], name) if v[1] is not None and v[1][0] == "agg" else ("s", "unset")
    return ("op", "fld", v, name)


def delivered(p, rep, rule, I, st, e, want, names, cl, fl, what):
    rec = e[1]
    w = e[3]
    for k in ("level", "trace", "message"):
        got = parts_of(rec, names[k])
        x = got
        if k == "message" and got is not None and got[0] == "op" and got[1] in ("make", "substr"):
            y = [z for z in got[2:] if isinstance(z, tuple)]
            # A prefix: the text, from its start, up to the configured length.
            ok = bool(y) and y[0] == want[k] and (len(y) < 2 or y[1] == ZERO)
        else:
            ok = x == want[k]
        rep.check(f"a record carries the {k} it was logged with", what, ok, w, f"it carries {str(got)[:120]}", st.path())
    idx = parts_of(rec, names["index"])
    old = ("s", "init", cl)
    new = I.freeze(st, cl)
    steps = [x for x in rule.evs(st, "step") if x[1] == cl]
    sets = [x for x in rule.evs(st, "set") if x[1] == cl]
    one = len(sets) == 1 and (len(steps) == 1 and steps[0][4] == "++" and steps[0][2] == old or new in (("op", "+", old, ONE), ("op", "+", ONE, old)))
    rep.check("records are numbered consecutively", what, one and idx in (old, new), w,
              f"numbered {str(idx)[:60]}, the counter then {str(new)[:80]}", st.path())
    now = [x for x in rule.evs(st, "set") if x[1] == fl]
    acc = e[2]
    got = st.const(I.freeze(st, fl))
    ok = got == neg(acc) or got == st.const(neg(acc)) or got == neg(to_bool(acc)) or \
        st.truth(acc) is False and got == ONE or st.truth(acc) is True and (got == ZERO or not now)
    rep.check("the sink's refusal is remembered", what, ok, w, f"the failure flag is {str(got)[:80]}", st.path())


def copying(p, rep, names):
    ops = [f for f in p.funcs.values() if f.record == LOG and len(f.params) == 1 and LOG.rsplit("::", 1)[-1] in f.params[0]["t"] and
           (f.name == "operator=" or f.name == "Log" or f.q.endswith("::<ctor>"))]
    rep.require(len(ops) >= 2, f"the operations that move a record were not found: {len(ops)}")
    for f in ops:
        rule, I, outs = run(p, rep, f)
        for st, kind, v in outs:
            for k, nm in names.items():
                got = I.freeze(st, ("f", THIS, nm))
                rep.check("moving a record keeps all of it", f"{f.name} {nm}", got == ("s", "init", ("f", ("r", "param", 0), nm)), rep.where(f),
                          f"{nm} becomes {str(got)[:100]}", st.path())


def pieces(p, v):
    """The values that make up a text written out."""
    if v is not None and v[0] == "op" and v[1] == "format":
        args = list(v[2:])
        lit = [x[1][4:] for x in flat(args[0]) if len(x) == 2 and x[0] == "g" and str(x[1]).startswith("str:")]
        if len(lit) != 1:
            return None
        out, rest, i = [], args[1:], 0
        txt = lit[0]
        while txt:
            if txt.startswith("{}"):
                out.append(rest[i] if i < len(rest) else None)
                i, txt = i + 1, txt[2:]
            else:
                out.append(("c", ord(txt[0])))
                txt = txt[1:]
        return out
    if v is not None and v[0] == "s" and v[1] == "init" and v[2][0] == "g" and str(v[2][1]).startswith("str:"):
        return [("c", ord(ch)) for ch in v[2][1][4:]]
    return [v]


def writing(p, rep, names):
    fs = [f for f in p.funcs.values() if f.name == "operator<<" and len(f.params) == 2 and
          strip_type(f.params[1]["t"]).replace("const", "").strip(" &").endswith(("::Log", " Log")) or
          f.name == "operator<<" and len(f.params) == 2 and f.params[1]["t"].replace("const", "").strip(" &") in (LOG, "Log")]
    rep.require(fs, "the operator that writes a record was not found")
    f = fs[0]
    w = rep.where(f)
    rule, I, outs = run(p, rep, f)
    src = {k: ("s", "init", ("f", ("r", "param", 1), nm)) for k, nm in names.items()}
    for st, kind, v in outs:
        o = [e for e in rule.evs(st, "out") if e[1] == ("r", "param", 0)]
        seq = []
        for e in o:
            x = pieces(p, e[2])
            rep.require(x is not None, f"{f.q} writes {str(e[2])[:80]}")
            seq += x
        got, seps = [], []
        for x in seq:
            k = [k for k, y in src.items() if x == y or x is not None and y in flat(x)]
            if k:
                got.append(k[0])
            elif x is not None and x[0] == "c":
                seps.append((len(got), x[1]))
            else:
                got.append(str(x)[:40])
        rep.check("a record is written with all its fields, in order", f.name, got == ["index", "level", "time", "trace", "message"], w,
                  f"writes {got}", st.path())
        rep.check("a record's fields are separated and the record terminated", f.name,
                  seps == [(1, 31), (2, 31), (3, 31), (4, 31), (5, 30)], w, f"separators (after field, character): {seps}", st.path())


RULES = {"L01": L01, "L02": L02, "L03": L03}
