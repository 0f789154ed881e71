"""Exceptions: noexcept functions (E01), operations reporting failure by value (E02), parsers (R01), configuration values (G01)."""
from rules.common import *  # noqa
from engine.escape import Escape, STD_THROWS, plain
from engine.models import mk_holds, template_args
from engine.bounds import entails_le

ITER = ("__normal_iterator", "_Rb_tree", "_Node_iterator")


def size_of(v):
    if v == ("emptyc",):
        return ZERO
    return v[2] if v[0] == "op" and v[1] == "resized" else ("op", "size", v)


class Guards(Rule):
    """Whether each conditional operation of a function is only reached under its condition."""
    def __init__(self, p, f, sites):
        self.p = p
        self.f = f
        self.sites = sites
        self.seen = {}
        d = f.file.split("/fly/", 1)[-1].rsplit("/", 1)[0]
        self.quiet_files = tuple(x for x in Rule.quiet_files if not ("fly/" + d + "/").startswith(x))

    max_states = 6000
    numeric = True

    def inline(self, key, fr):
        f = self.p.funcs.get(key)
        return f is not None and "/logger/" not in f.file

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if fr.f is self.f and n in self.sites:
            ok = self.holds(I, st, fr, n, nd, key, plain(q), args, obj)
            self.seen.setdefault(n, []).append(ok)
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if val is None or val[0] not in ("s", "op"):
            return
        if q in ("send", "sendto", "write", "recv", "recvfrom", "read") and key not in self.p.funcs and len(args) >= 3:
            st.assume(mk_lt(content(I, st, args[2]), val), False)
        f = self.p.funcs.get(key)
        if f is not None and "/fly/net/" in f.file and strip_type(f.ret) == "unsigned long":
            # The number of bytes accepted is at most what was given (N06 checks the accounting).
            views = [i for i, x in enumerate(f.params) if "basic_string_view" in x["t"]]
            if len(views) == 1:
                st.assume(mk_lt(("op", "size", content(I, st, args[views[0]])), val), False)

    def holds(self, I, st, fr, n, nd, key, q, args, obj):
        nm = q.rsplit("::", 1)[-1]
        if q == "std::optional::value":
            v = I.freeze(st, obj)
            return v[0] == "some" or st.truth(("op", "has", v)) is True
        if q == "std::get" and args and args[0][0] == "&":
            return st.truth(mk_holds(template_args(key)[0], I.freeze(st, args[0][1]))) is True
        if nm in ("substr", "erase", "replace", "insert", "compare", "copy"):
            if "string" in q:
                if len(args) == 0:
                    return True
                size = size_of(I.freeze(st, obj))
                pos = content(I, st, args[0])
                if pos[0] == "op" and pos[1] == "-" and any(x[0] == "&" and x[1][0] == "f" and x[1][2] == "#data" for x in pos[2:]):
                    return True   # a distance within the buffer the view covers
                return entails_le(st, pos, size)
        if nm == "at" and len(args) == 1:
            size = size_of(I.freeze(st, obj))
            return entails_le(st, ("op", "+", content(I, st, args[0]), ONE), size)
        return None


class Judge:
    def __init__(self, p):
        self.p = p
        self.cache = {}
        self.notes = []

    def __call__(self, f, n, nd, q):
        if self.given(f, nd, q):
            return True
        if f.key not in self.cache:
            self.cache[f.key] = self.guards(f)
        v = self.cache[f.key].get(n)
        return bool(v) and all(v)

    @staticmethod
    def given(f, nd, q):
        """Operations assumed not to fail, and overloads that have nothing to check."""
        if q == "std::enable_shared_from_this::shared_from_this" or q.startswith("std::basic_streambuf::sput"):
            return True
        if q == "std::get" and nd.get("args"):
            m = member_of(f, nd["args"][0])
            if m is not None and m[0] and plain(m[0]) == "fly::detail::JsonIterator":
                return True
        if "string" in q and nd.get("args"):
            return any(x in f.nodes[nd["args"][0]].get("t", "") for x in ITER)
        return False

    def guards(self, f):
        sites = set()
        for i, nd in f.calls():
            k = nd.get("f")
            if k is None or k in self.p.funcs:
                continue
            q = plain(self.p.decls.get(k, {}).get("q") or k.split("(")[0])
            if q.startswith("std::"):
                sites.add(i)
        seen = self.judged(f, sites, f)
        left = {n for n in sites if n in seen and not all(seen[n])}
        tops = self.p.tops(f)
        if left and tops != {f}:
            # A helper relies on what its callers have made sure of.
            runs = [self.judged(f, left, t) for t in sorted(tops, key=lambda t: t.key)]
            for n in left:
                seen[n] = [ok for r in runs for ok in r.get(n, [])]
        return seen

    def judged(self, f, sites, entry):
        R = Guards(self.p, f, sites)
        try:
            Interp(self.p, R).run_entry(entry)
        except Limit:
            return {}
        return R.seen


class Paths(Guards):
    """Follows the paths of one function to see whether an exception leaves it."""

    def __init__(self, p, f, esc):
        Guards.__init__(self, p, f, ())
        self.esc = esc
        self.why = {}
        self.I = None

    def quiet(self, key, I):
        f = self.p.funcs.get(key)
        return f is not None and not self.esc.sets.get(key) and any(d in f.file for d in ("/logger/", "/types/string/", "/system/"))

    def inline(self, key, fr):
        f = self.p.funcs[key]
        if not self.esc.sets.get(key):
            return "/types/json/" in f.file and not f.q.endswith("<dtor>") and "Exception" not in f.q
        return not self.contained(fr.f, self.I.site, key)

    def contained(self, f, n, key):
        """A call within a try block that handles whatever the callee raises."""
        tid = f.nodes[n].get("try") if n is not None else None
        return tid is not None and tid >= 0 and all(self.esc.caught(f, tid, t) is not None for t in self.esc.sets.get(key, ()))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        pq = plain(q)
        self.I = I
        if pq in ("std::all_of", "std::ranges::all_of") and len(args) == 3:
            return self.all_of(I, st, fr, n, args)
        for c, pred in st.get("all", ()):
            self.element_of(I, st, fr, n, c, pred, obj if obj is not None else (args[0][1] if args and args[0][0] == "&" else None))
        self.at = (args, obj)
        return None

    def all_of(self, I, st, fr, n, args):
        """Every element of the range satisfies the predicate, or one does not."""
        pred = content(I, st, args[2])
        no = st.copy()
        if pred is not None and pred[0] == "lam":
            st.set("all", st.get("all", ()) + ((args[0], pred),))
        return [(st, ONE), (no, ZERO)]

    def element_of(self, I, st, fr, n, c, pred, loc):
        """The predicate is known to hold of the element a location is in."""
        if loc is None:
            return
        e = root(loc)
        if not self.iterates(st, e, c) or e in st.get("pred", ()):
            return
        st.set("pred", st.get("pred", ())[-3:] + (e,))
        ops = I.lambda_ops(pred[1])
        if len(ops) != 1:
            return
        yes = []
        for s, kind, v in I.run_function(st.copy(), self.p.funcs[ops[0]], None, [("&", e)], fr, n, caps=I.lambda_caps(pred)):
            if kind == "ret" and s.truth(to_bool(v)) is not False:
                s.assume(to_bool(v), True)
                yes.append(s)
        if len(yes) == 1:
            for k, v in yes[0].facts.items():
                st.facts.setdefault(k, v)

    def iterates(self, st, e, c):
        """The location is what an iterator of the range points to: its begin, or one compared with its end."""
        if e[0] != "o" or c[0] != "op" or c[1] not in ("begin", "cbegin"):
            return False
        return e[1] == c or st.truth(mk_eq(e[1], ("op", "end") + c[2:])) is False

    def may_throw(self, I, st, fr, n, nd, key, q):
        if key in self.p.funcs:
            return sorted(self.esc.sets.get(key, ()))
        e = STD_THROWS.get(plain(q))
        if e is None or key in self.p.funcs:
            return None
        if e[1] and Judge.given(fr.f, nd, plain(q)) or self.holds(I, st, fr, n, nd, key, plain(q), *self.at):
            return None
        return e[0]



# ---- the escape analysis shared by the properties ----------------------------------------------

def escapes(p):
    """The exceptions that may leave each function, once per program."""
    if not hasattr(p, "escape_analysis"):
        j = Judge(p)
        e = Escape(p, j, skip=lambda f, i, nd, t: section_access(p, f, nd, t), barrier=lambda t: is_noexcept(p, t))
        for k in [k for k, f in p.funcs.items() if f.record and f.record != PARSER and p.is_derived(f.record, PARSER)
                  and any(p.decls.get(o, {}).get("record") == PARSER for o in p.decls.get(k, {}).get("overrides", []))]:
            if e.sets.get(k):
                got = thrown(p, k, e)
                if got is not None:
                    e.cap[k] = got
        if e.cap:
            e.solve()
        p.escape_analysis = e
    return p.escape_analysis


def thrown(p, k, esc, rep=None):
    """The exceptions that leave a function, following its paths; None when there are too many."""
    I = Interp(p, Paths(p, p.funcs[k], esc))
    try:
        outs = I.run_entry(p.funcs[k])
    except Limit:
        return None
    if rep is not None:
        rep.absorb(I)
    return {v[1] for _, kind, v in outs if kind == "throw"}


def is_noexcept(p, k):
    d = p.decls.get(k, {})
    return (d.get("noexcept") or p.funcs[k].noexcept) and not d.get("consteval")


PARSER = "fly::parser::Parser"
CONFIG, MANAGER, JSON = "fly::config::Config", "fly::config::ConfigManager", "fly::Json"


def sections(p):
    """The member of the manager that holds the file's values."""
    return {(r, n) for r, n in fields_of(p, MANAGER, lambda fl: strip_type(fl["t"]) == JSON, bases=False)}


def member_of(f, i):
    """(class, field) an expression names, through conversions."""
    for _ in range(6):
        nd = f.nodes[i]
        if nd["k"] == "MemberExpr" and "m" in nd:
            return (nd.get("mr"), nd["m"])
        c = nd.get("c") or []
        if nd["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr") and c:
            i = c[0]
            continue
        return None
    return None


def section_access(p, f, nd, t):
    """Reading a section of values that are known to be an object or null (G02) does not throw; identifiers are valid text."""
    g = p.funcs[t]
    if g.q != "fly::Json::operator[]" or len(g.params) != 1 or "basic_string" not in g.params[0]["t"] and "char" not in g.params[0]["t"]:
        return False
    o = nd.get("obj")
    if o is None and nd.get("args"):
        o = nd["args"][0]
    return o is not None and member_of(f, o) in sections(p)


def not_thrown(p, rep, rule, k, esc, what, confirm=False):
    f = p.funcs[k]
    s = sorted(t for t in esc.sets.get(k, ()) if t != "callback")
    if s and confirm:
        got = thrown(p, k, esc, rep)
        s = sorted(got) if got is not None else s
    for t in s:
        rep.check(rule, short_q(f.q), False, rep.where(f), f"{what}: {t} leaves it", tuple(esc.chain(k, t)))
    if not s:
        rep.check(rule, short_q(f.q), True, rep.where(f))


# ---- E01 ---------------------------------------------------------------------------------------

def thread_roots(p):
    """Functions run by threads: what std::thread and std::async are given, and the closures that are posted as tasks."""
    out = {}
    for k, f in p.funcs.items():
        if "/fly/" not in f.file:
            continue
        for i, nd in f.calls():
            q = plain(p.decls.get(nd.get("f"), {}).get("q") or (nd.get("f") or "").split("(")[0])
            last = q.rsplit("::", 1)[-1]
            if q not in ("std::thread::<ctor>", "std::jthread::<ctor>", "std::async") and not ("::post_task" in q and q.startswith("fly::")):
                continue
            for a in nd.get("args", ()):
                for t in closures(p, f, a):
                    out.setdefault(t, f"{last} in {short_q(f.q)}")
    return out


def closures(p, f, a, depth=0):
    """Call operators of the closures and functions an argument expression passes on."""
    if a is None or a < 0 or depth > 6:
        return []
    nd = f.nodes[a]
    if nd["k"] == "DeclRefExpr" and nd.get("f") in p.funcs:
        return [nd["f"]]
    t = strip_type(nd.get("t", ""))
    got = [k for k, g in p.funcs.items() if g.is_lambda and g.record == t] if "lambda@" in t else []
    if got:
        return got
    out = []
    for c in f.children(a):
        out += closures(p, f, c, depth + 1)
    return out


def e01(p, rep, thorough):
    esc = escapes(p)
    n = 0
    for k in sorted(p.funcs):
        f = p.funcs[k]
        if "/fly/" not in f.file or not is_noexcept(p, k):
            continue
        n += 1
        what = "a destructor" if f.q.endswith("<dtor>") else "a noexcept function"
        not_thrown(p, rep, "nothing leaves a function that promises not to throw", k, esc, what, confirm=True)
    rep.require(n >= 60, "fewer functions that promise not to throw than the library has")
    r = thread_roots(p)
    for k in sorted(r):
        not_thrown(p, rep, "nothing leaves a function a thread runs", k, esc, f"run by a thread ({r[k]})")
    rep.require(len(r) >= 5, "the functions run by threads were not found")
    rep.count("functions", len(p.funcs))
    manager_values(p, rep)
    construction(p, rep)
    rep.explanation = ("Exception types escaping every function, as a fixed point over the call graph with a table of the standard library's throwing "
                       "operations; conditional operations are discharged by following the containing function's paths with difference bounds.")
    rep.assumptions += ASSUME


ASSUME = ["memory allocation does not fail and threads can be started", "callables given by the user do not throw",
          "writing to a stream buffer does not throw", "objects using shared_from_this are owned by a shared_ptr",
          "configuration identifiers are valid text", "a JSON iterator is used while its value keeps the type it had when the iterator was made"]


def construction(p, rep):
    """No constructor or destructor reaches shared_from_this on the object itself: there is no owner yet, or none any more."""
    uses = {}
    for k, f in p.funcs.items():
        for i, nd in f.calls():
            if "enable_shared_from_this" in (nd.get("f") or "") and "shared_from_this" in nd["f"].split("(")[0].rsplit("::", 1)[-1]:
                uses.setdefault(k, i)
    # functions of the same object that lead there
    reach = dict(uses)
    work = list(uses)
    while work:
        t = work.pop()
        for k, f in p.funcs.items():
            if k in reach or f.is_lambda:
                continue
            for i, nd in f.calls():
                if t in p.targets(nd) and on_this(f, nd):
                    reach[k] = i
                    work.append(k)
                    break
    rep.require(len(uses) >= 5, "shared_from_this is no longer used")
    for k, f in sorted(p.funcs.items()):
        if "/fly/" in f.file and (f.q.endswith("<ctor>") or f.q.endswith("<dtor>")) and shared(p, f.record):
            rep.check("an object without an owner does not ask for it", short_q(f.q), k not in reach, rep.where(f),
                      "shared_from_this is reached while the object is built or destroyed")


def shared(p, rec, d=0):
    r = p.records.get(rec)
    if r is None or d > 6:
        return False
    for b in r.get("bases", ()):
        if "enable_shared_from_this" in b or shared(p, b, d + 1):
            return True
    return False


def on_this(f, nd):
    o = nd.get("obj")
    if o is None:
        return False
    for _ in range(5):
        x = f.nodes[o]
        if x["k"] == "CXXThisExpr":
            return True
        c = x.get("c") or []
        if x["k"] in ("ImplicitCastExpr", "ParenExpr") and c:
            o = c[0]
            continue
        return False
    return False


# ---- E02, R01 ----------------------------------------------------------------------------------

# Operations that report failure by their result: classes and free functions of these parts.
BY_VALUE = ("fly/coders/", "fly/config/", "fly/logger/", "fly/net/", "fly/path/", "fly/system/", "fly/task/", "fly/types/bit_stream/",
            "fly/types/concurrency/", "fly/types/string/")


def public(p, f):
    d = p.decls.get(f.key, {})
    return d.get("access", "public") in ("public", "none", "")


def e02(p, rep, thorough):
    esc = escapes(p)
    n = 0
    for k in sorted(p.funcs):
        f = p.funcs[k]
        if f.is_lambda or not any("/" + d in f.file for d in BY_VALUE) or is_noexcept(p, k) or not public(p, f):
            continue
        n += 1
        not_thrown(p, rep, "failure is reported by the result, never by an exception", k, esc, "a public operation")
    rep.require(n >= 150, "fewer public operations than the library has")
    rep.count("functions", len(p.funcs))
    manager_values(p, rep)
    rep.explanation = "The escape sets of the exception analysis (see E01) for every public operation of the parts that report failure by value."
    rep.assumptions += ASSUME


def r01(p, rep, thorough):
    esc = escapes(p)
    n = 0
    base = PARSER
    for k in sorted(p.funcs):
        f = p.funcs[k]
        if f.is_lambda or f.record is None or f.record != base:
            continue
        if not f.virtual and f.ret.startswith("std::optional<fly::Json>"):
            n += 1
            not_thrown(p, rep, "parsing yields a value or an empty result, never an exception", k, esc, "a parse operation")
    rep.require(n >= 3, "the parse operations were not found")
    # What the parsers do inside: how many throwing operations are there to be caught.
    inner = [k for k, f in p.funcs.items() if f.record and (f.record == base or p.is_derived(f.record, base))]
    rep.count("functions", len(inner))
    rep.count("throwing_operations", sum(len(esc.sites[k][0]) for k in inner))
    rep.explanation = "The escape sets of the exception analysis (see E01) for the parsers' operations on strings, files and streams."
    rep.assumptions += ASSUME


# ---- G01 ---------------------------------------------------------------------------------------

class ReadRule(Trace):
    """A configuration read: which value is looked up, how it is converted, what is caught."""

    def __init__(self, p, esc, values):
        self.p, self.esc, self.values = p, esc, values

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        if f is None or f.record != JSON or obj is None:
            return None
        if obj == ("f", THIS, self.values) and not key.rstrip().endswith("const"):
            st.set("changed", 1)
        st2 = st.copy()
        out = []
        nm = q.rsplit("::", 1)[-1]
        if nm in ("operator[]", "at") and len(args) == 1:
            v = ("&", ("el", obj, content(I, st, args[0])))
        elif "operator " in key.split("(")[0] or "fly::Json::operator " in key:
            v = ("op", "conv", ("&", obj))
            st.set("conv", st.get("conv", ()) + ((obj, bool([h for h in st.held if h[0][0] == "f" and h[0][1] == THIS])),))
        else:
            v = I.fresh(st, fr, n, "json")
        out.append((st, v))
        for t in sorted(self.esc.sets.get(key, ())):
            s = st2.copy()
            s.set("threw", t)
            out.append((s, ("throw", t)))
        return out


def get_value_rule(p, rep, f, esc, values):
    R = ReadRule(p, esc, values)
    I = Interp(p, R)
    outs = I.run_entry(f)
    rep.absorb(I)
    w = rep.where(f)
    inst = f.name + "<" + f.ret[:60] + ">"
    name = default = None
    for i, x in enumerate(f.params):
        byref = x["t"].endswith("&")
        v = ("s", "init", ("r", "param", i)) if byref else ("s", "param", i, 1)
        if i == 0:
            name = v
        else:
            default = v
    want = ("el", ("f", THIS, values), name)
    found = 0
    for st, kind, val in outs:
        if kind != "ret":
            rep.check("a read yields a value, never an exception", inst, False, w, f"{val[1]} leaves it", st.path())
            continue
        v = content(I, st, val)
        conv = st.get("conv", ())
        rep.check("a read does not change the values", inst, not st.get("changed"), w, "the values are read by an operation that may change them", st.path())
        if st.get("threw") or v == default:
            rep.check("a value that is missing or does not convert yields the default", inst, v == default, w, f"the result is {str(v)[:100]}", st.path())
            rep.check("the default is given only when the value is missing or does not convert", inst, bool(st.get("threw")), w,
                      "the default is given although the value was found", st.path())
        else:
            found += 1
            from_conv = any(isinstance(x, tuple) and x[:2] == ("op", "conv") and x[2] == ("&", want) for x in parts(v))
            rep.check("the value given is the stored one, converted", inst, from_conv, w, f"the result is {str(v)[:100]}", st.path())
            rep.check("the values are read under the lock", inst, all(h for _, h in conv), w, "the values are read without the lock", st.path())
    rep.check("a stored value is given", inst, found > 0, w, "no path gives the stored value")


def parts(v):
    out, stack = [], [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            out.append(x)
            stack.extend(x)
    return out


def g01(p, rep, thorough):
    esc = escapes(p)
    gets = [f for f in p.q("fly::config::Config::get_value")]
    rep.require(len(gets) >= 12, "configuration reads are not instantiated")
    vals = fields_of(p, CONFIG, lambda fl: strip_type(fl["t"]) == JSON, bases=False)
    rep.require(len(vals) == 1, "the configuration's values are not one JSON member")
    for f in gets:
        not_thrown(p, rep, "a read yields a value, never an exception", f.key, esc, "a configuration read")
        get_value_rule(p, rep, f, esc, vals[0][1])
    readers = [f for k, f in p.funcs.items() if f.record and p.is_derived(f.record, CONFIG) and not f.is_lambda and "/fly/" in f.file
               and not f.q.endswith("tor>")]
    for f in readers:
        not_thrown(p, rep, "a configuration's accessors never throw", f.key, esc, "an accessor")
    rep.explanation = "Every instantiation of the read followed path by path: lookup and conversion may throw what the escape analysis says they do."
    rep.assumptions += ASSUME[:1]


# ---- G02 ---------------------------------------------------------------------------------------

class SectionRule(Trace):
    """The manager's values: an object or null whenever the lock is free; sections are handed to the configurations."""

    LIMIT = 6

    def __init__(self, p, values, events=False):
        self.p = p
        self.values = values
        if not events:
            self.LIMIT = 0
        self.problems = []
        self.locks = 0

    def bad(self, st, fr, n, text):
        self.problems.append((fr.f.loc(n) if n is not None and n >= 0 else fr.f.q, text, st.path()))

    def ours(self, loc):
        return loc is not None and loc[0] == "f" and loc[2] == self.values and loc[1] == THIS

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        nm = q.rsplit("::", 1)[-1]
        if f is not None and f.record == JSON or key and key.startswith("fly::Json::"):
            if nm == "<ctor>":
                if len(args) == 1 and "nullptr_t" in str(self.p.decls.get(key, {}).get("params", "")) or not args:
                    return [(st, ("op", "json", "null"))]
                v = content(I, st, args[0]) if args else None
                ps = str(self.p.decls.get(key, {}).get("params", ""))
                if "fly::Json" in ps and "initializer_list" not in ps and len(args) == 1:
                    return [(st, v)]
                return [(st, ("op", "json", "made", I.fresh(st, fr, n, "j")))]
            if nm == "<dtor>":
                return [(st, ("void",))]
            if nm == "operator=" and len(args) == 1 and obj is not None:
                v = content(I, st, args[0])
                if self.ours(obj):
                    st.set("shape", "ok" if v == ("op", "json", "null") else "any")
                    self.ev(st, "store", v)
                I.write(st, obj, v)
                self.on_write(I, st, fr, n, obj, v, True)
                return [(st, ("&", obj))]
            if self.ours(obj):
                if nm in ("is_object", "is_null"):
                    if I.freeze(st, obj) == ("op", "json", "null"):
                        return [(st, ONE if nm == "is_null" else ZERO)]
                    no = st.copy()
                    st.set("shape", "ok")
                    return [(st, ONE), (no, ZERO)]
                if nm == "operator[]" and not key.rstrip().endswith("const"):
                    if st.get("shape", "ok") != "ok":
                        self.bad(st, fr, n, "a section of values that need not be an object is read")
                    return [(st, ("&", ("el", obj, content(I, st, args[0]))))]
                if not key.rstrip().endswith("const"):
                    st.set("shape", "any")
            if f is not None and not f.key.rstrip().endswith("const") and self.ours(obj):
                return [(st, ("void",) if f.ret == "void" else I.fresh(st, fr, n, "j"))]
        if f is not None and f.record == CONFIG and f.name == "update" and obj is not None:
            self.ev(st, "update", obj, args[0] if args else None)
            return [(st, ("void",))]
        return None

    def on_write(self, I, st, fr, n, loc, val, known=False):
        if self.ours(loc) and not known:
            st.set("shape", "any")

    def on_lock(self, I, st, fr, n, loc, kind):
        if loc[0] == "f" and loc[1] == THIS:
            self.locks += 1
            st.set("shape", "ok")

    def on_unlock(self, I, st, fr, n, loc):
        if loc[0] == "f" and loc[1] == THIS:
            if st.get("shape", "ok") != "ok":
                self.bad(st, fr, n, "the lock is released with values that need not be an object")

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if name == "erase":
            self.ev(st, "erase", obj, tuple(c.val(i) for i in range(len(c.args))))

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if q == "std::weak_ptr::lock":
            self.ev(st, "alive", I.freeze(st, obj) if obj is not None else None, obj, val)


def section_functions(p):
    vals = sections(p)
    out = {}
    for k, f in sorted(p.funcs.items()):
        g = p.home(f)
        if g.record == MANAGER and not g.q.endswith("tor>"):
            f.prepare()
            if any(nd["k"] == "MemberExpr" and (nd.get("mr"), nd.get("m")) in vals for nd in f.nodes):
                out.update((t.key, t) for t in p.tops(g) if t.record == MANAGER and not t.q.endswith("tor>"))
    return [out[k] for k in sorted(out)]


def manager_values(p, rep):
    """The values of the manager are an object or null whenever its lock is free, so reading a section does not throw."""
    vals = sections(p)
    rep.require(len(vals) == 1, "the manager's values are not one JSON member")
    fs = section_functions(p)
    rep.require(len(fs) >= 2, "the functions that use the manager's values were not found")
    for f in fs:
        R = SectionRule(p, list(vals)[0][1])
        I = Interp(p, R)
        I.run_entry(f)
        rep.absorb(I)
        b = R.problems
        rep.check("the values are an object or null whenever the lock is free", short_q(f.q), not b and R.locks > 0, b[0][0] if b else rep.where(f),
                  b[0][1] if b else "the values are used without the lock", b[0][2] if b else ())



# ---- G02 ---------------------------------------------------------------------------------------

class ReloadRule(SectionRule):
    """One reload: what is parsed and stored, which configurations are told, which are dropped."""
    PARSER = "fly::parser::Parser"

    def __init__(self, p, values, configs):
        SectionRule.__init__(self, p, values, True)
        self.configs = configs
        self.seen = {"update": 0, "erase": 0, "parse": 0, "alive": 0}

    def ev(self, st, *x):
        pass

    def entry(self, v):
        """The element of the map of configurations a value belongs to."""
        for x in parts(v):
            if x[:1] == ("el",) and len(x) == 3 and x[1] == self.configs:
                return x
            if x[:2] == ("op", "it") and len(x) == 4 and x[2] == ("&", self.configs):
                return ("el", self.configs, x[3])
            if x[:2] == ("op", "begin") and len(x) == 4 and x[2] == ("&", self.configs):
                return ("el", self.configs, x[3])
        return None

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        if f is not None and f.record == CONFIG and f.name == "update" and obj is not None and args:
            self.seen["update"] += 1
            cur = st.get("entry")
            if cur is None or st.truth(cur[1]) is not True:
                self.bad(st, fr, n, "a configuration that may be gone is updated")
            else:
                sec = args[0][1] if args[0][0] == "&" else None
                key_of = self.entry(sec[2]) if sec is not None and sec[0] == "el" and self.ours(sec[1]) else None
                if self.entry(obj) != cur[0] or key_of != cur[0]:
                    self.bad(st, fr, n, "a configuration is given values that are not its own section")
                st.set("told", 1)
            return [(st, ("void",))]
        return SectionRule.pre_call(self, I, st, fr, n, nd, key, q, args, obj)

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        d = self.p.decls.get(key, {})
        rec = d.get("record") or (self.p.funcs[key].record if key in self.p.funcs else None)
        if rec and (rec == self.PARSER or self.p.is_derived(rec, self.PARSER)) and q.rsplit("::", 1)[-1].startswith("parse_"):
            self.seen["parse"] += 1
            st.set("parsed", val)
            st.set("held", bool(st.held))
        if q == "std::weak_ptr::lock" and obj is not None:
            e = self.entry(obj)
            if e is not None:
                self.seen["alive"] += 1
                self.leave(st, fr, n)
                st.set("entry", (e, to_bool(val)))
                st.set("told", 0)
                st.set("looked", 1)

    def leave(self, st, fr, n):
        cur = st.get("entry")
        if cur is not None and st.truth(cur[1]) is True and not st.get("told"):
            self.bad(st, fr, n, "a live configuration is not given the new values")
        if cur is not None and st.truth(cur[1]) is False and not st.get("dropped"):
            self.bad(st, fr, n, "a configuration that is gone is kept")
        st.set("dropped", 0)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj != self.configs:
            return
        if name == "erase":
            self.seen["erase"] += 1
            cur = st.get("entry")
            if cur is None or st.truth(cur[1]) is not False or self.entry(tuple(c.val(i) for i in range(len(c.args)))) != cur[0]:
                self.bad(st, fr, n, "a configuration that may be alive is dropped")
            st.set("dropped", 1)
        elif name == "clear":
            self.bad(st, fr, n, "configurations that may be alive are dropped")


def manager_map(p, rep):
    m = fields_of(p, MANAGER, lambda fl: "std::weak_ptr<" + CONFIG in fl["t"] or "weak_ptr<fly::config::Config>" in fl["t"], bases=False)
    rep.require(len(m) == 1, "the manager's map of configurations was not found")
    return m[0][1]


def reload(p, rep, f, values, configs):
    R = ReloadRule(p, values, ("f", THIS, configs))
    I = Interp(p, R)
    outs = I.run_entry(f)
    rep.absorb(I)
    w = rep.where(f)
    nm = short_q(f.q)
    for st, kind, val in outs:
        if kind != "ret":
            continue
        R.leave(st, I_frame(f), -1)
        v = st.get("parsed")
        if v is None:
            continue
        ok = st.truth(("op", "has", v))
        cur = I.freeze(st, ("f", THIS, values))
        rep.check("the file is parsed and stored under one hold of the lock", nm, bool(st.get("held")), w, "the file is parsed before the lock is taken", st.path())
        if ok is False:
            rep.check("a file that cannot be parsed leaves no values", nm, cur == ("op", "json", "null"), w, f"the values are {str(cur)[:80]}", st.path())
        elif ok is True:
            good = cur == ("op", "json", "null") or any(x == v for x in parts(cur)) or any(x == v for x in symbols(cur))
            rep.check("a parsed file's values are stored", nm, good and not (cur == ("op", "json", "null") and st.get("shape0") == "object"), w,
                      f"the values are {str(cur)[:80]}", st.path())
        if ok is False or (ok is True and cur != ("op", "json", "null")):
            looked = st.get("looked") or st.truth(mk_empty(I.freeze(st, R.configs))) is True or walked(st, R.configs)
            rep.check("every live configuration is given the new values", nm, bool(looked), w, "the configurations are not visited", st.path())
    b = R.problems
    rep.check("live configurations are given their section, gone ones are dropped", nm, not b, b[0][0] if b else w, b[0][1] if b else "", b[0][2] if b else ())
    rep.require(R.seen["parse"] and R.seen["alive"] and R.seen["update"], "a reload parses the file and updates configurations")
    rep.check("configurations that are gone are dropped", nm, R.seen["erase"] > 0, w, "no configuration is ever dropped")


def walked(st, configs):
    """A walk over the map ended at once: it is empty."""
    return any(b and a[0] == "op" and a[1] == "==" and any(x[:2] == ("op", "end") and x[2] == ("&", configs) for x in parts(a)) for a, b in st.facts.items())


class I_frame:
    def __init__(self, f):
        self.f = f


class PostRule(Trace):
    """The callback given to the path monitor, and what it posts."""

    def __init__(self, p, update):
        self.p = p
        self.update = update

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        if q.startswith("fly::path::PathMonitor::add_"):
            self.ev(st, "watch", q, tuple(content(I, st, a) for a in args))
            return [(st, to_bool(I.fresh(st, fr, n, "added")))]
        if q.startswith("fly::task::") and "::post_task" in q:
            self.ev(st, "post", I.freeze(st, obj) if obj is not None else None, obj, tuple(content(I, st, a) for a in args))
            return [(st, ONE)]
        if key in self.update:
            self.ev(st, "reload", obj)
            return [(st, ("void",))]
        if f is not None and "/logger/" in f.file:
            return [(st, ("void",))]
        return None


def manager_tops(p, pred):
    """The manager's functions that make such a call, themselves or through their helpers."""
    out = {t.key: t for f in p.funcs.values() if p.home(f).record == MANAGER and any(pred(nd.get("f") or "") for _, nd in f.calls())
           for t in p.tops(f) if t.record == MANAGER and not t.q.endswith("tor>")}
    return [out[k] for k in sorted(out)]


def watching(p, rep, updaters):
    """Starting watches the file; a change posts a reload to the manager's own sequence if the manager is alive."""
    starts = list({p.home(f).key: p.home(f) for f in p.funcs.values() if p.home(f).record == MANAGER and
                   any((nd.get("f") or "").startswith("fly::path::PathMonitor::add_") for _, nd in f.calls())}.values())
    rep.require(len(starts) >= 1, "no function of the manager watches the file")
    upd = {f.key for f in updaters}
    for f in starts:
        R = PostRule(p, upd)
        I = Interp(p, R)
        outs = I.run_entry(f)
        rep.absorb(I)
        w = rep.where(f)
        nm = short_q(f.q)
        seen = 0
        for st, kind, val in outs:
            for e in R.evs(st, "watch"):
                seen += 1
                paths = [x for x in e[2] if x in [I.freeze(st, ("f", THIS, n)) for _, n in fields_of(p, MANAGER, lambda fl: "filesystem::path" in fl["t"])]]
                rep.check("the manager's own file is watched", nm, bool(paths), w, "another path is watched", st.path())
                lam = [unwrap(x) for x in e[2] if unwrap(x) is not None and unwrap(x)[0] == "lam"]
                rep.check("the watch has a callback", nm, len(lam) == 1, w, "no callback is given", st.path())
                if lam:
                    callback(p, rep, I, R, st, lam[0], nm)
        rep.check("starting watches the file", nm, seen > 0, w, "no path watches the file")


def callback(p, rep, I, R, st, lam, nm):
    g = p.funcs[I.lambda_ops(lam[1])[0]]
    w = rep.where(g)
    base = len(R.evs(st, "post"))
    posts = 0
    fr = None
    strong = [c for c in lam[2] if "lock" in str(c)[:60]]
    for s, kind, v in I.run_function(st.copy(), g, None, [("s", "arg", i) for i in range(len(g.params))], None, None, caps=I.lambda_caps(lam)):
        ps = R.evs(s, "post")[base:]
        rep.check("a change is not handled on the monitor's thread", nm, not R.evs(s, "reload"), w, "the reload runs in the callback", s.path())
        rep.check("a change posts one reload", nm, len(ps) <= 1, w, f"{len(ps)} tasks are posted", s.path())
        alive = [b for a, b in s.facts.items() if any(x[:2] == ("op", "lock") for x in parts(a))]
        if not ps:
            dead = any(a[0] == "op" and ((a[1] == "==" and b) or (a[1] != "==" and not b)) and any(x[:2] == ("op", "lock") for x in parts(a)) for a, b in s.facts.items())
            rep.check("a change posts one reload", nm, dead, w, "no reload is posted although the manager is alive", s.path())
            continue
        posts += 1
        args = ps[0][3]
        runner = [n for _, n in fields_of(p, MANAGER, lambda fl: "TaskRunner" in fl["t"])]
        rep.check("reloads run on the manager's own sequence", nm, any(n in str(ps[0][2]) or n in str(ps[0][1]) for n in runner), w, "another runner is used", s.path())
        rep.check("a posted reload keeps only a weak reference to the manager", nm, any(isinstance(a, tuple) and (a[0] == "weak" or "weak" in str(a)[:400]) for a in args), w,
                  "no weak reference is given", s.path())
        tl = [unwrap(a) for a in args if unwrap(a) is not None and unwrap(a)[0] == "lam"]
        rep.check("the task posted reloads the file", nm, len(tl) == 1 and reloads(p, I, R, s, tl[0]), w, "the task does not reload", s.path())
    rep.check("a change posts one reload", nm, posts > 0, w, "no reload is ever posted")


def reloads(p, I, R, s, lam):
    g = p.funcs[I.lambda_ops(lam[1])[0]]
    n0 = len(R.evs(s, "reload"))
    outs = I.run_function(s.copy(), g, None, [("s", "arg", i) for i in range(len(g.params))], None, None, caps=I.lambda_caps(lam))
    return bool(outs) and all(len(R.evs(x, "reload")) == n0 + 1 for x, kind, _ in outs if kind == "ret")


def g02(p, rep, thorough):
    vals = list(sections(p))
    rep.require(len(vals) == 1, "the manager's values are not one JSON member")
    manager_values(p, rep)
    configs = manager_map(p, rep)
    ups = manager_tops(p, lambda k: k.split("(")[0].rsplit("::", 1)[-1].startswith("parse_"))
    rep.require(len(ups) >= 1, "no function of the manager parses the file")
    for f in ups:
        reload(p, rep, f, vals[0][1], configs)
    watching(p, rep, ups)
    stored(p, rep)
    esc = escapes(p)
    for f in ups:
        not_thrown(p, rep, "a reload never stops later ones", f.key, esc, "a reload")
    rep.explanation = "Typestate of the manager's values over every path of its functions, the reload's handling of each configuration, and the callback chain."
    rep.assumptions += ASSUME


class StoreRule(Trace):
    def on_write(self, I, st, fr, n, loc, val):
        if loc[0] == "f" and loc[1] == THIS:
            st.set("wrote", (loc, val, bool([1 for m, k in st.held if k == "x" and m[0] == "f" and m[1] == THIS])))

    def __init__(self, p):
        self.p = p

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q == "fly::Json::operator=" and obj is not None and args:
            v = content(I, st, args[0])
            I.write(st, obj, v)
            self.on_write(I, st, fr, n, obj, v)
            return [(st, ("&", obj))]
        if q == "fly::Json::<ctor>" and len(args) == 1:
            return [(st, content(I, st, args[0]))]
        return None


def stored(p, rep):
    """A configuration takes over the values it is given, under its exclusive lock."""
    vals = fields_of(p, CONFIG, lambda fl: strip_type(fl["t"]) == JSON, bases=False)
    for f in p.q(CONFIG + "::update"):
        R = StoreRule(p)
        I = Interp(p, R)
        for st, kind, val in I.run_entry(f):
            wr = st.get("wrote")
            ok = wr is not None and wr[0][2] == vals[0][1] and wr[1] == ("s", "init", ("r", "param", 0)) and wr[2]
            rep.check("a configuration stores the values it is given, exclusively", short_q(f.q), ok, rep.where(f), f"stored: {str(wr)[:160]}", st.path())
        rep.absorb(I)


RULES = {"E01": e01, "E02": e02, "R01": r01, "G01": g01, "G02": g02}
