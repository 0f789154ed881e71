"""Path-sensitive abstract interpretation of the dumped control flow graphs.

Every path of an entry function is followed through its graph; calls into the repository are
inlined (virtual calls over every override), the standard library is modelled by the table in
models.py, and whatever is unknown is an opaque symbol. Branches whose condition is decided by the
facts collected on the path are pruned, so that the order of independent tests, helper extraction
and other rewritings do not change what a rule sees: rules observe events (calls, lock operations,
field accesses, throws, returns), never syntax. No solver is involved: facts are equalities with
constants, integer intervals and truth values of terms.
"""
from . import bounds
from .load import AnalysisBroken

ZERO = ("c", 0)
ONE = ("c", 1)
BOOLOPS = {"==", "<", "!", "empty", "has", "b"}


class Limit(Exception):
    pass


def is_const(v):
    return v[0] == "c"


def addr(loc):
    return ("&", loc)


def neg(t):
    if t[0] == "c":
        return ONE if not t[1] else ZERO
    if t[0] == "op" and t[1] == "!":
        return t[2]
    return ("op", "!", t)


def is_boolterm(v):
    return v[0] == "op" and v[1] in BOOLOPS


def _addends(v):
    """An address as (base address, what is added to it), or None."""
    extra = []
    while v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
        if v[1] == "+" and v[3][0] == "&":
            v = ("op", "+", v[3], v[2])
        extra.append((v[1], v[3]))
        v = v[2]
    return (v, extra) if v[0] == "&" else None


def _distance(a, b):
    """Two addresses in one object as the offsets to compare (an address never wraps), or None."""
    if "&" not in (a[0], b[0]) and not (a[0] == "op" and b[0] == "op"):
        return None
    x, y = _addends(a), _addends(b)
    if x is None or y is None or x[0] != y[0] or not (x[1] or y[1]):
        return None
    ex, ey = x[1], y[1]
    while ex and ey and ex[-1] == ey[-1]:
        ex, ey = ex[:-1], ey[:-1]

    def total(es):
        r = ZERO
        for s, v in reversed(es):
            if r == ZERO and s == "+":
                r = v
            elif r[0] == "c" and v[0] == "c":
                r = ("c", r[1] + v[1] if s == "+" else r[1] - v[1])
            else:
                r = ("op", s, r, v)
        return r

    return total(ex), total(ey)


def mk_eq(a, b):
    if a == b and a[0] != "top":
        return ONE
    d = _distance(a, b)
    if d is not None:
        a, b = d
        if a == b and a[0] != "top":
            return ONE
    if a[0] == "c" and b[0] == "c":
        return ONE if a[1] == b[1] else ZERO
    if a[0] == "c":
        a, b = b, a
    nonnull = ("&", "fn", "lam", "str", "some", "agg")
    if b == ZERO:
        if a[0] in nonnull:
            return ZERO
        if is_boolterm(a):
            return neg(a)
        if a[0] == "op" and a[1] == "size":
            return ("op", "empty", a[2])
    if b == ONE and is_boolterm(a):
        return a
    if b[0] != "c" and repr(a) > repr(b):
        a, b = b, a
    return ("op", "==", a, b)


def mk_lt(a, b):
    d = _distance(a, b)
    if d is not None:
        a, b = d
    if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        return ONE if a[1] < b[1] else ZERO
    if a == b and a[0] != "top":
        return ZERO
    if a == ZERO and b[0] == "op" and b[1] == "size":
        return neg(("op", "empty", b[2]))
    if b == ONE and a[0] == "op" and a[1] == "size":
        return ("op", "empty", a[2])
    if b == ZERO and a[0] == "op" and a[1] == "size":
        return ZERO
    return ("op", "<", a, b)


def to_bool(v):
    if v[0] == "c":
        return ONE if v[1] else ZERO
    if is_boolterm(v):
        return v
    return neg(mk_eq(v, ZERO))


def subterms(v, out):
    """All symbols and locations named in a value."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and x[0] == "s":
                out.add(x)
            stack.extend(y for y in x if isinstance(y, tuple))


_sub_cache = {}


def symbols(v):
    r = _sub_cache.get(v)
    if r is None:
        out = set()
        subterms(v, out)
        r = frozenset(out)
        if len(_sub_cache) > 400000:
            _sub_cache.clear()
        _sub_cache[v] = r
    return r


_fid_cache = {}


def _frames(v, out):
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and x[0] in ("v", "t") and len(x) >= 3:
                out.add(x[1])
            stack.extend(y for y in x if isinstance(y, tuple))


def frames_in(v):
    r = _fid_cache.get(v)
    if r is None:
        out = set()
        _frames(v, out)
        r = frozenset(out)
        if len(_fid_cache) > 400000:
            _fid_cache.clear()
        _fid_cache[v] = r
    return r


def root(loc):
    while loc[0] in ("f", "el", "base"):
        loc = loc[1]
    return loc


def substitute(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        if old not in symbols(v):
            return v
        return tuple(substitute(x, old, new) if isinstance(x, tuple) else x for x in v)
    return v


class State:
    __slots__ = ("store", "facts", "held", "mon", "vals", "live", "trail", "loops")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.held = ()
        self.mon = {}
        self.vals = {}
        self.live = ()
        self.trail = None
        self.loops = {}

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.held = self.held
        s.mon = dict(self.mon)
        s.vals = dict(self.vals)
        s.live = self.live
        s.trail = self.trail
        s.loops = dict(self.loops)
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.held,
                frozenset(self.mon.items()), frozenset(self.vals.items()), self.live)

    def note(self, text):
        depth = self.trail[2] + 1 if self.trail else 1
        self.trail = (self.trail, text, depth)

    def path(self, last=30):
        out = []
        t = self.trail
        while t is not None and len(out) < last:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))

    def get(self, k, d=None):
        return self.mon.get(k, d)

    def set(self, k, v):
        self.mon[k] = v

    # ---- facts -------------------------------------------------------------------------------
    def const(self, v):
        """The constant a value is known to have, or the value itself."""
        if v[0] == "c":
            return v
        k = self.facts.get(("k", v))
        if k is not None:
            return k
        if is_boolterm(v):
            t = self.truth(v)
            if t is not None:
                return ONE if t else ZERO
        return v

    def interval(self, v):
        if v[0] == "c" and isinstance(v[1], (int, float)):
            return v[1], v[1]
        k = self.facts.get(("k", v))
        if k is not None and isinstance(k[1], (int, float)):
            return k[1], k[1]
        lo, hi = self.facts.get(("lo", v)), self.facts.get(("hi", v))
        if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
            a, b = self.interval(v[2]), self.interval(v[3])
            if v[1] == "+":
                l2 = None if a[0] is None or b[0] is None else a[0] + b[0]
                h2 = None if a[1] is None or b[1] is None else a[1] + b[1]
            else:
                l2 = None if a[0] is None or b[1] is None else a[0] - b[1]
                h2 = None if a[1] is None or b[0] is None else a[1] - b[0]
            lo = l2 if lo is None else lo
            hi = h2 if hi is None else hi
        return lo, hi

    def truth(self, t):
        if t[0] == "c":
            return bool(t[1])
        if t[0] in ("&", "fn", "lam", "str", "some", "agg"):
            return True
        if t[0] == "none":
            return False
        if t[0] == "op":
            if t[1] == "!":
                r = self.truth(t[2])
                return None if r is None else not r
            f = self.facts.get(t)
            if f is not None:
                return f
            if t[1] == "==":
                a, b = self.const(t[2]), self.const(t[3])
                if a[0] == "c" and b[0] == "c":
                    return a[1] == b[1]
                if b[0] == "c":
                    la, ha = self.interval(a)
                    if isinstance(b[1], (int, float)):
                        if la is not None and b[1] < la:
                            return False
                        if ha is not None and b[1] > ha:
                            return False
                if (a, b) != (t[2], t[3]):
                    t2 = mk_eq(a, b)
                    if t2 != t:
                        return self.truth(t2)
                return None
            if t[1] == "<":
                la, ha = self.interval(t[2])
                lb, hb = self.interval(t[3])
                if ha is not None and lb is not None and ha < lb:
                    return True
                if la is not None and hb is not None and la >= hb:
                    return False
                # a < b and b < a exclude each other; a == b excludes both.
                if self.facts.get(("op", "<", t[3], t[2])):
                    return False
                e = mk_eq(t[2], t[3])
                if e[0] == "op" and self.facts.get(e):
                    return False
                return None
            if t[1] in BOOLOPS:
                return None
        e = mk_eq(t, ZERO)
        if e[0] == "op" and e[1] == "==":
            r = self.truth(e)
            return None if r is None else not r
        return None

    def assume(self, t, want):
        """Adds the fact; False when it contradicts what is known."""
        if t[0] == "op" and t[1] == "!":
            return self.assume(t[2], not want)
        cur = self.truth(t)
        if cur is not None:
            return cur == want
        if t[0] == "op" and t[1] in BOOLOPS:
            self.facts[t] = want
            if t[1] == "==":
                a, b = t[2], t[3]
                if b[0] == "c":
                    if want:
                        self.facts[("k", a)] = b
                    elif isinstance(b[1], int):
                        lo, hi = self.interval(a)
                        if lo is not None and lo == b[1]:
                            self.facts[("lo", a)] = lo + 1
                        if hi is not None and hi == b[1]:
                            self.facts[("hi", a)] = hi - 1
            elif t[1] == "<":
                a, b = t[2], t[3]
                la, ha = self.interval(a)
                lb, hb = self.interval(b)
                if want:
                    if hb is not None and isinstance(hb, int) and a[0] != "c" and (ha is None or ha > hb - 1):
                        self.facts[("hi", a)] = hb - 1
                    if la is not None and isinstance(la, int) and b[0] != "c" and (lb is None or lb < la + 1):
                        self.facts[("lo", b)] = la + 1
                else:
                    if lb is not None and a[0] != "c" and (la is None or la < lb):
                        self.facts[("lo", a)] = lb
                    if ha is not None and b[0] != "c" and (hb is None or hb > ha):
                        self.facts[("hi", b)] = ha
            return True
        e = mk_eq(t, ZERO)
        if e[0] == "c":
            return bool(e[1]) != want
        if e[0] == "op" and e[1] == "==":
            return self.assume(e, not want)
        return self.assume(e, not want)


def engaged(st, v):
    """Whether the optional holds a value, where that is known."""
    if v[0] in ("some", "none"):
        return v[0] == "some"
    return st.truth(("op", "has", v)) if v[0] in ("s", "op") else None


class Frame:
    __slots__ = ("f", "fid", "this", "parent", "depth", "caps", "site")

    def __init__(self, f, fid, this, parent, caps=None, site=None):
        self.f = f
        self.fid = fid
        self.this = this
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.caps = caps or {}
        self.site = site

    def stack(self):
        fr, out = self, []
        while fr is not None:
            out.append(fr.f.key)
            fr = fr.parent
        return out


class Rule:
    """What a rule may observe. The default observes nothing."""
    max_depth = 14
    unroll = 2
    numeric = False       # decide and join with difference bounds (engine/bounds.py)
    max_states = 60000
    max_per_block = 48

    # Files whose functions are opaque and touch no state of the module under analysis.
    quiet_files = ("fly/types/string/", "fly/logger/", "fly/types/json/", "fly/types/numeric/", "fly/assert/",
                   "fly/coders/", "fly/parser/")

    def quiet(self, key, I):
        f = I.p.funcs.get(key)
        if f is None:
            return False
        for d in self.quiet_files:
            if d in f.file:
                return True
        return False

    def inline(self, key, fr):
        return True

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        pass

    def on_field(self, I, st, fr, n, loc, nd):
        pass

    def on_read(self, I, st, fr, n, loc, val):
        pass

    def on_write(self, I, st, fr, n, loc, val):
        pass

    def on_lock(self, I, st, fr, n, loc, kind):
        pass

    def on_unlock(self, I, st, fr, n, loc):
        pass

    def on_wait(self, I, st, fr, n, cv, lockloc, mutex, pred):
        pass

    def on_arith(self, I, st, fr, n, op, a, b, nd):
        """An arithmetic operation on two values."""

    def on_invoke(self, I, st, fr, n, fval, args):
        """An unknown std::function/callable runs. May return a list of (state, value)."""
        return None

    def on_dtor(self, I, st, fr, loc, typ, line):
        pass

    def on_delete(self, I, st, fr, n, val):
        pass

    def on_throw(self, I, st, fr, n, tt):
        pass

    def on_return(self, I, st, fr, val):
        pass

    def may_throw(self, I, st, fr, n, nd, key, q):
        """Type name of an exception the opaque call may raise, or None."""
        return None

    def dyn_type(self, I, loc):
        return None


class Interp:
    def __init__(self, prog, rule):
        from . import models
        self.p = prog
        self.rule = rule
        self.models = models
        self.fids = {}
        self.dyn = {}
        self.stats = {"functions": set(), "paths": 0, "calls": set(), "opaque": set(), "truncated": 0,
                      "merged": 0, "states": 0}
        self._lam = {}
        self._inl = {}
        self._field_types = {}
        self._ref_fields = {}

    # ---- helpers -----------------------------------------------------------------------------
    def fid(self, parent, site, key):
        k = (parent.fid if parent else None, site, key)
        r = self.fids.get(k)
        if r is None:
            r = len(self.fids) + 1
            self.fids[k] = r
        return r

    def fresh(self, st, fr, n, tag=""):
        """A symbol named by its site; an older value of the same name becomes anonymous."""
        s = ("s", fr.fid, n, tag)
        self.retire(st, s)
        return s

    def retire(self, st, s):
        used = False
        for k, v in st.store.items():
            if s in symbols(v) or s in symbols(k):
                used = True
                break
        if not used:
            for v in st.vals.values():
                if s in symbols(v):
                    used = True
                    break
        if not used:
            for v in st.mon.values():
                if isinstance(v, tuple) and s in symbols(v):
                    used = True
                    break
        if used:
            old = s + ("old",)
            # Whatever was known of the value that already carries the old name is dropped.
            self.drop_facts(st, old)
            if any(old in symbols(v) for v in st.store.values()):
                o2 = s + ("older",)
                self.drop_facts(st, o2)
                self.rename(st, old, o2)
            self.rename(st, s, old)
        else:
            self.drop_facts(st, s)

    def rename(self, st, a, b):
        st.store = {substitute(k, a, b): substitute(v, a, b) for k, v in st.store.items()}
        st.vals = {k: substitute(v, a, b) for k, v in st.vals.items()}
        st.facts = {substitute(k, a, b): (substitute(v, a, b) if isinstance(v, tuple) else v)
                    for k, v in st.facts.items()}
        st.mon = {k: (substitute(v, a, b) if isinstance(v, tuple) else v) for k, v in st.mon.items()}
        st.held = substitute(st.held, a, b) if st.held else st.held

    def drop_facts(self, st, s):
        dead = [k for k in st.facts if s in symbols(k)]
        for k in dead:
            del st.facts[k]

    def deref(self, v):
        if v[0] == "&":
            return v[1]
        if v[0] == "op" and v[1] == "lock":
            w = v[2]
            if w[0] == "weak":
                return self.deref(w[1])
            return ("o", ("wk", w))
        if v[0] == "some":
            return self.deref(v[1])
        return ("o", v)

    def read(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            has_sub = False
            if v[0] != "&" and v[0] != "c":
                for k in st.store:
                    while k[0] == "f":
                        if k[1] == loc:
                            has_sub = True
                            break
                        k = k[1]
                    if has_sub:
                        break
            if not has_sub:
                return v
            return self.freeze(st, loc)
        if loc[0] == "f":
            p = self.read_base(st, loc[1])
            if p is not None:
                sub = self.project(p, loc[2])
                items = self.overrides(st, loc)
                if items:
                    return ("agg", sub, items)
                return sub
        items = self.overrides(st, loc)
        base = self.given(loc)
        if items:
            return ("agg", base, items)
        return base

    def given(self, loc):
        """What a place holds that nothing has been stored to."""
        if loc[0] == "o" and loc[1][0] in ("lam", "agg"):
            return loc[1]
        return ("s", "init", loc)

    def project(self, p, field):
        while True:
            if p[0] == "agg":
                for k, v in p[2]:
                    if k == field:
                        return v
                p = p[1]
                continue
            if p[0] == "some" and field == "?val":
                return p[1]
            return ("op", "fld", p, field)

    def read_base(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == "o" and loc[1][0] in ("lam", "agg"):
            return loc[1]
        if loc[0] == "f":
            p = self.read_base(st, loc[1])
            if p is not None:
                return self.project(p, loc[2])
        return None

    def overrides(self, st, loc):
        items = []
        for k in st.store:
            while k[0] == "f":
                if k[1] == loc:
                    items.append(k[2])
                    break
                k = k[1]
        return tuple(sorted((m, self.read(st, ("f", loc, m))) for m in set(items)))

    def freeze(self, st, loc):
        items = self.overrides(st, loc)
        base = st.store.get(loc)
        if base is None:
            if loc[0] == "f":
                p = self.read_base(st, loc[1])
                base = self.project(p, loc[2]) if p is not None else ("s", "init", loc)
            else:
                base = self.given(loc)
        if not items:
            return base
        if base[0] == "agg":
            d = dict(base[2])
            d.update(items)
            return ("agg", base[1], tuple(sorted(d.items())))
        return ("agg", base, items)

    def clear(self, st, loc):
        # A store below keeps its meaning only relative to the object it is part of.
        dead = [k for k in st.store if k != loc and k[0] in ("f", "el") and self.under(k, loc)]
        for k in dead:
            del st.store[k]
        st.store.pop(loc, None)

    def under(self, k, loc):
        while k[0] in ("f", "el"):
            if k == loc:
                return True
            k = k[1]
        return k == loc

    def write(self, st, loc, v):
        self.clear(st, loc)
        if v[0] == "agg":
            st.store[loc] = v[1]
            for m, x in v[2]:
                self.write(st, ("f", loc, m), x)
        else:
            st.store[loc] = v

    def havoc(self, st, loc, fr, n, tag=""):
        s = self.fresh(st, fr, n, ("h", tag) if tag else "h")
        self.clear(st, loc)
        st.store[loc] = ("op", "at", s, loc)

    def havoc_shared(self, st, fr, n):
        """Code that may touch any object but this activation's locals runs."""
        dead = [k for k in st.store if root(k)[0] in ("o", "g", "h", "r")]
        if dead:
            s = self.fresh(st, fr, n, "hs")
            tops = set()
            for k in dead:
                st.store.pop(k, None)
                tops.add(k)
            for k in tops:
                if not any(self.under(k, t) and k != t for t in tops):
                    st.store[k] = ("op", "at", s, k)

    def is_ref_type(self, t):
        return is_ref(t)

    def field_is_ref(self, mr, m):
        key = (mr, m)
        r = self._ref_fields.get(key)
        if r is None:
            r = False
            rec = self.p.records.get(mr)
            if rec:
                for fl in rec["fields"]:
                    if fl["n"] == m and is_ref(fl["t"]):
                        r = True
            self._ref_fields[key] = r
        return r

    def type_at(self, fr, loc):
        return None

    def lambda_ops(self, rec):
        r = self._lam.get(rec)
        if r is None:
            r = sorted(k for k, f in self.p.funcs.items() if f.record == rec and f.name == "operator()")
            self._lam[rec] = r
        return r

    def q(self, key):
        return self.p.decl_q(key) if key else ""

    def inlinable(self, key, fr, n=None):
        self.site = n
        c = self._inl.get(key)
        if c is None:
            c = not self.rule.quiet(key, self)
            self._inl[key] = c
        return c and self.rule.inline(key, fr)

    # ---- running -----------------------------------------------------------------------------
    def run_entry(self, f, this=None, args=None, st=None):
        """Yields (state, kind, value) for every way the entry ends."""
        st = st or State()
        if this is None and f.record and not f.static and not f.is_lambda:
            this = ("r", "this")
        return self.run_function(st, f, this, args, None, None)

    def run_function(self, st, f, this, args, parent, site, caps=None):
        f.prepare()
        fr = Frame(f, self.fid(parent, site, f.key), this, parent, caps, site)
        self.stats["functions"].add(f.key)
        fid = fr.fid
        for i, p in enumerate(f.params):
            loc = ("v", fid, p["v"])
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
                if is_ref(p["t"]):
                    if v[0] != "&":
                        tl = ("t", fid, "arg%d" % i)
                        self.write(st, tl, v)
                        v = ("&", tl)
                    st.store[loc] = v
                else:
                    if v[0] == "&" and not p["t"].rstrip().endswith("*") and self.byval_class(p["t"]):
                        # A class argument handed as a location.
                        v = self.read(st, v[1])
                    self.write(st, loc, v)
            else:
                if is_ref(p["t"]):
                    st.store[loc] = ("&", ("r", "param", i))
                else:
                    st.store[loc] = ("s", "param", i, fid)
        for name, v in (caps or {}).items():
            if v[0] != "ref":
                self.write(st, ("v", fid, "cap:" + name), v[1])
        st.note(f"enter {short_q(f.q)} ({f.loc()})")
        finals = []
        seen = {}
        work = [(st, f.entry, 0, None)]
        loops = {}
        nstates = 0
        merged = {}
        while work:
            s, b, idx, _ = work.pop()
            blk = f.blocks[b]
            if idx == 0:
                self.gc_block(s, fr, b)
                k = s.key()
                sb = seen.setdefault(b, set())
                if k in sb:
                    continue
                nstates += 1
                self.stats["states"] += 1
                if self.stats["states"] > self.rule.max_states:
                    raise Limit(f"{f.key}: more than {self.rule.max_states} abstract states")
                sb.add(k)
                if len(sb) > self.rule.max_per_block or s.loops.get((fid, b), 0) > self.rule.unroll:
                    s = self.join_into(merged, b, s, fr)
                    self.stats["merged"] += 1
                    if s is None:
                        continue
                    self.gc_facts(s)
                    k2 = s.key()
                    if k2 != k and k2 in sb:
                        continue
                    sb.add(k2)
            els = blk["e"]
            done = False
            while idx < len(els):
                e = els[idx]
                idx += 1
                outs = self.element(s, fr, e)
                if outs is None:
                    continue
                if len(outs) == 1 and outs[0][1] is None:
                    s = outs[0][0]
                    continue
                for s2, oc in outs:
                    if oc is None:
                        work.append((s2, b, idx, None))
                        # resume in the middle of the block
                    else:
                        self.throw_from(s2, fr, e, oc, work, finals)
                done = True
                break
            if done:
                continue
            # terminator
            if b == f.exit or not blk["s"]:
                if blk.get("noret"):
                    continue
                v = s.vals.pop((fid, "ret"), None)
                finals.append((s, "ret", v))
                continue
            if blk.get("noret"):
                continue
            for s2, nb in self.branch(s, fr, blk):
                if nb == f.exit:
                    v = s2.vals.pop((fid, "ret"), None)
                    finals.append((s2, "ret", v))
                    continue
                if blk.get("loopback") is not None or self.is_back(f, b, nb):
                    kk = (fid, nb)
                    cnt = s2.loops.get(kk, 0) + 1
                    if cnt > self.rule.unroll + 12:
                        self.stats["truncated"] += 1
                        continue
                    s2.loops[kk] = cnt
                work.append((s2, nb, 0, None))
        out = []
        for s, kind, v in finals:
            if v is None:
                v = ("void",)
            if kind == "ret":
                self.rule.on_return(self, s, fr, v)
            keep = v
            self.pop_frame(s, fr, keep)
            s.note(f"leave {short_q(f.q)}")
            out.append((s, kind, v))
        # Distinct abstract outcomes only.
        ded = {}
        for s, kind, v in out:
            kk = (s.key(), kind, v)
            if kk not in ded:
                ded[kk] = (s, kind, v)
        res = list(ded.values())
        if parent is None:
            self.stats["paths"] += len(res)
        return res

    def byval_class(self, t):
        return not t.endswith("*") and "(*)" not in t

    def is_back(self, f, b, nb):
        return nb >= b and f.blocks[nb].get("t") is not None and False

    def gc_block(self, s, fr, b):
        f, fid = fr.f, fr.fid
        live = f.live_in.get(b)
        # values of expressions needed in other blocks only
        if s.vals:
            s.vals = {k: v for k, v in s.vals.items() if k[0] != fid or k[1] == "ret" or k[1] in f.escaping}
        dead = []
        livefr = None
        for k in s.store:
            r = root(k)
            if r[0] == "v" and r[1] == fid and not (isinstance(r[2], str) and r[2].startswith("cap:")):
                if live is not None and r[2] not in live and (fid, r[2]) not in [(x[0], x[1]) for x in s.live]:
                    dead.append(k)
        if dead:
            refd = set()
            for k, v in s.store.items():
                if k in dead:
                    continue
                self.roots_in(v, refd)
            for v in s.vals.values():
                self.roots_in(v, refd)
            for k in dead:
                if root(k) not in refd:
                    del s.store[k]
        self.gc_facts(s)

    def roots_in(self, v, out):
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x and x[0] in ("v", "t") and len(x) == 3:
                    out.add(x)
                stack.extend(y for y in x if isinstance(y, tuple))

    def gc_facts(self, s):
        if not s.facts:
            return
        alive = set()
        for k, v in s.store.items():
            alive |= symbols(v)
            alive |= symbols(k)
        for v in s.vals.values():
            alive |= symbols(v)
        for v in s.mon.values():
            if isinstance(v, tuple):
                alive |= symbols(v)
        dead = [k for k in s.facts if not self.fact_alive(k, alive)]
        for k in dead:
            del s.facts[k]

    def fact_alive(self, k, alive):
        for x in symbols(k):
            if x not in alive and x[1] != "init" and x[1] != "param":
                return False
        return True

    def pop_frame(self, s, fr, keep):
        fid = fr.fid
        s.vals = {k: v for k, v in s.vals.items() if k[0] != fid}
        refd = set()
        self.roots_in(keep, refd)
        for k, v in s.store.items():
            r = root(k)
            if not (r[0] in ("v", "t") and r[1] == fid):
                if frames_in(v):
                    self.roots_in(v, refd)
        for v in s.vals.values():
            self.roots_in(v, refd)
        dead = [k for k in s.store if (lambda r: r[0] in ("v", "t") and r[1] == fid and r not in refd)(root(k))]
        for k in dead:
            del s.store[k]
        s.live = tuple(x for x in s.live if x[0] != fid)
        s.loops = {k: v for k, v in s.loops.items() if k[0] != fid}
        if fr.parent is not None:
            self.gc_facts_keep(s, keep)

    def gc_facts_keep(self, s, keep):
        s.vals[("keep", 0)] = keep
        self.gc_facts(s)
        del s.vals[("keep", 0)]

    def join_into(self, merged, b, s, fr):
        """Joins a state into the accumulated one of its block with equal monitors."""
        flags = tuple(sorted((k[2], v[1]) for k, v in s.store.items() if v in (ZERO, ONE)
                             and k[0] == "v" and k[1] == fr.fid and k[2] in fr.f.bools))
        vals = tuple(sorted((k[1], v[1]) for k, v in s.vals.items() if v in (ZERO, ONE)
                            and k[0] == fr.fid and k[1] in fr.f.logic_rhs))
        mk = (b, s.held, frozenset(s.mon.items()), s.live, flags, vals)
        acc = merged.get(mk)
        if acc is None:
            merged[mk] = s.copy()
            return s
        store = {}
        mine = set()
        for k in set(acc.store) | set(s.store):
            if k in acc.store and k in s.store and acc.store[k] == s.store[k]:
                store[k] = acc.store[k]
            else:
                # Unknown on one side: an unwritten location still has its initial value there.
                own = ("s", "join", fr.fid, b, k)
                store[k] = joined(acc.store.get(k), s.store.get(k), own)
                mine.add(own)
        vals = {}
        for k in set(acc.vals) | set(s.vals):
            if acc.vals.get(k) == s.vals.get(k):
                vals[k] = acc.vals[k]
            else:
                own = ("s", "joinv", fr.fid, b, k)
                vals[k] = joined(acc.vals.get(k), s.vals.get(k), own)
                mine.add(own)
        # A joined symbol stands for a new value: whatever else named the old one is unknown too.
        again = True
        while again:
            again = False
            for k, v in list(store.items()):
                own = ("s", "join", fr.fid, b, k)
                if own not in mine and symbols(v) & mine:
                    store[k] = joined(v, v, own)
                    mine.add(own)
                    again = True
            for k, v in list(vals.items()):
                own = ("s", "joinv", fr.fid, b, k)
                if own not in mine and symbols(v) & mine:
                    vals[k] = joined(v, v, own)
                    mine.add(own)
                    again = True
        facts = {k: v for k, v in acc.facts.items() if s.facts.get(k) == v}
        dead = [k for k in facts if symbols(k) & mine]
        for k in dead:
            del facts[k]
        # What both sides know about the sign of a joined value is known of the joined value.
        for side, a, b2 in ((store, acc.store, s.store), (vals, acc.vals, s.vals)):
            for k, v in side.items():
                if v in mine and k in a and k in b2 and k[0] != "keep":
                    for mk_t in (lambda x: mk_eq(x, ZERO), lambda x: mk_lt(ZERO, x), lambda x: ("op", "empty", x)):
                        x, y = a[k], b2[k]
                        if x[0] not in ("s", "op", "c") or y[0] not in ("s", "op", "c"):
                            break
                        t1 = acc.truth(mk_t(x))
                        if t1 is not None and t1 == s.truth(mk_t(y)):
                            facts[mk_t(v)] = t1
                    h1, h2 = (engaged(w, x[k]) for w, x in ((acc, a), (s, b2)))
                    if h1 is not None and h1 == h2:
                        facts[("op", "has", v)] = h1
        if self.rule.numeric:
            for side, a, b2 in ((store, acc.store, s.store), (vals, acc.vals, s.vals)):
                for k, v in side.items():
                    if v in mine and k in a and k in b2:
                        for t, want in bounds.common(acc, a[k], s, b2[k], v, mine):
                            facts[t] = want
        if store == acc.store and facts == acc.facts and vals == acc.vals:
            return None
        j = s.copy()
        j.store, j.facts, j.vals = store, facts, vals
        merged[mk] = j.copy()
        return j

    # ---- control -----------------------------------------------------------------------------
    def cond_value(self, st, fr, n):
        f = fr.f
        while True:
            nd = f.nodes[n]
            if (fr.fid, n) in st.vals:
                return st.vals[(fr.fid, n)]
            if nd["k"] == "BinaryOperator" and nd.get("op") in ("&&", "||") and n not in f.elements:
                n = nd["c"][1]
                continue
            return self.get(st, fr, n)

    def branch(self, s, fr, blk):
        f = fr.f
        succs = blk["s"]
        t = blk.get("t")
        if not t:
            return [(s, succs[0])] if succs and succs[0] >= 0 else []
        if t.get("tempdtor"):
            # The temporaries' destructors of a conditionally evaluated operand.
            out = []
            for x in succs:
                if x >= 0:
                    out.append((s if not out else s.copy(), x))
            if len(out) > 1:
                out[1] = (s.copy(), out[1][1])
            return out
        if t["k"] == "SwitchStmt":
            v = self.cond_value(s, fr, t["cond"])
            v = s.const(v)
            out = []
            others = []
            default = None
            for x in succs:
                if x < 0:
                    continue
                lab = f.blocks[x].get("label", {})
                if lab.get("k") == "CaseStmt" and "v" in lab:
                    c = ("c", lab["v"])
                    if "v2" in lab:
                        s2 = s.copy()
                        out.append((s2, x))
                        continue
                    tm = mk_eq(v, c)
                    others.append(tm)
                    s2 = s.copy()
                    if s2.assume(tm, True):
                        s2.note(f"case {lab['v']} ({f.file}:{t['l']})")
                        out.append((s2, x))
                else:
                    default = x
            if default is not None:
                s2 = s.copy()
                if all(s2.assume(tm, False) for tm in others):
                    s2.note(f"no case ({f.file}:{t['l']})")
                    out.append((s2, default))
            return out
        if t["k"] == "CXXTryStmt":
            return [(s, succs[0])] if succs and succs[0] >= 0 else []
        if len(succs) == 1 or "cond" not in t:
            if len([x for x in succs if x >= 0]) == 1:
                return [(s, [x for x in succs if x >= 0][0])]
            if "cond" not in t:
                return [(s.copy(), x) for x in succs if x >= 0]
        v = to_bool(self.cond_value(s, fr, t["cond"]))
        out = []
        tr = s.truth(v)
        if tr is None and self.rule.numeric:
            tr = bounds_truth(s, v)
        for want, x in ((True, succs[0]), (False, succs[1] if len(succs) > 1 else -1)):
            if tr is not None and tr != want:
                continue
            if x < 0:
                if tr is not None:
                    # The graph pruned this edge as constant.
                    other = succs[1] if want else succs[0]
                    if other >= 0:
                        out.append((s.copy(), other))
                continue
            s2 = s.copy()
            if s2.assume(v, want):
                if tr is None:
                    s2.note(f"{'true' if want else 'false'} at {f.file.split('/')[-1]}:{t['l']}")
                out.append((s2, x))
        return out

    def handlers(self, f, tryid):
        for b in f.blocks.values():
            t = b.get("t")
            if t and t.get("k") == "CXXTryStmt" and t.get("tryid") == tryid:
                return [x for x in b["s"] if x >= 0]
        return []

    def catches(self, label_t, tt):
        """yes / maybe / no."""
        if label_t is None:
            return "yes"
        c = strip_type(label_t)
        if tt is None or tt == "?":
            return "maybe"
        t = strip_type(tt)
        if t == c or self.p.is_derived(t, c) or std_derived(t, c, self.p):
            return "yes"
        if std_derived(c, t, self.p) or self.p.is_derived(c, t):
            return "maybe"
        return "no"

    def throw_from(self, s, fr, e, oc, work, finals):
        f = fr.f
        n = e if isinstance(e, int) else e.get("e")
        tid = f.nodes[n].get("try") if isinstance(n, int) and n >= 0 else None
        tt = oc[1]
        while tid is not None and tid >= 0:
            s2list = self.unwind(s, fr, tid)
            s = s2list
            for hb in self.handlers(f, tid):
                lab = f.blocks[hb].get("label", {})
                if lab.get("k") != "CXXCatchStmt":
                    continue
                c = self.catches(lab.get("t"), tt)
                if c == "no":
                    continue
                s2 = s.copy()
                s2.note(f"caught at {f.file.split('/')[-1]}:{lab.get('l')}")
                if "v" in lab:
                    loc = ("v", fr.fid, lab["v"])
                    if lab.get("t", "") and is_ref(lab["t"]):
                        el = ("t", fr.fid, "exc%d" % hb)
                        s2.store[el] = ("s", "exc", fr.fid, hb)
                        s2.store[loc] = ("&", el)
                    else:
                        s2.store[loc] = ("s", "exc", fr.fid, hb)
                s2.vals[(fr.fid, "exc")] = ("exc", tt or "?")
                work.append((s2, hb, 0, None))
                if c == "yes":
                    return
            tid = f.trys[tid].get("parent", -1)
        s = self.unwind(s, fr, None)
        finals.append((s, "throw", ("exc", tt or "?")))

    def unwind(self, s, fr, tid):
        """Destroys the live locals declared inside the try (all of the frame when None)."""
        keep = []
        for x in reversed(s.live):
            if x[0] == fr.fid and (tid is None or self.inside_try(fr.f, x[2], tid)):
                loc = ("v", x[0], x[1])
                typ = fr.f.vars[x[1]]["t"]
                for s2, _ in self.destroy(s, fr, loc, typ, None, n=None) or [(s, None)]:
                    s = s2
                    break
            else:
                keep.append(x)
        s.live = tuple(reversed(keep))
        return s

    def inside_try(self, f, t, tid):
        while t is not None and t >= 0:
            if t == tid:
                return True
            t = f.trys[t].get("parent", -1)
        return False

    # ---- elements ----------------------------------------------------------------------------
    def split(self, st, fr, e):
        """The two outcomes of a truth value that is kept: what it says stays known with it."""
        v = to_bool(self.get(st, fr, e))
        if v[0] not in ("s", "op"):
            return [(st, None)]
        t = st.truth(v)
        if t is not None:
            st.vals[(fr.fid, e)] = ONE if t else ZERO
            return [(st, None)]
        outs = []
        for want in (True, False):
            s2 = st.copy()
            if s2.assume(v, want):
                s2.vals[(fr.fid, e)] = ONE if want else ZERO
                outs.append((s2, None))
        return outs

    def element(self, st, fr, e):
        """Returns None (state updated in place) or a list of (state, None | ('throw', type))."""
        f = fr.f
        if isinstance(e, int):
            outs = self.evaluate(st, fr, e)
            if e in f.logic_rhs:
                outs = [y for s, oc in (outs or [(st, None)])
                        for y in (self.split(s, fr, e) if oc is None else [(s, oc)])]
            return outs
        k = e["k"]
        if k == "init":
            v = self.get(st, fr, e["e"]) if e.get("e", -1) >= 0 else ZERO
            if "m" in e:
                loc = ("f", fr.this, e["m"])
                if v[0] == "built":
                    return None
                v = self.rvalue_for(st, fr, e["e"], v, self.field_is_ref(e.get("mr"), e["m"]))
                st.vals.pop((fr.fid, e["e"]), None)
                self.write(st, loc, v)
                self.rule.on_write(self, st, fr, e["e"], loc, v)
            elif "base" in e and v[0] == "agg":
                for m, x in v[2]:
                    self.write(st, ("f", fr.this, m), x)
            return None
        if k == "autodtor":
            loc = ("v", fr.fid, e["v"])
            st.live = tuple(x for x in st.live if not (x[0] == fr.fid and x[1] == e["v"]))
            r = self.destroy(st, fr, loc, e["t"], e.get("l"), n=None, key=e.get("f"))
            if r is None:
                return None
            return [(s, oc) for s, oc in r]
        if k == "tempdtor":
            n = e.get("e", -1)
            if n is None or n < 0:
                return None
            typ = f.nodes[n].get("t", "")
            v = st.vals.get((fr.fid, n))
            loc = ("t", fr.fid, n)
            if v is None and loc not in st.store:
                return None
            r = self.destroy(st, fr, loc, typ, f.nodes[n].get("l"), n=n, key=e.get("f"), value=v)
            if r is None:
                return None
            return [(s, oc) for s, oc in r]
        if k == "memberdtor":
            loc = ("f", fr.this, e["m"])
            r = self.destroy(st, fr, loc, e["t"], f.line, n=None, key=e.get("f"))
            return None if r is None else [(s, oc) for s, oc in r]
        if k == "basedtor":
            key = e.get("f")
            if key in self.p.funcs and fr.depth < self.rule.max_depth:
                out = []
                for s, kind, v in self.run_function(st, self.p.funcs[key], fr.this, [], fr, ("bd", key)):
                    out.append((s, None))
                return out
            return None
        return None

    def destroy(self, st, fr, loc, typ, line, n=None, key=None, value=None):
        """Runs a destructor. None when nothing forked."""
        self.rule.on_dtor(self, st, fr, loc, typ, line)
        if self.models.destroy(self, st, fr, loc, typ, line):
            return None
        if key in self.p.funcs and fr.depth < self.rule.max_depth and self.inlinable(key, fr, n) and \
                key not in fr.stack():
            f = self.p.funcs[key]
            if value is not None and loc not in st.store and value[0] not in ("built", "&"):
                self.write(st, loc, value)
            out = []
            for s, kind, v in self.run_function(st, f, loc, [], fr, ("d", loc[2] if len(loc) > 2 else 0)):
                out.append((s, None))
            return out
        return None

    def get(self, st, fr, n):
        if n is None or n < 0:
            return ZERO
        v = st.vals.get((fr.fid, n))
        if v is not None:
            return v
        r = self.evaluate(st, fr, n, on_demand=True)
        v = st.vals.get((fr.fid, n))
        if v is None:
            v = ("s", "und", fr.fid, n)
            st.vals[(fr.fid, n)] = v
        return v

    def loc_of(self, st, fr, n):
        """The location a node denotes; a prvalue is materialised."""
        v = self.get(st, fr, n)
        nd = fr.f.nodes[n]
        if nd.get("vc") in ("l", "x"):
            if v[0] == "&":
                return v[1]
            return ("o", v)
        if v[0] == "built":
            return v[1]
        loc = ("t", fr.fid, n)
        if loc not in st.store or st.store.get(loc) != v:
            self.write(st, loc, v)
        st.vals[(fr.fid, n)] = ("built", loc)
        return loc

    def rvalue_for(self, st, fr, n, v, isref):
        """The value to initialise an object (or reference) with from node n."""
        if v[0] == "built":
            if isref:
                return ("&", v[1])
            x = self.freeze(st, v[1])
            return x
        if isref:
            if fr.f.nodes[n].get("vc") == "p" and v[0] != "fn":
                loc = ("t", fr.fid, n)
                self.write(st, loc, v)
                return ("&", loc)
            return v
        return v

    def arg_value(self, st, fr, n, ptype):
        """The value passed for a parameter of the type."""
        v = self.get(st, fr, n)
        nd = fr.f.nodes[n]
        if ptype is not None and is_ref(ptype):
            if nd.get("vc") in ("l", "x"):
                return v
            return ("&", self.loc_of(st, fr, n))
        if v[0] == "built":
            return self.freeze(st, v[1])
        if ptype is None and nd.get("vc") in ("l", "x"):
            return v
        if nd.get("vc") in ("l", "x") and v[0] == "&":
            # Passed by value without a copy constructor node: read it.
            return self.read(st, v[1])
        return v

    def evaluate(self, st, fr, n, on_demand=False):
        f = fr.f
        nd = f.nodes[n]
        k = nd["k"]
        fid = fr.fid
        r = None

        def setv(v):
            st.vals[(fid, n)] = v

        if "cv" in nd and nd.get("vc") == "p" and k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            setv(("c", nd["cv"]))
            return None
        if k == "DeclRefExpr":
            setv(self.declref(st, fr, n, nd))
            return None
        if k == "MemberExpr":
            if "m" in nd:
                base = nd["c"][0]
                if nd.get("arrow"):
                    b = self.get(st, fr, base)
                    L = b[1] if b[0] == "built" else self.deref(b)
                else:
                    L = self.loc_of(st, fr, base)
                loc = ("f", L, nd["m"])
                self.rule.on_field(self, st, fr, n, loc, nd)
                if self.field_is_ref(nd.get("mr"), nd["m"]):
                    v = self.read(st, loc)
                    setv(("&", self.deref(v)))
                elif nd.get("vc") == "p":
                    setv(self.read(st, loc))
                else:
                    setv(("&", loc))
            elif "f" in nd:
                setv(("fn", nd["f"]))
            elif "v" in nd:
                setv(("&", ("g", nd["v"])))
            return None
        if k == "CXXThisExpr":
            if "this" in fr.caps:
                setv(fr.caps["this"][1])
            else:
                setv(("&", fr.this) if fr.this is not None else ("s", "this"))
            return None
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            return self.call(st, fr, n, nd)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            return self.construct(st, fr, n, nd)
        if k == "UnaryOperator":
            return self.unary(st, fr, n, nd)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(st, fr, n, nd)
        if k == "ConditionalOperator":
            c, a, b = nd["c"]
            cv = to_bool(self.get(st, fr, c)) if (fid, c) in st.vals else None
            t = st.truth(cv) if cv is not None else None
            if t is None:
                if (fid, a) in st.vals and (fid, b) not in st.vals:
                    t = True
                elif (fid, b) in st.vals and (fid, a) not in st.vals:
                    t = False
            if t is None:
                setv(self.fresh(st, fr, n))
            else:
                x = a if t else b
                v = self.get(st, fr, x)
                if v[0] == "built" and nd.get("vc") == "p":
                    v = self.freeze(st, v[1])
                setv(v)
            return None
        if "ck" in nd:
            self.cast(st, fr, n, nd, setv)
            return None
        if k == "DeclStmt":
            return self.declstmt(st, fr, n, nd)
        if k == "ReturnStmt":
            if nd.get("c"):
                c = nd["c"][0]
                v = self.get(st, fr, c)
                if is_ref(f.ret):
                    if v[0] == "built":
                        v = ("&", v[1])
                else:
                    if v[0] == "built":
                        v = self.freeze(st, v[1])
                    elif f.nodes[c].get("vc") in ("l", "x") and v[0] == "&":
                        v = self.read(st, v[1])
                st.vals[(fid, "ret")] = v
            return None
        if k == "CXXThrowExpr":
            tt = nd.get("tt")
            if nd.get("rethrow"):
                e = st.vals.get((fid, "exc"))
                tt = e[1] if e else "?"
            self.rule.on_throw(self, st, fr, n, tt)
            return [(st, ("throw", tt))]
        if k == "LambdaExpr":
            caps = []
            for c in nd["caps"]:
                if c.get("this"):
                    here = ("&", fr.this) if fr.this is not None else ("s", "this")
                    caps.append(("this", "val", here if "this" not in fr.caps else fr.caps["this"][1]))
                elif c.get("init"):
                    v = self.get(st, fr, c["e"]) if c.get("e", -1) >= 0 else ZERO
                    if c.get("byref"):
                        caps.append((c["n"], "ref", v))
                    else:
                        if v[0] == "built":
                            v = self.freeze(st, v[1])
                        caps.append((c["n"], "val", v))
                elif "v" in c:
                    loc = self.var_loc(st, fr, c["v"], c.get("n"))
                    if c.get("byref"):
                        caps.append((c["n"], "ref", ("&", loc)))
                    else:
                        v = None
                        if c.get("e", -1) >= 0:
                            v = self.get(st, fr, c["e"])
                            if v[0] == "built":
                                v = self.freeze(st, v[1])
                            elif v[0] == "&" and fr.f.nodes[c["e"]].get("vc") in ("l", "x"):
                                v = self.read(st, v[1])
                        if v is None:
                            v = self.read(st, loc)
                        caps.append((c["n"], "val", v))
            setv(("lam", nd["lambda"], tuple(sorted(caps))))
            return None
        if k == "StringLiteral":
            setv(("&", ("g", "str:" + nd.get("s", "?"))))
            return None
        if k == "InitListExpr":
            return self.initlist(st, fr, n, nd)
        if k in ("CXXNullPtrLiteralExpr", "CXXScalarValueInitExpr", "ImplicitValueInitExpr", "GNUNullExpr"):
            setv(ZERO)
            return None
        if k == "CXXRewrittenBinaryOperator":
            setv(self.get(st, fr, nd["c"][0]))
            return None
        if k == "ArraySubscriptExpr":
            b = self.get(st, fr, nd["c"][0])
            i = self.get(st, fr, nd["c"][1])
            L = self.deref(b)
            hook = getattr(self.rule, "on_subscript", None)
            if hook:
                hook(self, st, fr, n, L, i)
            setv(("&", ("el", L, st.const(i))))
            return None
        if k == "CXXNewExpr":
            loc = ("h", fid, n)
            self.retire_loc(st, loc, fr)
            init = nd.get("c", [None])[0] if nd.get("c") else None
            if init is not None and init >= 0:
                v = self.get(st, fr, init)
                if v[0] == "built":
                    v = self.freeze(st, v[1])
                self.write(st, loc, v)
            setv(("&", loc))
            return None
        if k == "CXXDeleteExpr":
            self.rule.on_delete(self, st, fr, n, self.get(st, fr, nd["c"][0]))
            return None
        if k in ("CXXStdInitializerListExpr", "CXXDefaultInitExpr", "CXXDefaultArgExpr", "SubstNonTypeTemplateParmExpr",
                 "ConstantExpr", "ExprWithCleanups", "OpaqueValueExpr", "CXXParenListInitExpr"):
            c = nd.get("c") or []
            if len(c) == 1 and c[0] >= 0:
                setv(self.get(st, fr, c[0]))
            else:
                setv(self.fresh(st, fr, n))
            return None
        if k == "PredefinedExpr":
            setv(("&", ("g", "str:func")))
            return None
        if "vc" in nd:
            v = self.fresh(st, fr, n)
            setv(("&", ("o", v)) if nd["vc"] in ("l", "x") else v)
        return None

    def retire_loc(self, st, loc, fr):
        """A new object of an allocation site: the older ones of the site become a summary."""
        if loc in st.store or any(root(k) == loc for k in st.store):
            old = loc + ("old",)

            def sub(v):
                if v == loc:
                    return old
                if isinstance(v, tuple):
                    return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
                return v
            st.store = {sub(k): sub(v) for k, v in st.store.items()}
            st.vals = {k: sub(v) for k, v in st.vals.items()}
            st.facts = {sub(k): (sub(v) if isinstance(v, tuple) else v) for k, v in st.facts.items()}

    def var_loc(self, st, fr, v, name=None):
        if v.startswith("g:"):
            return ("g", v)
        info = fr.f.vars.get(v)
        nm = name or (info or {}).get("n")
        if nm in fr.caps and not (info or {}).get("local"):
            kind, val = fr.caps[nm]
            if kind == "ref":
                return self.deref(val)
            return ("v", fr.fid, "cap:" + nm)
        loc = ("v", fr.fid, v)
        if info and is_ref(info["t"]):
            p = st.store.get(loc)
            if p is None:
                return ("r", "unbound", v)
            return self.deref(p)
        p = st.store.get(loc)
        if p is not None and p[0] == "alias":
            return p[1]
        return loc

    def declref(self, st, fr, n, nd):
        if "f" in nd:
            return ("fn", nd["f"])
        if "enum" in nd:
            return ("c", nd.get("cv", 0))
        v = nd["v"]
        if nd.get("cap"):
            name = v.split("#")[0]
            if name.startswith("g:"):
                return ("&", ("g", v))
            if name in fr.caps:
                kind, val = fr.caps[name]
                if kind == "ref":
                    return ("&", self.deref(val))
                return ("&", ("v", fr.fid, "cap:" + name))
        if v.startswith("g:"):
            g = self.p.globals.get(v)
            hook = getattr(self.rule, "on_global", None)
            if hook:
                hook(self, st, fr, n, v)
            if nd.get("vc") == "p" and g is not None and isinstance(g.get("value"), int):
                return ("c", g["value"])
            return ("&", ("g", v))
        name = v.split("#")[0]
        if name in fr.caps and v not in fr.f.vars:
            kind, val = fr.caps[name]
            return ("&", self.deref(val) if kind == "ref" else ("v", fr.fid, "cap:" + name))
        return ("&", self.var_loc(st, fr, v))

    def global_value(self, name):
        g = self.p.globals.get(name)
        if g is not None and isinstance(g.get("value"), int) and (g.get("const") or "const" in g.get("t", "")):
            return ("c", g["value"])
        return None

    def cast(self, st, fr, n, nd, setv):
        ck = nd["ck"]
        c = nd["c"][0]
        if ck == "LValueToRValue":
            loc = self.loc_of(st, fr, c)
            if loc[0] == "g":
                gv = self.global_value(loc[1])
                if gv is not None:
                    setv(gv)
                    return
            v = self.read(st, loc)
            self.rule.on_read(self, st, fr, n, loc, v)
            setv(v)
            return
        v = self.get(st, fr, c)
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            setv(to_bool(v))
            return
        if ck in ("NullToPointer", "NullToMemberPointer"):
            setv(ZERO)
            return
        if ck == "Dynamic":
            setv(("op", "dyn", v, nd.get("t", "")) if nd.get("vc") == "p" else v)
            return
        if ck == "ArrayToPointerDecay":
            setv(("&", self.loc_of(st, fr, c)))
            return
        if ck in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
            setv(v if v[0] == "c" else ("op", "fcast", v))
            return
        if ck == "IntegralCast" and v[0] == "c":
            setv(("c", wrap(v[1], nd.get("t", ""))))
            return
        if nd.get("vc") == "p" and v[0] == "built":
            setv(v)
            return
        if nd.get("vc") in ("l", "x") and fr.f.nodes[c].get("vc") == "p" and v[0] != "&" and v[0] != "built":
            setv(("&", self.loc_of(st, fr, c)))
            return
        if nd.get("vc") in ("l", "x") and v[0] == "built":
            setv(("&", v[1]))
            return
        setv(v)

    def unary(self, st, fr, n, nd):
        op = nd["op"]
        c = nd["c"][0]
        fid = fr.fid
        if op in ("++", "--"):
            loc = self.loc_of(st, fr, c)
            old = self.read(st, loc)
            if old[0] == "c" and isinstance(old[1], int) and abs(old[1]) < 6:
                new = ("c", old[1] + (1 if op == "++" else -1))
            else:
                new = self.fresh(st, fr, n, "inc")
                hook = getattr(self.rule, "on_step", None)
                if hook:
                    r = hook(self, st, fr, n, loc, old, new, op)
                    if r is not None:
                        new = r
                lo, hi = st.interval(old)
                if op == "++" and lo is not None:
                    st.facts[("lo", new)] = lo + 1 if isinstance(lo, int) else lo
                elif op == "++" and getattr(self.rule, "numeric", False):
                    if bounds.entails_le(st, ZERO, old):
                        st.facts[("lo", new)] = 1
            self.rule.on_read(self, st, fr, n, loc, old)
            self.write(st, loc, new)
            self.rule.on_write(self, st, fr, n, loc, new)
            st.vals[(fid, n)] = old if nd.get("post") else ("&", loc)
            return None
        v = self.get(st, fr, c)
        if op == "*":
            if fr.f.nodes[c].get("t", "").find("(*)") >= 0 and v[0] == "fn":
                st.vals[(fid, n)] = v
                return None
            hook = getattr(self.rule, "on_deref", None)
            if hook:
                hook(self, st, fr, n, v)
            st.vals[(fid, n)] = ("&", self.deref(v))
        elif op == "&":
            if v[0] in ("fn",):
                st.vals[(fid, n)] = v
            else:
                st.vals[(fid, n)] = ("&", self.loc_of(st, fr, c))
        elif op == "!":
            st.vals[(fid, n)] = neg(to_bool(v))
        elif op == "-" and v[0] == "c":
            st.vals[(fid, n)] = ("c", -v[1])
        elif op == "+":
            st.vals[(fid, n)] = v
        else:
            st.vals[(fid, n)] = ("op", "u" + op, v)
        return None

    def binary(self, st, fr, n, nd):
        op = nd["op"]
        a, b = nd["c"]
        fid = fr.fid
        if op in ("&&", "||"):
            # Evaluated as a value: the operands' outcome on this path is known.
            av = to_bool(self.get(st, fr, a)) if (fid, a) in st.vals or a not in fr.f.elements else None
            t = st.truth(av) if av is not None else None
            if op == "&&" and t is False:
                v = ZERO
            elif op == "||" and t is True:
                v = ONE
            elif t is not None or (fid, b) in st.vals:
                v = to_bool(self.get(st, fr, b))
            else:
                v = self.fresh(st, fr, n)
            st.vals[(fid, n)] = v
            return None
        if op == "=":
            loc = self.loc_of(st, fr, a)
            v = self.get(st, fr, b)
            if v[0] == "built":
                v = self.freeze(st, v[1])
            elif fr.f.nodes[b].get("vc") in ("l", "x") and v[0] == "&":
                v = self.read(st, v[1])
            self.write(st, loc, v)
            self.rule.on_write(self, st, fr, n, loc, v)
            st.vals[(fid, n)] = ("&", loc)
            return None
        if op == ",":
            st.vals[(fid, n)] = self.get(st, fr, b)
            return None
        av = self.get(st, fr, a)
        bv = self.get(st, fr, b)
        if nd.get("compound"):
            loc = self.loc_of(st, fr, a)
            old = self.read(st, loc)
            if fr.f.nodes[b].get("vc") in ("l", "x") and bv[0] == "&":
                bv = self.read(st, bv[1])
            self.rule.on_read(self, st, fr, n, loc, old)
            new = self.arith(st, op[:-1], st.const(old), st.const(bv), nd, fr, n)
            self.write(st, loc, new)
            self.rule.on_write(self, st, fr, n, loc, new)
            st.vals[(fid, n)] = ("&", loc)
            return None
        if op in (".*", "->*"):
            st.vals[(fid, n)] = ("op", op, av, bv)
            return None
        st.vals[(fid, n)] = self.arith(st, op, st.const(av), st.const(bv), nd, fr, n)
        return None

    def arith(self, st, op, a, b, nd, fr, n):
        if op == "==":
            return mk_eq(a, b)
        if op == "!=":
            return neg(mk_eq(a, b))
        if op == "<":
            return mk_lt(a, b)
        if op == ">":
            return mk_lt(b, a)
        if op == "<=":
            return neg(mk_lt(b, a))
        if op == ">=":
            return neg(mk_lt(a, b))
        self.rule.on_arith(self, st, fr, n, op, a, b, nd)
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "/": lambda: int(x / y), "%": lambda: x - y * int(x / y), "&": lambda: x & y,
                     "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y if y < 128 else 0,
                     ">>": lambda: x >> y}.get(op, lambda: None)()
            except ZeroDivisionError:
                r = None
            if r is not None:
                return ("c", wrap(r, nd.get("t", "")))
        if op == "|" and (a[0] == "c" and b[0] == "c") is False:
            if a == ZERO:
                return b
            if b == ZERO:
                return a
        if op in ("+", "-") and b == ZERO:
            return a
        if depth(a) > 4 or depth(b) > 4:
            return self.fresh(st, fr, n, "deep")
        if op in ("+", "*", "&", "|", "^") and repr(a) > repr(b):
            a, b = b, a
        return ("op", op, a, b)

    def declstmt(self, st, fr, n, nd):
        fid = fr.fid
        f = fr.f
        autod = getattr(f, "_autod", None)
        for d in nd["decls"]:
            v = d["v"]
            if d.get("static"):
                continue
            loc = ("v", fid, v)
            if d.get("ref"):
                if d.get("init", -1) >= 0:
                    x = self.get(st, fr, d["init"])
                    st.store[loc] = self.rvalue_for(st, fr, d["init"], x, True)
            elif d.get("init", -1) is not None and d.get("init", -1) >= 0:
                x = self.get(st, fr, d["init"])
                if not (x[0] == "built" and x[1] == loc):
                    if x[0] == "built":
                        x = self.freeze(st, x[1])
                    elif x[0] == "&" and f.nodes[d["init"]].get("vc") in ("l", "x"):
                        x = self.read(st, x[1])
                    self.write(st, loc, x)
            else:
                self.clear(st, loc)
                st.store[loc] = ("s", "uninit", fid, v)
            if not d.get("ref") and self.has_autodtor(f, v):
                st.live = tuple(x for x in st.live if not (x[0] == fid and x[1] == v)) + \
                    ((fid, v, nd.get("try")),)
            for i, b in enumerate(d.get("bindings", ())):
                if "hold" in b and b.get("holdinit", -1) >= 0:
                    x = self.get(st, fr, b["holdinit"])
                    x = self.rvalue_for(st, fr, b["holdinit"], x, True)
                    st.store[("v", fid, b["v"])] = ("alias", self.deref(x))
                elif b.get("e", -1) >= 0:
                    L = self.loc_of(st, fr, b["e"])
                    st.store[("v", fid, b["v"])] = ("alias", L)
                else:
                    base = self.deref(st.store[loc]) if d.get("ref") else loc
                    st.store[("v", fid, b["v"])] = ("alias", ("f", base, "#%d" % i))
        return None

    def has_autodtor(self, f, v):
        s = AUTOD.get(f.key)
        if s is None:
            s = set()
            for b in f.blocks.values():
                for e in b["e"]:
                    if not isinstance(e, int) and e["k"] == "autodtor":
                        s.add(e["v"])
            AUTOD[f.key] = s
        return v in s

    def initlist(self, st, fr, n, nd):
        t = nd.get("t", "")
        cs = nd.get("c", [])
        rec = self.p.records.get(t)
        vals = []
        for c in cs:
            v = self.get(st, fr, c)
            if v[0] == "built":
                v = self.freeze(st, v[1])
            elif fr.f.nodes[c].get("vc") in ("l", "x") and v[0] == "&":
                v = self.read(st, v[1])
            vals.append(v)
        if rec is not None and not rec.get("lambda"):
            fields = [fl["n"] for fl in rec["fields"]]
            items = []
            for i, fl in enumerate(fields):
                items.append((fl, vals[i] if i < len(vals) else ZERO))
            st.vals[(fr.fid, n)] = ("agg", ("s", "agg0"), tuple(sorted(items)))
        elif len(vals) == 1:
            st.vals[(fr.fid, n)] = vals[0]
        elif not vals:
            st.vals[(fr.fid, n)] = ZERO
        else:
            st.vals[(fr.fid, n)] = ("op", "list") + tuple(vals[:8])
        return None

    # ---- calls -------------------------------------------------------------------------------
    def dest_of(self, f, n):
        m = DEST.get(f.key)
        if m is None:
            m = {}
            for i, nd in enumerate(f.nodes):
                for d in nd.get("decls", ()):
                    if d.get("init", -1) is not None and d.get("init", -1) >= 0 and not d.get("ref") and not d.get("static"):
                        m[d["init"]] = ("var", d["v"])
            for b in f.blocks.values():
                for e in b["e"]:
                    if not isinstance(e, int) and e["k"] == "init" and e.get("e", -1) >= 0:
                        m[e["e"]] = ("member", e["m"]) if "m" in e else ("this",)
            DEST[f.key] = m
        return m.get(n)

    def construct(self, st, fr, n, nd):
        key = nd.get("f")
        q = self.q(key)
        t = nd.get("t", "")
        fid = fr.fid
        decl = self.p.decls.get(key, {})
        params = [p["t"] if isinstance(p, dict) else p for p in decl.get("params", [])]
        args = [self.arg_value(st, fr, a, params[i] if i < len(params) else None) for i, a in enumerate(nd.get("args", []))]
        dest = self.dest_of(fr.f, n)
        if dest and dest[0] == "var":
            dloc = ("v", fid, dest[1])
        elif dest and dest[0] == "member" and fr.this is not None:
            dloc = ("f", fr.this, dest[1])
        elif dest and dest[0] == "this" and fr.this is not None:
            dloc = fr.this
        else:
            dloc = None
        r = self.rule.pre_call(self, st, fr, n, nd, key, q, args, dloc)
        if r is not None:
            return self.finish(r, fr, n)
        ctx = self.models.Ctx(self, st, fr, n, nd, key, q, args, dloc, t)
        r = self.models.construct(ctx)
        if r is not None:
            return self.finish_throwing(r, st, fr, n, nd, key, q)
        if key in self.p.funcs:
            f = self.p.funcs[key]
            if f.d.get("defaulted") and len(args) == 1 and args[0][0] == "&" and len(f.params) == 1:
                src = args[0][1]
                v = self.freeze(st, src)
                if f.params[0]["t"].endswith("&&"):
                    self.moved_from(st, fr, n, src, t)
                st.vals[(fid, n)] = v
                return None
            if fr.depth < self.rule.max_depth and key not in fr.stack() and self.inlinable(key, fr, n):
                this = dloc or ("t", fid, n)
                if dloc is None or dest[0] != "this":
                    self.clear(st, this)
                    st.store[this] = ("s", "new", fid, n)
                out = []
                for s, kind, v in self.run_function(st, f, this, args, fr, n):
                    if kind == "throw":
                        out.append((s, ("throw", v[1])))
                    else:
                        s.vals[(fid, n)] = ("built", this)
                        out.append((s, None))
                return out
        elif len(args) == 1 and args[0][0] == "&" and params and params[0].endswith("&") and \
                (t in self.p.records or (not t.startswith("std::") and "::" not in t and strip_type(params[0]) == t)):
            # Implicit copy or move of a repository class or a C structure.
            src = args[0][1]
            v = self.freeze(st, src)
            if params[0].endswith("&&"):
                self.moved_from(st, fr, n, src, t)
            st.vals[(fid, n)] = v
            return None
        self.stats["opaque"].add(q)
        v = ("op", "ctor", q, fid, n) if not args else ("op", "ctor:" + q, ("s", fid, n, "ctor")) + tuple(args[:4])
        if not args:
            v = ("op", "ctor", ("s", "dflt", q))
        else:
            self.retire(st, ("s", fid, n, "ctor"))
        st.vals[(fid, n)] = v
        return self.maybe_throw(st, fr, n, nd, key, q)

    def moved_from(self, st, fr, n, loc, t):
        """The source of a move of a class object: smart pointers and functions become empty."""
        self.models.moved_from(self, st, fr, n, loc, t)

    def maybe_throw(self, st, fr, n, nd, key, q):
        r = self.throws(st, fr, n, nd, key, q)
        return [(st, None)] + r if r else None

    def throws(self, st, fr, n, nd, key, q):
        """The ways a call ends by an exception; the rule names the type, or several."""
        tt = self.rule.may_throw(self, st, fr, n, nd, key, q)
        out = []
        for x in (tt,) if isinstance(tt, str) else tt or ():
            s2 = st.copy()
            s2.vals.pop((fr.fid, n), None)
            s2.note(f"{short_q(q)} throws at {fr.f.loc(n)}")
            out.append((s2, ("throw", x)))
        return out

    def finish(self, r, fr, n):
        """Turns a list of (state, value) or (state, ('throw', t)) into element outcomes."""
        out = []
        for s, v in r:
            if v is not None and v[0] == "throw":
                out.append((s, v))
            else:
                if v is not None:
                    s.vals[(fr.fid, n)] = v
                out.append((s, None))
        return out

    def finish_throwing(self, r, st, fr, n, nd, key, q):
        tt = self.throws(st, fr, n, nd, key, q)
        return self.finish(r, fr, n) + tt

    def call(self, st, fr, n, nd):
        f = fr.f
        key = nd.get("f")
        q = self.q(key) if key else ""
        decl = self.p.decls.get(key, {}) if key else {}
        params = [p["t"] if isinstance(p, dict) else p for p in decl.get("params", [])]
        argn = list(nd.get("args", []))
        obj = None
        if nd["k"] == "CXXMemberCallExpr" and "obj" in nd:
            if nd.get("arrow"):
                ov = self.get(st, fr, nd["obj"])
                obj = ov[1] if ov[0] == "built" else self.deref(ov)
            else:
                obj = self.loc_of(st, fr, nd["obj"])
        elif nd["k"] == "CXXOperatorCallExpr" and decl.get("record") and not decl.get("static") and argn:
            obj = self.loc_of(st, fr, argn[0])
            argn = argn[1:]
        args = [self.arg_value(st, fr, a, params[i] if i < len(params) else None) for i, a in enumerate(argn)]
        self.stats["calls"].add((f.key, n))
        if key is None:
            ce = nd.get("calleeExpr", -1)
            cv = self.get(st, fr, ce) if ce >= 0 else ("s", "callee")
            if cv[0] == "fn":
                key = cv[1]
                q = self.q(key)
            else:
                return self.invoke(st, fr, n, nd, cv, args)
        r = self.rule.pre_call(self, st, fr, n, nd, key, q, args, obj)
        if r is not None:
            return self.finish(r, fr, n)
        ctx = self.models.Ctx(self, st, fr, n, nd, key, q, args, obj, nd.get("t", ""))
        ctx.argn = argn
        r = self.models.call(ctx)
        if r is not None:
            if r == "done":
                return None
            for s, v in r:
                if v is not None and v[0] != "throw":
                    self.after(s, fr, n, key, q, args, obj, v)
            return self.finish_throwing(r, st, fr, n, nd, key, q)
        # Calling a lambda object directly.
        if obj is not None:
            ov = st.store.get(obj)
            if ov is not None and ov[0] == "lam" and q.endswith("operator()"):
                return self.run_lambda(st, fr, n, ov, args, key)
        targets = self.resolve(st, nd, key, obj)
        if targets:
            out = []
            for i, tk in enumerate(targets):
                s = st if i == len(targets) - 1 else st.copy()
                out.extend(self.inline_call(s, fr, n, nd, tk, args, obj))
            return out
        return self.opaque(st, fr, n, nd, key, q, args, obj, params)

    def after(self, st, fr, n, key, q, args, obj, val):
        """Tells the rule about the call's result; arguments naming the site's previous result are given by their new name."""
        if val is not None and any(x[1:3] == (fr.fid, n) and len(x) == 4 for x in symbols(val)):
            for s in [x for x in symbols(val) if x[1:3] == (fr.fid, n) and len(x) == 4]:
                if any(s in symbols(a) for a in args if isinstance(a, tuple)):
                    args = [substitute(substitute(a, s + ("old",), s + ("older",)), s, s + ("old",)) for a in args]
        self.rule.post_call(self, st, fr, n, key, q, args, obj, val)

    def resolve(self, st, nd, key, obj):
        if nd.get("virt"):
            dt = self.dyn.get(obj)
            cands = [t for t in self.p.targets(nd)]
            if dt is not None:
                best = None
                for t in cands:
                    rec = self.p.funcs[t].record
                    if self.p.is_derived(dt, rec):
                        if best is None or self.p.is_derived(rec, self.p.funcs[best].record):
                            best = t
                return [best] if best else []
            hook = getattr(self.rule, "filter_targets", None)
            if hook:
                cands = hook(self, st, nd, key, obj, cands)
            return sorted(set(cands))
        return [key] if key in self.p.funcs else []

    def inline_call(self, st, fr, n, nd, key, args, obj):
        f = self.p.funcs[key]
        q = f.q
        if fr.depth >= self.rule.max_depth or fr.stack().count(key) >= 1 or not self.inlinable(key, fr, n):
            decl = self.p.decls.get(key, {})
            params = [p["t"] if isinstance(p, dict) else p for p in decl.get("params", [])]
            r = self.opaque(st, fr, n, nd, key, q, args, obj, params, repo=True)
            return r if r is not None else [(st, None)]
        if f.d.get("defaulted") and f.name == "operator=" and len(args) == 1 and args[0][0] == "&":
            src = args[0][1]
            v = self.freeze(st, src)
            if f.params[0]["t"].endswith("&&"):
                self.moved_from(st, fr, n, src, f.record)
            self.write(st, obj, v)
            self.rule.on_write(self, st, fr, n, obj, v)
            st.vals[(fr.fid, n)] = ("&", obj)
            return [(st, None)]
        out = []
        this = obj if not f.static else None
        for s, kind, v in self.run_function(st, f, this, args, fr, n):
            if kind == "throw":
                out.append((s, ("throw", v[1])))
            else:
                self.after(s, fr, n, key, q, args, obj, v)
                s.vals[(fr.fid, n)] = v
                out.append((s, None))
        return out

    def opaque(self, st, fr, n, nd, key, q, args, obj, params, repo=False):
        self.stats["opaque"].add(q)
        decl = self.p.decls.get(key, {}) if key else {}
        lams = [self.as_lambda(st, a) for a in args]
        lams = [x for x in lams if x]
        states = [st]
        if lams and not repo and not self.models.stores_callable(q):
            for lam in lams:
                nxt = []
                for s in states:
                    nxt.append(s)
                    cur = [s.copy()]
                    for _ in range(1):
                        ran = []
                        for s1 in cur:
                            ran.extend(self.run_lambda(s1, fr, n, lam, None, None, tag="alg", hint=args))
                        cur = [s1 for s1, oc in ran if oc is None]
                        for s1, oc in ran:
                            if oc is not None:
                                nxt.append((s1, oc))
                        nxt.extend(cur)
                states = []
                thrown = []
                for x in nxt:
                    if isinstance(x, tuple):
                        thrown.append(x)
                    else:
                        states.append(x)
                if thrown:
                    self._pending_throws = thrown
        out = []
        for s in states:
            if repo and not self.rule.quiet(key, self):
                self.havoc_shared(s, fr, n)
            for i, a in enumerate(args):
                pt = params[i] if i < len(params) else ""
                if a[0] == "&" and (is_ref(pt) or pt.endswith("*")) and not pt.startswith("const ") and \
                        root(a[1])[0] != "g":
                    if pt.endswith("&&") and self.models.keeps_moved(q):
                        continue
                    self.havoc(s, a[1], fr, n, i)
                    self.rule.on_write(self, s, fr, n, a[1], ("s", "havoc"))
            if obj is not None and key and not key.rstrip().endswith("const") and not decl.get("static") and \
                    root(obj)[0] in ("v", "t", "r", "o", "h", "f", "el"):
                if not repo or True:
                    self.havoc(s, obj, fr, n, "obj")
            v = self.fresh(s, fr, n)
            if nd.get("vc") in ("l", "x"):
                v = ("&", ("o", v))
            elif nd.get("t", "") == "bool":
                v = to_bool(v)
            s.vals[(fr.fid, n)] = v
            self.after(s, fr, n, key, q, args, obj, v)
            out.append((s, None))
        pt = getattr(self, "_pending_throws", None)
        if pt:
            out.extend(pt)
            self._pending_throws = None
        return out + self.throws(st, fr, n, nd, key, q)

    def as_lambda(self, st, v):
        if v is None:
            return None
        if v[0] == "lam":
            return v
        if v[0] == "&":
            x = st.store.get(v[1])
            if x is not None and x[0] == "lam":
                return x
        return None

    def lambda_caps(self, lam):
        return {name: (kind, val) for name, kind, val in lam[2]}

    def run_lambda(self, st, fr, n, lam, args, key, tag="", hint=None):
        ops = self.lambda_ops(lam[1])
        if key in ops:
            ops = [key]
        if not ops:
            v = self.fresh(st, fr, n)
            st.vals[(fr.fid, n)] = v
            return [(st, None)]
        if fr.stack().count(ops[0]) >= 1 or fr.depth >= self.rule.max_depth + 2:
            st.vals[(fr.fid, n)] = self.fresh(st, fr, n)
            return [(st, None)]
        out = []
        for i, op in enumerate(ops):
            f = self.p.funcs[op]
            s = st if i == len(ops) - 1 else st.copy()
            a = args
            if a is None:
                a = []
                base = None
                for h in hint or ():
                    if h is not None and h[0] == "op" and h[1] in ("begin", "it"):
                        base = h[2]
                for j, p in enumerate(f.params):
                    if is_ref(p["t"]):
                        if base is not None and base[0] == "&":
                            a.append(("&", ("el", base[1])))
                        else:
                            sy = self.fresh(s, fr, n, ("larg", j))
                            a.append(("&", ("o", sy)))
                    else:
                        a.append(self.fresh(s, fr, n, ("larg", j)))
            for s2, kind, v in self.run_function(s, f, None, a, fr, (n, tag), caps=self.lambda_caps(lam)):
                if kind == "throw":
                    out.append((s2, ("throw", v[1])))
                else:
                    s2.vals[(fr.fid, n)] = v
                    out.append((s2, None))
        return out

    def invoke(self, st, fr, n, nd, fval, args):
        """Runs a callable value."""
        if fval[0] == "&":
            x = st.store.get(fval[1])
            fval = x if x is not None else self.read(st, fval[1])
        while fval[0] == "op" and fval[1] in ("bind", "bind_front"):
            bound, rest = list(fval[3:]), list(args)
            if fval[1] == "bind_front":
                args = bound + rest
            else:
                out = []
                for b in bound:
                    ph = placeholder(b)
                    out.append(b if ph is None else (rest[ph - 1] if ph <= len(rest) else ("s", "missing")))
                args = out
            fval = fval[2]
        if fval[0] == "lam":
            return self.run_lambda(st, fr, n, fval, args, None)
        if fval[0] == "fn" and fval[1] in self.p.funcs:
            return self.inline_call(st, fr, n, nd, fval[1], args, None)
        r = self.rule.on_invoke(self, st, fr, n, fval, args)
        if r is not None:
            return self.finish(r, fr, n)
        self.havoc_shared(st, fr, n)
        v = self.fresh(st, fr, n)
        if nd.get("t") == "bool":
            v = to_bool(v)
        st.vals[(fr.fid, n)] = v
        return self.maybe_throw(st, fr, n, nd, None, "std::function::operator()")


AUTOD = {}
DEST = {}


def bounds_truth(st, t):
    """Decides a comparison by the difference bounds of the state."""
    if t[0] != "op":
        return None
    if t[1] == "!":
        r = bounds_truth(st, t[2])
        return None if r is None else not r
    if t[1] == "<" and len(t) == 4:
        if bounds.entails_le(st, t[2], t[3], -1):
            return True
        if bounds.entails_le(st, t[3], t[2]):
            return False
    if t[1] == "==" and len(t) == 4 and isinstance(t[3], tuple):
        if bounds.entails_le(st, t[2], t[3], -1) or bounds.entails_le(st, t[3], t[2], -1):
            return False
    if t[1] == "empty" and len(t) == 3:
        if bounds.entails_le(st, ONE, ("op", "size", t[2])):
            return False
    return None


def joined(a, b, own):
    """Two different values meet: an unknown one, which stays an iterator of its container."""
    def base(v):
        if v is not None and v[0] == "op" and v[1] in ("begin", "end", "it") and len(v) > 2 and v[2][0] == "&":
            return v[2]
        return None
    x = base(a)
    if x is not None and x == base(b) and not any(y[1] in ("join", "joinv") for y in symbols(x)):
        return ("op", "it", x, own)
    return own


def placeholder(v):
    """The index of a std::placeholders value."""
    t = repr(v)
    i = t.find("std::placeholders::_")
    if i < 0:
        return None
    d = t[i + 20:i + 22]
    return int("".join(ch for ch in d if ch.isdigit()) or 0) or None


def depth(v):
    if not isinstance(v, tuple):
        return 0
    if v[0] in ("c", "s", "&", "fn"):
        return 1
    return 1 + max([depth(x) for x in v[1:] if isinstance(x, tuple)] or [0])


INT_BITS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
            "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
            "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
            "unsigned long long": (64, False), "char8_t": (8, False), "char16_t": (16, False),
            "char32_t": (32, False), "wchar_t": (32, True)}


def wrap(v, t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    b = INT_BITS.get(t)
    if b is None or not isinstance(v, int):
        return v
    if t == "bool":
        return 1 if v else 0
    m = v & ((1 << b[0]) - 1)
    if b[1] and m >= (1 << (b[0] - 1)):
        m -= 1 << b[0]
    return m


def is_ref(t):
    """A reference, also one to an array or function."""
    return t.endswith("&") or "(&" in t and "function<" not in t


def strip_type(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
        for p in ("&&", "&", " const", "*const"):
            if t.endswith(p):
                t = t[: -len(p)].strip()
        if o == t:
            return t


STD_EXC = {
    "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception",
    "std::bad_weak_ptr": "std::exception", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
    "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
    "std::filesystem::filesystem_error": "std::system_error", "std::overflow_error": "std::runtime_error",
    "std::range_error": "std::runtime_error", "std::bad_optional_access": "std::exception",
    "std::bad_variant_access": "std::exception", "std::bad_array_new_length": "std::bad_alloc",
}
STD_EXC["std::filesystem::__cxx11::filesystem_error"] = "std::system_error"
STD_EXC["std::ios_base::failure[abi:cxx11]"] = "std::system_error"


def std_derived(t, c, prog):
    seen = 0
    while t is not None and seen < 20:
        if t == c:
            return True
        nxt = STD_EXC.get(t)
        if nxt is None:
            b = prog.records.get(t, {}).get("bases")
            nxt = b[0] if b else None
        t = nxt
        seen += 1
    return False


def short_q(q):
    return q.replace("fly::", "").replace("(anonymous namespace)::", "")[-70:]
