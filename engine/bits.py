"""Abstract evaluation over known bits and the places unknown bits come from.

A machine integer is abstracted by one element per bit: 0, 1, or a bit of the input (possibly complemented); or, after
additions, by a sum of such bits with weights. Nothing is run: the elements of a function's control-flow graph are
evaluated over these abstract values. When a condition (or a carry) depends on an input bit, the analysis is repeated for
the two halves of the input in which that bit is 0 and 1 (trace partitioning), so every leaf describes a set of inputs
(a cube) together with what the function does for all of them, bit by bit.
"""
import time

TYPES = {
    "bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "wchar_t": (32, True), "char8_t": (8, False), "char16_t": (16, False), "char32_t": (32, False),
}


class Split(Exception):
    """The input bit the evaluation has to know to go on."""

    def __init__(self, origin):
        while origin[0] == "?":
            origin = origin[2][0]
        Exception.__init__(self, str(origin))
        self.origin = origin


class Fault(Exception):
    """The code does something that has no defined meaning (an access outside an object, an overlong shift)."""


class Cannot(Exception):
    """A construct the domain does not describe."""


class Thrown(Exception):
    def __init__(self, t):
        Exception.__init__(self, t)
        self.t = t


def plain_type(t):
    t = t.strip()
    for x in ("const ", "volatile "):
        while t.startswith(x):
            t = t[len(x):]
    for x in (" const", " volatile"):
        while t.endswith(x):
            t = t[:-len(x)]
    return t


def width(p, t):
    t = plain_type(t.rstrip("& "))
    if t in TYPES:
        return TYPES[t]
    e = p.enums.get(t)
    if e is not None:
        return TYPES.get(plain_type(e.get("u", "int")), (32, True))
    return None


class BV:
    __slots__ = ("w", "s", "b", "a", "tab")

    def __init__(self, w, s, b=None, a=None, tab=None):
        self.w, self.s, self.b, self.a, self.tab = w, s, b, a, tab

    def __repr__(self):
        if self.b is not None:
            if all(x in (0, 1) for x in self.b):
                return str(self.const)
            return "<" + " ".join(str(x) if x in (0, 1) else ("~" if x[1] else "") + "".join(map(str, x[0])) for x in reversed(self.b)) + ">"
        if self.tab is not None:
            return "<table " + " ".join(map(str, self.tab[0])) + ">"
        return "<sum %r>" % (self.a,)

    @property
    def const(self):
        if self.b is None:
            if self.a is not None and not self.a[1]:
                v = self.a[0] % (1 << self.w)
                return v - (1 << self.w) if self.s and v >> (self.w - 1) else v
            return None
        v = 0
        for i, x in enumerate(self.b):
            if x == 1:
                v |= 1 << i
            elif x != 0:
                return None
        return v - (1 << self.w) if self.s and v >> (self.w - 1) else v


def num(n, w=32, s=True):
    return BV(w, s, tuple((n >> i) & 1 for i in range(w)))


def boolean(x):
    return BV(1, False, (int(bool(x)),))


def inv(x):
    return 1 - x if x in (0, 1) else (x[0], 1 - x[1])


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Seq:
    """A string, an array or any other run of cells; `open` when more elements may follow the modelled ones."""

    def __init__(self, items, more=False):
        self.items = items
        self.more = more


class It:
    __slots__ = ("seq", "i")

    def __init__(self, seq, i):
        self.seq, self.i = seq, i


class Obj:
    def __init__(self, t, fields, refs=()):
        self.t, self.f, self.refs = t, fields, refs


class Opt:
    def __init__(self, cell):
        self.cell = cell


class Lam:
    def __init__(self, rec, caps, this=None):
        self.rec, self.caps, self.this = rec, caps, this


class Back:
    def __init__(self, cell):
        self.cell = cell


class View:
    """The bytes of an integer, least significant first."""

    def __init__(self, cell, w, s):
        self.cell, self.w, self.s = cell, w, s


class Stream:
    """A stream and its buffer: bytes at a position, and the state of the stream."""

    def __init__(self, data=()):
        self.data, self.pos, self.eof, self.fail, self.count = list(data), 0, False, False, 0

    def put(self, ev, x):
        if self.pos == len(self.data):
            self.data.append(x)
        else:
            self.data[self.pos] = x
        self.pos += 1

    def state(self):
        return not self.fail and not self.eof

    def call(self, ev, name, vs, o):
        if name in ("operator bool", "operator!"):
            return boolean((not self.fail) == (name == "operator bool"))
        if name == "good":
            return boolean(self.state())
        if name == "eof":
            return boolean(self.eof)
        if name == "fail":
            return boolean(self.fail)
        if name == "setstate":
            self.fail = True
            return VOID
        if name == "rdbuf" and not vs:
            return It(Seq([o]), 0)
        if name == "gcount":
            return num(self.count, 64, True)
        if name == "pubseekpos":
            self.pos = ev.known(vs[0])
            return vs[0]
        if name == "sputn" or name == "write" and self.state():
            for x in ev.octets(vs[0], ev.known(vs[1])):
                self.put(ev, x)
            return vs[1] if name == "sputn" else o
        if name == "put":
            if self.state():
                self.put(ev, vs[0])
            return o
        if name in ("write", "flush"):
            return o
        if name == "sgetn" or name == "read":
            n = ev.known(vs[1])
            if name == "read" and not self.state():
                n, self.fail = 0, True
            m = min(n, len(self.data) - self.pos)
            ev.store(vs[0], self.data[self.pos:self.pos + m])
            self.pos += m
            self.count = m
            if name == "read" and m < n:
                self.eof = self.fail = True
            return num(m, 64, True) if name == "sgetn" else o
        if name in ("sgetc", "peek", "get") and not vs:
            if name != "sgetc":
                self.count = 0
                if not self.state():
                    self.fail = True
                    return num(-1)
            if self.pos >= len(self.data):
                if name != "sgetc":
                    self.eof = True
                    self.fail = self.fail or name == "get"
                return num(-1)
            x = self.data[self.pos]
            if name == "get":
                self.pos += 1
                self.count = 1
            return ev.cast(ev.cast(x, 8, False), 32, True)
        raise Cannot("a stream operation (%s)" % name)


class Fn:
    def __init__(self, key):
        self.key = key


class Star:
    """What an insert iterator yields when dereferenced."""

    def __init__(self, back):
        self.back = back


VOID = Obj("void", {})
NULL = Obj("null", {})
INF = 1 << 40


def duplicate(v):
    if v is NULL:
        return v
    if isinstance(v, Seq):
        return Seq([Cell(duplicate(c.v)) for c in v.items], v.more)
    if isinstance(v, Obj):
        return Obj(v.t, {k: c if k in v.refs else Cell(duplicate(c.v)) for k, c in v.f.items()}, v.refs)
    if isinstance(v, Opt):
        return Opt(Cell(duplicate(v.cell.v)) if v.cell is not None else None)
    return v


class Evaluator:
    MAX_STEPS = 20000

    def __init__(self, p, fixed=None):
        self.p = p
        self.fixed = fixed or {}
        self.seen = set()
        self.steps = 0
        self.calls = []
        self.statics = {}
        self.where = None
        self.models = {}

    # --- values ---------------------------------------------------------------------------------------------------

    def symbol(self, name, w, s):
        return BV(w, s, tuple(self.fixed.get((name, j), ((name, j), 0)) for j in range(w)))

    def bits(self, v):
        b = self.raw(v)
        for x in b:
            if x not in (0, 1) and x[0][0] == "?":
                raise Split(x[0])
        return b

    def raw(self, v):
        """The bits of a value; one that combines several input bits is named after the operation."""
        if v.b is None:
            if v.tab is not None:
                v.b = self.table_bits(v)
            else:
                v.b = self.ripple(v.a[0], v.a[1], v.w)
        return v.b

    def affine(self, v):
        if v.a is None and v.b is None and v.tab is not None:
            v.a = self.linear(v)
        if v.a is None:
            c, ts = 0, {}
            for j, x in enumerate(self.bits(v)):
                if x == 1:
                    c += 1 << j
                elif x != 0:
                    o, n = x
                    if n:
                        c += 1 << j
                    ts[o] = ts.get(o, 0) + (-(1 << j) if n else 1 << j)
            m = 1 << v.w
            v.a = (c % m, {o: k % m for o, k in ts.items() if k % m})
        return v.a

    def ripple(self, c, terms, w):
        m = 1 << w
        cols = [[] for _ in range(w)]
        for o in sorted(terms, key=str):
            k = terms[o] % m
            n = m - k
            if k & (k - 1) == 0:
                cols[k.bit_length() - 1].append((o, 0))
            elif n & (n - 1) == 0:
                cols[n.bit_length() - 1].append((o, 1))
                c -= n
            else:
                for j in range(w):
                    if k >> j & 1:
                        cols[j].append((o, 0))
        c %= m
        out, carry = [], 0
        for j in range(w):
            total = carry + (c >> j & 1)
            seen = {}
            for x in cols[j]:
                o = x[0]
                if o in seen:
                    y = seen.pop(o)
                    if y == x:
                        if j + 1 < w:
                            cols[j + 1].append(x)
                    else:
                        total += 1
                else:
                    seen[o] = x
            if len(seen) > 1:
                raise Split(sorted(seen, key=str)[0])
            lit = next(iter(seen.values()), None)
            if lit is None:
                out.append(total & 1)
                carry = total >> 1
            elif total & 1:
                out.append(inv(lit))
                carry = total >> 1
                if j + 1 < w:
                    cols[j + 1].append(lit)
            else:
                out.append(lit)
                carry = total >> 1
        return tuple(out)

    def cube(self, lits):
        """The free input bits of a tuple of bits, most significant first."""
        free = []
        for x in reversed(lits):
            if x not in (0, 1) and x[0][0] == "?":
                raise Split(x[0])
            if x not in (0, 1) and x[0] not in free:
                free.append(x[0])
        return free

    def table_values(self, v):
        lits, vals = v.tab
        free = self.cube(lits)
        out = []
        for n in range(1 << len(free)):
            at = {o: n >> i & 1 for i, o in enumerate(free)}
            k = 0
            for j, x in enumerate(lits):
                y = x if x in (0, 1) else at[x[0]] ^ x[1]
                k |= y << j
            out.append((at, vals[k]))
        return free, out

    def linear(self, v):
        """A table that is a sum of the bits of its index."""
        free, rows = self.table_values(v)
        m = 1 << v.w
        base = next(x for at, x in rows if not any(at.values()))
        ks = {}
        for o in free:
            one = next(x for at, x in rows if at[o] and sum(at.values()) == 1)
            ks[o] = one - base
        if all((base + sum(ks[o] for o in free if at[o])) == x for at, x in rows):
            return base % m, {o: k % m for o, k in ks.items() if k % m}
        return None

    def table_bits(self, v):
        free, rows = self.table_values(v)
        out = []
        for j in range(v.w):
            col = [x >> j & 1 for _, x in rows]
            if len(set(col)) == 1:
                out.append(col[0])
                continue
            for o in free:
                if all((x >> j & 1) == at[o] for at, x in rows):
                    out.append((o, 0))
                    break
                if all((x >> j & 1) != at[o] for at, x in rows):
                    out.append((o, 1))
                    break
            else:
                raise Split(free[0])
        return tuple(out)

    def lookup(self, seq, idx):
        """The element of a constant table at an index with unknown bits."""
        if idx.tab is not None and idx.b is None:
            lits, vals = idx.tab
            at = dict(enumerate(vals)) if not isinstance(vals, dict) else vals
        else:
            lits = self.bits(idx)
            free = self.cube(lits)
            if len(free) > 10:
                raise Split(free[0])
            at = None
        free = self.cube(lits)
        vals, t = {}, None
        for n in range(1 << len(free)):
            env = {o: n >> i & 1 for i, o in enumerate(free)}
            k = 0
            for j, x in enumerate(lits):
                k |= (x if x in (0, 1) else env[x[0]] ^ x[1]) << j
            e = k if at is None else at[k]
            if idx.s and e >> (idx.w - 1):
                e -= 1 << idx.w
            if not 0 <= e < len(seq.items):
                if len(free):
                    raise Split(free[0])
                raise Fault("an index outside its array")
            x = seq.items[e].v
            if not isinstance(x, BV) or x.const is None:
                raise Split(free[0]) if free else Cannot("a table of unknown values")
            t = x
            vals[k] = x.const % (1 << x.w)
        return BV(t.w, t.s, tab=(tuple(lits), vals))

    def cast(self, v, w, s):
        if v.w == w:
            return v if v.s == s else BV(w, s, v.b, v.a, v.tab)
        if w < v.w:
            if v.b is None and v.a is not None:
                m = 1 << w
                return BV(w, s, a=(v.a[0] % m, {o: k % m for o, k in v.a[1].items() if k % m}))
            return BV(w, s, self.raw(v)[:w])
        if v.tab is not None and v.b is None:
            lits, vals = v.tab
            m = 1 << v.w
            ext = {k: (x - m if v.s and x >> (v.w - 1) else x) % (1 << w) for k, x in vals.items()}
            return BV(w, s, tab=(lits, ext))
        b = self.raw(v)
        return BV(w, s, b + (b[-1] if v.s else 0,) * (w - v.w))

    def truth(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, It):
            return True
        if isinstance(v, Opt):
            return v.cell is not None
        if not isinstance(v, BV):
            raise Cannot("a condition on " + type(v).__name__)
        b = self.bits(v)
        if 1 in b:
            return True
        for x in b:
            if x != 0:
                raise Split(x[0])
        return False

    def range(self, v):
        if v.tab is not None and v.b is None:
            xs = [x for _, x in self.table_values(v)[1]]
            xs = [x - (1 << v.w) if v.s and x >> (v.w - 1) else x for x in xs]
            return min(xs), max(xs)
        b = self.bits(v)
        lo = hi = 0
        for j, x in enumerate(b):
            k = 1 << j
            if v.s and j == v.w - 1:
                if x == 1:
                    lo, hi = lo - k, hi - k
                elif x != 0:
                    lo -= k
            elif x == 1:
                lo, hi = lo + k, hi + k
            elif x != 0:
                hi += k
        return lo, hi

    def compare(self, op, x, y):
        if op in (">", "<="):
            r = self.compare("<", y, x)
            return r if op == ">" else not r
        if op == ">=":
            return not self.compare("<", x, y)
        if op == "!=":
            return not self.compare("==", x, y)
        lx, hx = self.range(x)
        ly, hy = self.range(y)
        if op == "<":
            if hx < ly:
                return True
            if lx >= hy:
                return False
        elif hx < ly or hy < lx:
            return False
        for t in (x, y):
            if t.tab is not None and t.b is None:
                try:
                    self.bits(t)
                except Split:
                    c = y.const if t is x else x.const
                    if c is not None and op == "==":
                        xs = [v - (1 << t.w) if t.s and v >> (t.w - 1) else v for _, v in self.table_values(t)[1]]
                        if c not in xs:
                            return False
                    raise
        a, b = list(self.bits(x)), list(self.bits(y))
        if op == "==":
            for i, j in zip(a, b):
                if i != j and (i in (0, 1) and j in (0, 1) or i not in (0, 1) and j not in (0, 1) and i[0] == j[0]):
                    return False
        if x.s:
            a[-1], b[-1] = b[-1], a[-1]
        for i, j in zip(reversed(a), reversed(b)):
            if i == j:
                continue
            if i in (0, 1) and j in (0, 1):
                return op == "<" and i < j
            if i not in (0, 1):
                raise Split(i[0])
            raise Split(j[0])
        return False if op == "<" else True

    def arith(self, op, x, y, w, s):
        m = 1 << w
        if op in ("+", "-", "*"):
            if op in ("+", "-"):
                for a, b in ((x, y), (y, x)):
                    if b.const == 0 and (op == "+" or b is y):
                        return BV(w, s, a.b, a.a, a.tab)
            (c, ts), (d, us) = self.affine(x), self.affine(y)
            if op == "*":
                if us and ts:
                    raise Split(sorted(us, key=str)[0])
                if ts:
                    (c, ts), (d, us) = (d, us), (c, ts)
                ts = {o: c * k % m for o, k in us.items()}
                return BV(w, s, a=(c * d % m, {o: k for o, k in ts.items() if k}))
            g = 1 if op == "+" else -1
            out = dict(ts)
            for o, k in us.items():
                out[o] = (out.get(o, 0) + g * k) % m
            return BV(w, s, a=((c + g * d) % m, {o: k for o, k in out.items() if k}))
        if op in ("<<", ">>"):
            n = self.known(y)
            if not 0 <= n < w:
                raise Fault("a shift by %d of a value of %d bits" % (n, w))
            if op == "<<" and x.b is None and x.a is not None:
                return BV(w, s, a=(x.a[0] * (1 << n) % m, {o: k * (1 << n) % m for o, k in x.a[1].items() if k * (1 << n) % m}))
            b = self.raw(x)
            if op == "<<":
                return BV(w, s, ((0,) * n + b)[:w])
            return BV(w, s, b[n:] + (b[-1] if x.s else 0,) * n)
        if op in ("&", "|", "^"):
            out = []
            for i, j in zip(self.raw(x), self.raw(y)):
                if j in (0, 1):
                    i, j = j, i
                if i in (0, 1):
                    out.append({"&": (0, j), "|": (j, 1), "^": (j, inv(j))}[op][i])
                elif i == j:
                    out.append(0 if op == "^" else i)
                elif i[0] == j[0]:
                    out.append(0 if op == "&" else 1)
                else:
                    out.append((("?", op, i, j), 0))
            return BV(w, s, tuple(out))
        if op in ("/", "%"):
            d = self.known(y)
            if d == 0:
                raise Fault("a division by zero")
            c = x.const
            if c is not None:
                q = abs(c) // abs(d) * (1 if (c < 0) == (d < 0) else -1)
                return num(q if op == "/" else c - q * d, w, s)
            if d > 0 and d & (d - 1) == 0 and self.range(x)[0] >= 0:
                n = d.bit_length() - 1
                b = self.raw(x)
                return BV(w, s, b[n:] + (0,) * n if op == "/" else b[:n] + (0,) * (w - n))
            lo, hi = self.range(x)
            if lo // d == hi // d and lo >= 0:
                return num(lo // d, w, s) if op == "/" else self.arith("-", x, num(lo // d * d, w, s), w, s)
            raise Split(self.cube(self.bits(x))[0])
        raise Cannot("operator " + op)

    def known(self, v):
        if isinstance(v, Cell):
            v = v.v
        if not isinstance(v, BV):
            raise Cannot("a number")
        c = v.const
        if c is None:
            b = self.bits(v)
            for x in reversed(b):
                if x not in (0, 1):
                    raise Split(x[0])
            c = v.const
        return c

    # --- functions ------------------------------------------------------------------------------------------------

    def call(self, f, args, this=None, caps=None, depth=0):
        if depth > 40:
            raise Cannot("recursion")
        self.seen.add(f.key)
        env = dict(caps or {})
        for q, a in zip(f.params, args):
            if q["t"].rstrip().endswith("&"):
                env[q["v"]] = a if isinstance(a, Cell) else Cell(a)
            else:
                env[q["v"]] = Cell(duplicate(self.load(a)))
        fr = Frame(f, env, this, depth)
        built = {e["e"] for blk in self.blocks(f) for e in blk["e"] if not isinstance(e, int) and e["k"] == "init" and "base" in e} if f.name == "<ctor>" else ()
        b, out = f.entry, VOID
        while True:
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Cannot("an unbounded loop")
            blk = f.blocks[b]
            for e in blk["e"]:
                if isinstance(e, int):
                    if e in built:
                        continue
                    nd = f.nodes[e]
                    self.where = (f, e)
                    if nd["k"] == "ReturnStmt":
                        c = nd.get("c") or ()
                        if c and c[0] >= 0:
                            out = self.value(fr, c[0])
                            if not f.ret.rstrip().endswith("&"):
                                out = duplicate(self.load(out))
                        continue
                    v = self.value(fr, e, True)
                    fr.vals[e] = v
                elif e["k"] == "init":
                    self.initialise(fr, e)
                elif e["k"] == "autodtor" and e.get("f") in self.p.funcs:
                    self.call(self.p.funcs[e["f"]], [], env[e["v"]], depth=depth + 1)
            t = blk.get("t")
            succ = [x for x in blk["s"]]
            if not succ:
                return out
            if t and t["k"] == "SwitchStmt":
                b = self.switch(fr, t, succ)
            elif t and t["k"] in ("CXXTryStmt",) or t and t.get("tempdtor"):
                b = succ[0]
            elif t and t.get("cond") is not None and len(succ) == 2:
                b = succ[0] if self.truth(self.condition(fr, t["cond"])) else succ[1]
                if b is None or b < 0:
                    b = next(x for x in succ if x is not None and x >= 0)
            elif t and t["k"] == "DeclStmt" and len(succ) == 2:
                b = max(succ)
            else:
                b = succ[0]
            if b is None or b < 0:
                return out

    def blocks(self, f):
        return f.blocks.values() if isinstance(f.blocks, dict) else f.blocks

    def condition(self, fr, n):
        """A condition; an operand that was not evaluated on this path is not asked for."""
        if n in fr.vals:
            return fr.vals[n]
        nd = fr.f.nodes[n]
        if nd["k"] == "BinaryOperator" and nd.get("op") in ("&&", "||"):
            a = self.truth(self.condition(fr, nd["c"][0]))
            return boolean(a) if a == (nd["op"] == "||") else boolean(self.truth(self.condition(fr, nd["c"][1])))
        if nd["k"] == "ParenExpr":
            return self.condition(fr, nd["c"][0])
        return self.value(fr, n)

    def switch(self, fr, t, succ):
        v = self.load(self.condition(fr, t["cond"]))
        f, default = fr.f, None
        for s in succ:
            if s is None or s < 0:
                continue
            lab = f.blocks[s].get("label") or {}
            if lab.get("k") == "CaseStmt" and "v" in lab:
                hi = lab.get("v2", lab["v"])
                if self.compare(">=", v, num(lab["v"], v.w, v.s)) and self.compare("<=", v, num(hi, v.w, v.s)):
                    return s
            elif lab.get("k") == "CaseStmt":
                raise Cannot("a case")
            else:
                default = s
        return default

    def initialise(self, fr, e):
        if "base" in e and fr.this is not None and e.get("e", -1) >= 0:
            nd = fr.f.nodes[e["e"]]
            key = nd.get("f")
            if key in self.p.funcs:
                self.call(self.p.funcs[key], [self.value(fr, a) for a in nd.get("args", nd.get("c", ()))], fr.this, None, fr.depth + 1)
        if "m" in e and fr.this is not None:
            v = self.value(fr, e["e"]) if e.get("e", -1) >= 0 else num(0)
            r = self.p.records.get(fr.f.record) or {"fields": ()}
            ref = any(q["n"] == e["m"] and q["t"].rstrip().endswith("&") for q in r["fields"])
            if ref and isinstance(v, Cell):
                fr.this.v.refs = set(fr.this.v.refs) | {e["m"]}
            if isinstance(self.load(v), Stream) or ref and isinstance(v, Cell):
                fr.this.v.f[e["m"]] = v
            else:
                fr.this.v.f[e["m"]] = Cell(duplicate(self.load(v)))

    def load(self, v):
        return v.v if isinstance(v, Cell) else v

    # --- expressions ----------------------------------------------------------------------------------------------

    def value(self, fr, n, element=False):
        f = fr.f
        if not element and n in fr.vals:
            return fr.vals[n]
        nd = f.nodes[n]
        k = nd["k"]
        cv = nd.get("cv")
        if isinstance(cv, bool):
            return boolean(cv)
        if isinstance(cv, int):
            ws = width(self.p, nd["t"])
            if ws or nd["t"].startswith("std::"):
                return num(cv, *(ws or (32, True)))
        m = getattr(self, "do_" + k, None)
        if m is None:
            raise Cannot("a construct (%s at %s:%s)" % (k, f.file.split("/")[-1], nd.get("l")))
        return m(fr, n, nd)

    def first(self, fr, n, nd):
        return self.value(fr, nd["c"][0])

    do_ParenExpr = do_ExprWithCleanups = do_ConstantExpr = do_SubstNonTypeTemplateParmExpr = first
    do_CXXBindTemporaryExpr = do_CXXDefaultArgExpr = do_CXXDefaultInitExpr = do_CXXRewrittenBinaryOperator = first

    def do_MaterializeTemporaryExpr(self, fr, n, nd):
        v = self.value(fr, nd["c"][0])
        return v if isinstance(v, Cell) else Cell(v)

    def do_CXXNullPtrLiteralExpr(self, fr, n, nd):
        return NULL

    def do_IntegerLiteral(self, fr, n, nd):
        raise Cannot("a literal")

    def do_StringLiteral(self, fr, n, nd):
        t = plain_type(nd["t"].split("[")[0])
        w, s = TYPES[t]
        units = nd["ws"] if "ws" in nd else [ord(c) for c in nd["s"]]
        return Cell(Seq([Cell(num(c, w, s)) for c in units] + [Cell(num(0, w, s))]))

    def do_CXXThisExpr(self, fr, n, nd):
        return It(Seq([fr.this]), 0)

    def do_DeclRefExpr(self, fr, n, nd):
        v = nd.get("v")
        if v in fr.env:
            return fr.env[v]
        if nd.get("f"):
            return Cell(Fn(nd["f"]))
        if v and v.startswith("g:"):
            return self.globl(v)
        if v in self.statics:
            return self.statics[v]
        raise Cannot("a variable (%s)" % v)

    def globl(self, v):
        if v not in self.statics:
            g = self.p.globals.get(v)
            if v.endswith("std::nullopt"):
                self.statics[v] = Cell(Obj("nullopt", {}))
                return self.statics[v]
            if g is None or "value" not in g or g["value"] is None:
                raise Cannot("the value of " + v)
            if not g.get("const"):
                raise Cannot("a variable that may change (%s)" % v)
            self.statics[v] = Cell(self.build(g["value"], g["t"]))
        return self.statics[v]

    def build(self, x, t):
        t = plain_type(t)
        if isinstance(x, bool):
            return boolean(x)
        if isinstance(x, int):
            ws = width(self.p, t) or ((32, True) if t.startswith("std::_Ios_") else None)
            if ws is None:
                raise Cannot("a value of type " + t)
            return num(x, *ws)
        if isinstance(x, dict) and "str" in x and t.replace("const", "").replace(" ", "") == "char*":
            return It(Seq([Cell(num(ord(c), 8, True)) for c in x["str"]] + [Cell(num(0, 8, True))]), 0)
        if isinstance(x, list):
            if t.startswith("std::array<"):
                inner = t[len("std::array<"):t.rindex(",")]
                return Seq([Cell(self.build(y, inner)) for y in x[0]])
            if t.endswith("]"):
                inner = t[:t.rindex("[")]
                return Seq([Cell(self.build(y, inner)) for y in x])
            r = self.p.records.get(t)
            if r is not None:
                return Obj(t, {q["n"]: Cell(self.build(y, q["t"])) for q, y in zip(r["fields"], x)})
        raise Cannot("a value of type " + t)

    def do_ImplicitCastExpr(self, fr, n, nd):
        ck = nd.get("ck")
        v = self.value(fr, nd["c"][0])
        if ck == "LValueToRValue":
            v = self.load(v)
            if v is None:
                raise Fault("a value that was never set")
            return v
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "UserDefinedConversion", "ConstructorConversion"):
            return v
        if ck == "ArrayToPointerDecay":
            return It(self.load(v), 0)
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            return v
        v = self.load(v)
        if ck == "IntegralToBoolean":
            return boolean(self.truth(v))
        if ck == "PointerToBoolean":
            return boolean(v is not NULL)
        if ck == "NullToPointer":
            return NULL
        if ck == "BooleanToSignedIntegral" or ck == "IntegralCast":
            ws = width(self.p, nd["t"])
            if ws is None or not isinstance(v, BV):
                raise Cannot("a conversion to " + nd["t"])
            return self.cast(v, *ws)
        if ck == "ToVoid":
            return VOID
        if ck == "BitCast" and isinstance(v, It):
            if plain_type(nd["t"].rstrip("* ")) == "void":
                return v
            a, b = (plain_type(x.rstrip("* ")) for x in (fr.f.nodes[nd["c"][0]]["t"], nd["t"]))
            x, y = width(self.p, a), width(self.p, b)
            if x and y and x[0] == y[0]:
                return v
            if x and y and y[0] == 8:
                return View(self.at(v), x[0], x[1])
        raise Cannot("a conversion (%s)" % ck)

    do_CXXStaticCastExpr = do_CStyleCastExpr = do_CXXFunctionalCastExpr = do_CXXReinterpretCastExpr = do_ImplicitCastExpr

    def do_DeclStmt(self, fr, n, nd):
        for d in nd["decls"]:
            if d.get("static") and d["v"] in self.statics:
                fr.env[d["v"]] = self.statics[d["v"]]
                continue
            i = d.get("init")
            if i is None or i < 0:
                fr.env[d["v"]] = Cell(None)
                continue
            v = self.value(fr, i)
            if d.get("t", "").rstrip().endswith("&"):
                fr.env[d["v"]] = v if isinstance(v, Cell) else Cell(v)
            else:
                fr.env[d["v"]] = Cell(duplicate(self.load(v)))
            if d.get("static"):
                self.statics[d["v"]] = fr.env[d["v"]]
        return VOID

    def do_LambdaExpr(self, fr, n, nd):
        caps = {}
        for c in nd.get("caps", ()):
            if c.get("this"):
                continue
            if c.get("init"):
                raise Cannot("an initialised capture")
            v = self.value(fr, c["e"]) if c["v"] not in fr.env else fr.env[c["v"]]
            caps[c["v"]] = v if c.get("byref") and isinstance(v, Cell) else Cell(duplicate(self.load(v)))
        return Lam(nd["lambda"], caps, fr.this)

    def do_MemberExpr(self, fr, n, nd):
        v = self.value(fr, nd["c"][0])
        if isinstance(self.load(v), It) and nd.get("arrow"):
            v = self.at(self.load(v))
        o = self.load(v)
        if o is NULL:
            raise Fault("a null pointer is dereferenced")
        if isinstance(o, Obj) and nd.get("m") in o.f:
            return o.f[nd["m"]]
        if nd.get("f"):
            return v
        raise Cannot("member " + str(nd.get("m")))

    def at(self, it, d=0):
        i = it.i + d
        if i < 0 or i >= len(it.seq.items):
            if it.seq.more and i >= len(it.seq.items):
                raise Fault("an access further ahead than any character reaches")
            raise Fault("an access past the end")
        return it.seq.items[i]

    def do_ArraySubscriptExpr(self, fr, n, nd):
        a, b = (self.load(self.value(fr, c)) for c in nd["c"])
        if isinstance(b, It):
            a, b = b, a
        return self.subscript(a, b)

    def subscript(self, a, b):
        if isinstance(a, Seq):
            a = It(a, 0)
        if b.const is not None:
            return self.at(a, b.const)
        if a.i:
            b = self.arith("+", b, num(a.i, b.w, b.s), b.w, b.s)
        return Cell(self.lookup(a.seq, b))

    def advance(self, it, d):
        i = it.i + d
        if i < 0 or i > len(it.seq.items) and not it.seq.more or i > len(it.seq.items):
            raise Fault("a position past the end")
        return It(it.seq, i)

    def do_UnaryOperator(self, fr, n, nd):
        op = nd["op"]
        v = self.value(fr, nd["c"][0])
        if op in ("++", "--"):
            old = self.load(v)
            d = 1 if op == "++" else -1
            if isinstance(old, It):
                v.v = self.advance(old, d)
            else:
                if old is None:
                    raise Fault("a value that was never set")
                v.v = self.arith("+" if d > 0 else "-", old, num(1, old.w, old.s), old.w, old.s)
            return v if nd.get("vc") == "l" else old
        if op == "&":
            if isinstance(v, Cell):
                return It(Seq([v]), 0)
            raise Cannot("an address")
        v = self.load(v)
        if op == "*":
            if isinstance(v, It):
                return self.at(v)
            if v is NULL:
                raise Fault("a null pointer is dereferenced")
            raise Cannot("a dereference")
        if op == "!":
            return boolean(not self.truth(v))
        if not isinstance(v, BV):
            raise Cannot("operator " + op)
        if op == "~":
            return BV(v.w, v.s, tuple(inv(x) for x in self.raw(v)))
        if op == "-":
            return self.arith("-", num(0, v.w, v.s), v, v.w, v.s)
        if op == "+":
            return v
        raise Cannot("operator " + op)

    def do_BinaryOperator(self, fr, n, nd):
        op = nd["op"]
        c = nd["c"]
        if op in ("&&", "||"):
            a = self.truth(self.condition(fr, c[0]))
            if a == (op == "||"):
                return boolean(a)
            return boolean(self.truth(self.condition(fr, c[1])))
        if op == ",":
            self.value(fr, c[0])
            return self.value(fr, c[1])
        if op == "=":
            x = self.load(self.value(fr, c[1]))
            t = self.value(fr, c[0])
            t.v = duplicate(x)
            return t
        a, b = (self.load(self.value(fr, x)) for x in c)
        return self.operate(op, a, b, nd)

    def operate(self, op, a, b, nd):
        if a is NULL or b is NULL:
            if op in ("==", "!="):
                return boolean((a is b) == (op == "=="))
            raise Fault("a computation on a null pointer")
        if isinstance(a, It) or isinstance(b, It):
            return self.pointers(op, a, b)
        if a is None or b is None:
            raise Fault("a value that was never set")
        if not isinstance(a, BV) or not isinstance(b, BV):
            raise Cannot("operator %s on %s" % (op, type(a).__name__))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return boolean(self.compare(op, a, b))
        ws = width(self.p, nd["t"])
        return self.arith(op, a, b, *ws)

    def pointers(self, op, a, b):
        if op == "+" and isinstance(b, It):
            a, b = b, a
        if op in ("+", "-") and isinstance(b, BV):
            return self.advance(a, self.known(b) * (1 if op == "+" else -1))
        if isinstance(a, It) and isinstance(b, It):
            if a.seq is not b.seq:
                if op in ("==", "!=") and 0 <= a.i < len(a.seq.items) and 0 <= b.i < len(b.seq.items):
                    return boolean((a.seq.items[a.i] is b.seq.items[b.i]) == (op == "=="))
                raise Cannot("positions of different objects")
            if a.seq.more and INF in (a.i, b.i) and max(min(a.i, b.i), 0) >= len(a.seq.items) and a.i != b.i:
                raise Fault("an access further ahead than any character reaches")
            if op == "-":
                return num(a.i - b.i, 64, True)
            return boolean({"<": a.i < b.i, ">": a.i > b.i, "<=": a.i <= b.i, ">=": a.i >= b.i, "==": a.i == b.i, "!=": a.i != b.i}[op])
        raise Cannot("operator " + op)

    def do_CompoundAssignOperator(self, fr, n, nd):
        t = self.value(fr, nd["c"][0])
        y = self.load(self.value(fr, nd["c"][1]))
        op = nd["op"][:-1]
        old = t.v
        if isinstance(old, It):
            t.v = self.pointers(op, old, y)
            return t
        if old is None:
            raise Fault("a value that was never set")
        if op in ("<<", ">>"):
            w, s = max((old.w, old.s), (32, True)) if old.w < 32 else (old.w, old.s)
            x = self.arith(op, self.cast(old, w, s), y, w, s)
        else:
            (w, s) = self.common(old, y)
            x = self.arith(op, self.cast(old, w, s), self.cast(y, w, s), w, s)
        t.v = self.cast(x, old.w, old.s)
        return t

    def promote(self, a, b):
        w, s = self.common(a, b)
        return self.cast(a, w, s), self.cast(b, w, s)

    def common(self, a, b):
        xs = [(x.w, x.s) if x.w >= 32 else (32, True) for x in (a, b)]
        w = max(x[0] for x in xs)
        return w, all(s for v, s in xs if v == w)

    def do_ConditionalOperator(self, fr, n, nd):
        return self.value(fr, nd["c"][1 if self.truth(self.condition(fr, nd["c"][0])) else 2])

    def do_InitListExpr(self, fr, n, nd):
        t = plain_type(nd["t"])
        cells = [self.value(fr, c) for c in nd.get("c", ())]
        vs = [self.load(c) for c in cells]
        ws = width(self.p, t)
        if ws:
            return vs[0] if vs else num(0, *ws)
        if t.endswith("]"):
            return Seq([Cell(duplicate(v)) for v in vs])
        if t.startswith("std::array<"):
            return vs[0] if vs else Seq([])
        r = self.p.records.get(t)
        if r is not None:
            refs = {q["n"] for q in r["fields"] if q["t"].rstrip().endswith("&")}
            return Obj(t, {q["n"]: c if q["n"] in refs and isinstance(c, Cell) else Cell(duplicate(v)) for q, c, v in zip(r["fields"], cells, vs)}, refs)
        raise Cannot("a value of type " + t)

    def do_ImplicitValueInitExpr(self, fr, n, nd):
        return self.zero(nd["t"])

    do_CXXScalarValueInitExpr = do_ImplicitValueInitExpr

    def zero(self, t):
        t = plain_type(t)
        ws = width(self.p, t)
        if ws:
            return num(0, *ws)
        if t.endswith("]"):
            return Seq([Cell(self.zero(t[:t.rindex("[")])) for _ in range(int(t[t.rindex("[") + 1:-1]))])
        if t.startswith("std::array<"):
            inner, k = t[len("std::array<"):-1].rsplit(",", 1)
            return Seq([Cell(self.zero(inner)) for _ in range(int(k.strip().rstrip("UL")))])
        raise Cannot("a value of type " + t)

    def do_CXXThrowExpr(self, fr, n, nd):
        raise Thrown(fr.f.nodes[nd["c"][0]]["t"] if nd.get("c") else "?")

    def do_NullStmt(self, fr, n, nd):
        return VOID

    # --- calls ----------------------------------------------------------------------------------------------------

    def do_CXXConstructExpr(self, fr, n, nd):
        t = plain_type(nd["t"])
        args = [self.value(fr, a) for a in nd.get("args", nd.get("c", ()))]
        return self.construct(fr, nd, t, args)

    do_CXXTemporaryObjectExpr = do_CXXConstructExpr

    def construct(self, fr, nd, t, args):
        vs = [self.load(a) for a in args]
        if t.startswith("std::optional<"):
            if not vs:
                return Opt(None)
            if isinstance(vs[0], Obj) and vs[0].t == "nullopt":
                return Opt(None)
            if isinstance(vs[0], Opt):
                return duplicate(vs[0])
            v = vs[0]
            ws = width(self.p, t[len("std::optional<"):-1])
            if ws and isinstance(v, BV):
                v = self.cast(v, *ws)
            return Opt(Cell(duplicate(v)))
        if t.startswith("std::nullopt_t") or t == "nullopt":
            return Obj("nullopt", {})
        if t.startswith("std::basic_string<") or t in ("std::string", "std::wstring"):
            vs = [v for v in vs if not (isinstance(v, Obj) and v.t == "allocator")]
            if not vs:
                return Seq([])
            if len(vs) == 1 and isinstance(vs[0], Seq):
                return duplicate(vs[0])
            if len(vs) == 1 and isinstance(vs[0], It):
                return Seq([Cell(c.v) for c in self.terminated(vs[0])])
            if len(vs) == 2 and isinstance(vs[0], BV) and isinstance(vs[1], BV):
                return Seq([Cell(vs[1]) for _ in range(self.known(vs[0]))])
            if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                return Seq([Cell(c.v) for c in vs[0].seq.items[vs[0].i:vs[1].i]])
            if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], BV):
                k = self.known(vs[1])
                if vs[0].i + k > len(vs[0].seq.items):
                    raise Fault("an access past the end")
                return Seq([Cell(c.v) for c in vs[0].seq.items[vs[0].i:vs[0].i + k]])
        if t.startswith("std::basic_string_view<"):
            if len(vs) == 1 and isinstance(vs[0], Seq):
                return vs[0]
            if len(vs) == 1 and isinstance(vs[0], It):
                return Seq(self.terminated(vs[0]))
        if t.startswith("std::fpos<") and len(vs) == 1:
            return vs[0]
        if t.startswith("std::allocator"):
            return Obj("allocator", {})
        if len(vs) == 1 and not isinstance(vs[0], BV) and (isinstance(vs[0], (It, Back, Lam, Opt)) or isinstance(vs[0], (Seq, Obj)) and nd.get("f") not in self.p.funcs):
            return duplicate(vs[0])
        ws = width(self.p, t)
        if ws:
            return self.cast(vs[0], *ws) if vs else num(0, *ws)
        if t.startswith("std::array<"):
            return self.zero(t) if not vs else duplicate(vs[0])
        key = nd.get("f")
        if key in self.p.funcs:
            r = self.p.records.get(t)
            o = Cell(Obj(t, {q["n"]: Cell(None) for q in (r or {}).get("fields", ())}))
            self.call(self.p.funcs[key], args, o, None, fr.depth + 1)
            return o.v
        raise Cannot("a construction of " + t)

    def terminated(self, it):
        out = []
        for c in it.seq.items[it.i:]:
            if self.compare("==", c.v, num(0, c.v.w, c.v.s)):
                return out
            out.append(c)
        raise Fault("a string without an end")

    def do_CallExpr(self, fr, n, nd):
        key = nd.get("f")
        args = [self.value(fr, a) for a in nd.get("args", ())]
        if key is None:
            c = self.load(self.value(fr, nd["c"][0])) if nd.get("c") else None
            if isinstance(c, Fn):
                key = c.key
            elif isinstance(c, Lam):
                return self.invoke(fr, c, args)
            else:
                raise Cannot("a call")
        return self.dispatch(fr, nd, key, None, args)

    def do_CXXMemberCallExpr(self, fr, n, nd):
        obj = nd.get("obj")
        o = self.value(fr, obj) if obj is not None and obj >= 0 else None
        if isinstance(self.load(o), It) and nd.get("arrow", False) or isinstance(self.load(o), It) and fr.f.nodes[obj]["t"].rstrip().endswith("*"):
            o = self.at(self.load(o))
        args = [self.value(fr, a) for a in nd.get("args", ())]
        return self.dispatch(fr, nd, nd.get("f"), o, args)

    def do_CXXOperatorCallExpr(self, fr, n, nd):
        args = [self.value(fr, a) for a in nd["args"]]
        op = nd.get("op")
        x = self.load(args[0])
        if op == "()" and isinstance(x, Lam):
            return self.invoke(fr, x, args[1:])
        key = nd.get("f")
        if key in self.p.funcs:
            f = self.p.funcs[key]
            if len(f.params) == len(args) - 1:
                return self.call(f, args[1:], args[0] if isinstance(args[0], Cell) else Cell(args[0]), None, fr.depth + 1)
            return self.call(f, args, None, None, fr.depth + 1)
        vs = [self.load(a) for a in args]
        if isinstance(x, It):
            if op == "*":
                return self.at(x)
            if op == "->":
                return x
            if op == "[]":
                return self.subscript(x, vs[1])
            if op in ("++", "--"):
                args[0].v = self.advance(x, 1 if op == "++" else -1)
                return args[0] if len(args) == 1 else x
            if op in ("+=", "-="):
                args[0].v = self.pointers(op[0], x, vs[1])
                return args[0]
            if op == "=":
                args[0].v = vs[1]
                return args[0]
            return self.pointers(op, x, vs[1])
        if len(vs) > 1 and isinstance(vs[1], It) and op == "+":
            return self.pointers(op, x, vs[1])
        if isinstance(x, Opt):
            if op in ("*", "->"):
                if x.cell is None:
                    raise Fault("the value of an empty optional")
                return x.cell if op == "*" else It(Seq([x.cell]), 0)
            if op == "=":
                args[0].v = self.construct(fr, nd, self.optional_type(fr, nd), [args[1]])
                return args[0]
        if isinstance(x, Back):
            if op in ("++",):
                return args[0]
            if op == "*":
                return args[0]
            if op == "=":
                self.append(x.cell.v, [vs[1]])
                return args[0]
        if isinstance(x, Seq):
            if op == "[]":
                return self.subscript(x, vs[1])
            if op == "+=":
                self.append(x, [vs[1]] if isinstance(vs[1], BV) else [c.v for c in self.characters(vs[1])])
                return args[0]
            if op == "=":
                args[0].v = duplicate(vs[1])
                return args[0]
            if op in ("==", "!="):
                r = self.same(x, vs[1])
                return boolean(r == (op == "=="))
        raise Cannot("operator %s on %s" % (op, type(x).__name__))

    def octets(self, v, n):
        """n bytes at a pointer."""
        if isinstance(v, View):
            b = self.raw(v.cell.v)
            if n * 8 > len(b):
                raise Fault("an access past the end")
            return [BV(8, True, b[8 * i:8 * i + 8]) for i in range(n)]
        if isinstance(v, It):
            return [self.at(v, i).v for i in range(n)]
        raise Cannot("bytes")

    def store(self, v, octets):
        if isinstance(v, View):
            b = self.raw(v.cell.v) if v.cell.v is not None else None
            new = sum((tuple(self.raw(x)) for x in octets), ())
            if len(new) > v.w:
                raise Fault("an access past the end")
            if b is None and len(new) < v.w:
                raise Cannot("a partly set value")
            if new:
                v.cell.v = BV(v.w, v.s, new + (b[len(new):] if b is not None else ()))
            return
        if not isinstance(v, It):
            raise Cannot("bytes")
        for i, x in enumerate(octets):
            self.at(v, i).v = x

    def optional_type(self, fr, nd):
        return plain_type(fr.f.nodes[nd["args"][0]]["t"])

    def same(self, a, b):
        a, b = self.characters(a), self.characters(b)
        return len(a) == len(b) and all(self.compare("==", x.v, y.v) for x, y in zip(a, b))

    def characters(self, v):
        if isinstance(v, Seq):
            return v.items
        if isinstance(v, It):
            return self.terminated(v)
        raise Cannot("characters")

    def append(self, seq, vs):
        ws = next(((c.v.w, c.v.s) for c in seq.items if isinstance(c.v, BV)), None)
        for v in vs:
            seq.items.append(Cell(self.cast(v, *ws) if ws and isinstance(v, BV) else v))

    def invoke(self, fr, lam, args):
        keys = lambda_ops(self.p, lam.rec)
        for k in keys:
            f = self.p.funcs[k]
            if len(f.params) == len(args):
                return self.call(f, args, lam.this, lam.caps, fr.depth + 1)
        raise Cannot("a lambda")

    def dispatch(self, fr, nd, key, o, args):
        m = self.models.get(key)
        if m is not None:
            return m(self, fr, nd, o, args)
        if key in self.p.funcs:
            return self.call(self.p.funcs[key], args, o if isinstance(o, Cell) or o is None else Cell(o), None, fr.depth + 1)
        base = key.split("(")[0] if not key.startswith("operator") else key
        name = last_name(key)
        vs = [self.load(a) for a in args]
        x = self.load(o)
        if o is None:
            if name in ("move", "forward", "as_const", "addressof"):
                return args[0] if isinstance(args[0], Cell) else Cell(args[0])
            if name == "back_inserter":
                return Back(args[0])
            if name in ("begin", "cbegin", "end", "cend", "size", "data") and isinstance(vs[0], Seq):
                x, o, vs, args = vs[0], args[0], vs[1:], args[1:]
            elif name in ("min", "max") and len(vs) == 2:
                return args[0 if self.compare("<=" if name == "min" else ">=", vs[0], vs[1]) else 1]
            elif name in ("find_if", "find_if_not", "any_of", "all_of", "none_of") and len(vs) == 3 and isinstance(vs[0], It):
                it = vs[0]
                while self.truth(self.pointers("!=", it, vs[1])):
                    if self.truth(self.load(self.invoke(fr, vs[2], [self.at(it)]))) != (name in ("find_if_not", "all_of")):
                        return it if name.startswith("find") else boolean(name == "any_of")
                    it = self.advance(it, 1)
                return it if name.startswith("find") else boolean(name != "any_of")
            elif name == "find" and len(vs) == 3 and isinstance(vs[0], It):
                it = vs[0]
                while self.truth(self.pointers("!=", it, vs[1])):
                    x = self.at(it).v
                    if self.compare("==", *self.promote(x, vs[2])):
                        return it
                    it = self.advance(it, 1)
                return it
            elif name in ("next", "prev") and vs and isinstance(vs[0], It):
                d = self.known(vs[1]) if len(vs) > 1 else 1
                return self.advance(vs[0], d if name == "next" else -d)
            elif name == "distance" and len(vs) == 2:
                return self.pointers("-", vs[1], vs[0])
            elif name == "make_optional" and len(vs) == 1:
                return Opt(Cell(duplicate(vs[0])))
            elif name in ("memset", "fill_n") and isinstance(vs[0], It):
                k, x = (vs[2], vs[1]) if name == "memset" else (vs[1], vs[2])
                for i in range(self.known(k)):
                    c = self.at(vs[0], i)
                    c.v = self.cast(x, c.v.w, c.v.s) if isinstance(c.v, BV) else x
                return vs[0] if name == "memset" else self.advance(vs[0], self.known(k))
            elif name == "fill" and len(vs) == 3 and isinstance(vs[0], It):
                it = vs[0]
                while self.truth(self.pointers("!=", it, vs[1])):
                    c = self.at(it)
                    c.v = self.cast(vs[2], c.v.w, c.v.s) if isinstance(c.v, BV) and isinstance(vs[2], BV) else duplicate(vs[2])
                    it = self.advance(it, 1)
                return VOID
            elif name in ("memcpy", "memmove", "copy", "copy_n") and len(vs) == 3 and isinstance(vs[0], It) and isinstance(vs[1] if name != "copy_n" else vs[2], It):
                if name == "copy":
                    src, dst, k = vs[0], vs[2], self.known(self.pointers("-", vs[1], vs[0]))
                elif name == "copy_n":
                    src, dst, k = vs[0], vs[2], self.known(vs[1])
                else:
                    dst, src, k = vs[0], vs[1], self.known(vs[2])
                    if any(isinstance(c.v, BV) and c.v.w != 8 for c in src.seq.items + dst.seq.items):
                        raise Cannot("a copy of bytes")
                xs = [duplicate(self.at(src, i).v) for i in range(k)]
                for i, v in enumerate(xs):
                    self.at(dst, i).v = v
                return dst if name.startswith("mem") else self.advance(dst, k)
        if isinstance(x, Seq):
            if name.startswith("operator ") and name not in ("operator bool",):
                return o
            if name in ("begin", "cbegin", "data", "c_str"):
                return It(x, 0)
            if name in ("end", "cend"):
                return It(x, INF if x.more else len(x.items))
            if name in ("size", "length"):
                if x.more:
                    raise Cannot("the size of an open sequence")
                return num(len(x.items), 64, False)
            if name == "empty":
                return boolean(not x.items and not x.more)
            if name in ("reserve", "shrink_to_fit"):
                return VOID
            if name == "clear":
                del x.items[:]
                return VOID
            if name == "push_back":
                self.append(x, vs)
                return VOID
            if name == "append" and len(vs) == 2 and isinstance(vs[0], BV):
                self.append(x, [vs[1]] * self.known(vs[0]))
                return o
            if name == "append" and len(vs) == 1:
                self.append(x, [c.v for c in self.characters(vs[0])])
                return o
            if name == "append" and len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                self.append(x, [c.v for c in vs[0].seq.items[vs[0].i:vs[1].i]])
                return o
            if name in ("at", "operator[]"):
                return self.subscript(x, vs[0])
            if name in ("back", "front"):
                if not x.items:
                    raise Fault("an access past the end")
                return x.items[-1 if name == "back" else 0]
        if isinstance(x, Opt):
            if name in ("has_value", "operator bool"):
                return boolean(x.cell is not None)
            if name in ("value", "operator*"):
                if x.cell is None:
                    raise Fault("the value of an empty optional")
                return x.cell
            if name == "value_or":
                return x.cell if x.cell is not None else args[0]
            if name == "reset":
                x.cell = None
                return VOID
        if isinstance(x, Stream):
            return x.call(self, name, vs, o)
        if isinstance(x, Lam):
            return self.invoke(fr, x, args)
        if name == "max" and o is None and not vs and "numeric_limits<" in key:
            w, sg = width(self.p, nd["t"])
            return num((1 << (w - sg)) - 1, w, sg)
        if name.startswith("__builtin_bswap") or name.startswith("__bswap"):
            b = self.raw(vs[0])
            return BV(vs[0].w, vs[0].s, sum((b[i:i + 8] for i in reversed(range(0, vs[0].w, 8))), ()))
        raise Cannot("a call of %s (%s:%s)" % (base[:80], fr.f.file.split("/")[-1], nd.get("l")))


LAMBDAS = {}


def lambda_ops(p, rec):
    if not LAMBDAS:
        for k in sorted(p.funcs):
            f = p.funcs[k]
            if f.name == "operator()":
                LAMBDAS.setdefault(f.record, []).append(k)
    return LAMBDAS.get(rec, [])


def last_name(key):
    """The unqualified name of a function, without template arguments."""
    depth, out = 0, []
    end = len(key)
    i = key.find("operator")
    if i >= 0 and (i == 0 or key[i - 1] == ":"):
        t = key[i:]
        return "operator bool" if t.startswith("operator bool") else t.split("(")[0] if not t.startswith("operator()") else "operator()"
    for i, c in enumerate(key):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            end = i
            break
    t = key[:end]
    for c in t:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    return "".join(out).split("::")[-1]


class Frame:
    def __init__(self, f, env, this, depth):
        self.f, self.env, self.this, self.depth = f, env, this, depth
        self.vals = {}


def partition(p, run, limit=200000, models=None):
    """Evaluates `run(ev)` on every cube of inputs it distinguishes: yields (fixed bits, evaluator, result or exception)."""
    work, n, end = [{}], 0, time.monotonic() + 200
    while work:
        if time.monotonic() > end:
            raise Cannot("more cases than there is time for")
        fixed = work.pop()
        n += 1
        if n > limit:
            raise Cannot("more than %d cases" % limit)
        ev = Evaluator(p, fixed)
        if models:
            ev.models.update(models)
        try:
            r = run(ev)
        except Split as s:
            if s.origin in fixed:
                raise Cannot("a bit that is known and asked for again")
            for v in (1, 0):
                d = dict(fixed)
                d[s.origin] = v
                work.append(d)
            continue
        except (Fault, Thrown) as e:
            r = e
        yield fixed, ev, r
