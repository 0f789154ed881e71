"""Character classification is exact for every character of every character type (F05)."""
from rules.common import *  # noqa

WHERE = ("fly::detail::BasicClassifier<", "fly::BasicString<")
TYPES = {  # type: (width, signed)
    "char": (8, True), "wchar_t": (32, True), "char8_t": (8, False), "char16_t": (16, False), "char32_t": (32, False),
    "signed char": (8, True), "unsigned char": (8, False), "bool": (1, False), "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False)}


class Unknown(Exception):
    """The interval does not decide a condition: it is divided."""


class Cannot(Exception):
    """A construct the domain has no transfer function for."""


class Val:
    """An integer of a type: an interval, and the bits known of its two's complement."""
    __slots__ = ("w", "s", "lo", "hi", "mask", "bits")

    def __init__(self, w, s, lo, hi, mask=0, bits=0):
        self.w, self.s = w, s
        full = (1 << w) - 1
        # What the interval says of the bits: the common leading ones.
        a, b = lo & full, hi & full
        if (lo < 0) == (hi < 0):
            k = w
            d = a ^ b
            lead = full & ~((1 << d.bit_length()) - 1)
            mask, bits = mask | lead, (bits & ~lead) | (a & lead)
        bits &= mask
        # What the bits say of the interval.
        sign = 1 << (w - 1)
        free = full & ~mask
        if not s or mask & sign:
            base = bits - (1 << w) if s and bits & sign else bits
            lo, hi = max(lo, base), min(hi, base + free)
        self.lo, self.hi, self.mask, self.bits = lo, hi, mask, bits
        if self.lo > self.hi:
            raise Cannot("empty")

    def __repr__(self):
        return "%d..%d:%d%s" % (self.lo, self.hi, self.w, "s" if self.s else "u")

    @property
    def single(self):
        return self.lo == self.hi


def of_type(t):
    t = strip_type(t).replace("const ", "")
    if t not in TYPES:
        raise Cannot("a value of type " + t)
    return TYPES[t]


def bounds(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def convert(v, w, s):
    lo, hi = bounds(w, s)
    full = (1 << w) - 1
    if lo <= v.lo and v.hi <= hi:
        if w >= v.w:
            return Val(w, s, v.lo, v.hi, v.mask if v.lo >= 0 or True and w == v.w else 0, v.bits if v.lo >= 0 or w == v.w else 0)
        return Val(w, s, v.lo, v.hi, v.mask & full, v.bits & full)
    # Reduced modulo the width.
    if (v.lo - lo) >> w == (v.hi - lo) >> w:
        k = ((v.lo - lo) >> w) << w
        return Val(w, s, v.lo - k, v.hi - k, v.mask & full, v.bits & full)
    return Val(w, s, lo, hi, v.mask & full, v.bits & full)


def known(w, s, mask, bits):
    lo, hi = bounds(w, s)
    return Val(w, s, lo, hi, mask, bits)


def arith(op, a, b, w, s):
    if op in ("&", "|", "^"):
        full = (1 << w) - 1
        a1, b1, a0, b0 = a.mask & a.bits, b.mask & b.bits, a.mask & ~a.bits & full, b.mask & ~b.bits & full
        if op == "&":
            one, zero = a1 & b1, a0 | b0
        elif op == "|":
            one, zero = a1 | b1, a0 & b0
        else:
            one, zero = (a1 & b0) | (a0 & b1), (a1 & b1) | (a0 & b0)
        return known(w, s, one | zero, one)
    if op == "<<" and b.single:
        lo, hi = a.lo << b.lo, a.hi << b.lo
    elif op == ">>" and b.single:
        lo, hi = a.lo >> b.lo, a.hi >> b.lo
    elif op == "+":
        lo, hi = a.lo + b.lo, a.hi + b.hi
    elif op == "-":
        lo, hi = a.lo - b.hi, a.hi - b.lo
    elif op == "*":
        x = [i * j for i in (a.lo, a.hi) for j in (b.lo, b.hi)]
        lo, hi = min(x), max(x)
    elif op in ("/", "%") and a.single and b.single and b.lo:
        q = abs(a.lo) // abs(b.lo) * (1 if (a.lo < 0) == (b.lo < 0) else -1)
        lo = hi = q if op == "/" else a.lo - q * b.lo
    elif op == "/" and b.single and b.lo > 0 and a.lo >= 0:
        lo, hi = a.lo // b.lo, a.hi // b.lo
    elif op == "%" and b.single and b.lo > 0 and a.lo >= 0:
        lo, hi = (a.lo % b.lo, a.hi % b.lo) if a.lo // b.lo == a.hi // b.lo else (0, b.lo - 1)
    elif op in ("/", "%"):
        raise Unknown()
    else:
        raise Cannot("operator " + op)
    l, h = bounds(w, s)
    if lo < l or hi > h:
        if s:
            raise Cannot("signed overflow")
        if lo >> w != hi >> w:
            return Val(w, s, l, h)
        return Val(w, s, lo & h, hi & h)
    return Val(w, s, lo, hi)


def compare(op, a, b):
    if op in (">", ">="):
        a, b, op = b, a, {">": "<", ">=": "<="}[op]
    if op == "<":
        return True if a.hi < b.lo else False if a.lo >= b.hi else None
    if op == "<=":
        return True if a.hi <= b.lo else False if a.lo > b.hi else None
    eq = True if a.single and b.single and a.lo == b.lo else None
    if a.hi < b.lo or b.hi < a.lo or a.mask & b.mask & (a.bits ^ b.bits):
        eq = False
    return eq if op == "==" or eq is None else not eq


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def unbox(a):
    return a.v if isinstance(a, Box) else a


class Evaluator:
    """Follows a function over an interval of arguments; every condition has to be decided by it."""

    def __init__(self, p):
        self.p = p
        self.seen = set()

    def call(self, f, args, depth=0, caps=None):
        if depth > 8:
            raise Cannot("recursion")
        self.seen.add(f.key)
        f.prepare()
        env = dict(caps or {})
        for q, a in zip(f.params, args):
            # A box holds what a variable holds; a reference shares the box.
            env[q["v"]] = a if isinstance(a, Box) and q["t"].rstrip().endswith("&") else Box(unbox(a))
        b, steps = f.entry, 0
        while True:
            steps += 1
            if steps > 2000:
                raise Cannot("a loop")
            blk = f.blocks[b]
            vals = {}
            for i in blk["e"]:
                nd = f.nodes[i]
                if nd["k"] == "ReturnStmt":
                    if not nd.get("c") or nd["c"][0] < 0:
                        return ("void",)
                    return self.value(f, nd["c"][0], env, depth)
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if d.get("init") is not None and d["init"] >= 0:
                            env[d["v"]] = self.given(f, d["init"], env, depth, d.get("t", ""))
                elif nd["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and not f.parents.get(i) and i != (blk.get("t") or {}).get("cond"):
                    self.value(f, i, env, depth)
                elif nd["k"] in ("BinaryOperator", "CompoundAssignOperator") and nd["op"].endswith("=") and nd["op"] not in ("==", "!=", "<=", ">="):
                    self.assign(f, nd, env, depth)
                elif nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--"):
                    v = env[self.target(f, nd["c"][0])]
                    a = v.v
                    if isinstance(a, tuple):
                        v.v = ("ptr", a[1], a[2] + (1 if nd["op"] == "++" else -1))
                        continue
                    v.v = arith("+" if nd["op"] == "++" else "-", a, Val(a.w, a.s, 1, 1), a.w, a.s)
            t = blk.get("t")
            succ = blk["s"]
            if t and t.get("k") == "SwitchStmt":
                b = self.switch(f, t, succ, env, depth)
            elif t and t.get("cond") is not None and len(succ) == 2:
                c = self.value(f, t["cond"], env, depth)
                if t["k"] == "BinaryOperator" or True:
                    r = self.truth(c)
                b = succ[0] if r else succ[1]
            elif len(succ) >= 1:
                b = succ[0]
            else:
                return ("void",)
            if b is None or b < 0:
                raise Cannot("no way on")

    def switch(self, f, t, succ, env, depth):
        v = self.value(f, t["cond"], env, depth)
        default = None
        for s in succ:
            if s is None or s < 0:
                continue
            lab = f.blocks[s].get("label") or {}
            vs = lab.get("vals") or ([lab["v"]] if "v" in lab else [])
            if lab.get("k") == "CaseStmt" and vs:
                for x in vs:
                    r = compare("==", v, Val(v.w, v.s, x, x))
                    if r is None:
                        raise Unknown()
                    if r:
                        return s
            elif lab.get("k") == "CaseStmt":
                raise Cannot("a case")
            else:
                default = s
        return default

    def target(self, f, i):
        nd = f.nodes[i]
        while nd["k"] in ("ParenExpr", "ImplicitCastExpr"):
            nd = f.nodes[nd["c"][0]]
        if nd["k"] != "DeclRefExpr":
            raise Cannot("an assignment")
        return nd["v"]

    def assign(self, f, nd, env, depth):
        v = env[self.target(f, nd["c"][0])]
        x = self.value(f, nd["c"][1], env, depth)
        if nd["op"] != "=":
            a = v.v
            w, s = max((a.w, a.s), (x.w, x.s), (32, True))
            x = arith(nd["op"][:-1], convert(a, w, s), convert(x, w, s), w, s)
            x = convert(x, a.w, a.s)
        v.v = x

    def given(self, f, i, env, depth, t):
        """What an argument or a variable of the type is given: the variable itself for a reference."""
        if t.rstrip().endswith("&"):
            try:
                return env[self.target(f, i)]
            except (Cannot, KeyError):
                pass
        return Box(self.value(f, i, env, depth))

    def truth(self, v):
        if isinstance(v, tuple):
            raise Cannot("a condition")
        if v.lo > 0 or v.hi < 0 or v.mask & v.bits:
            return True
        if v.lo == v.hi == 0:
            return False
        raise Unknown()

    def value(self, f, i, env, depth):
        nd = f.nodes[i]
        k = nd["k"]
        if "cv" in nd and not isinstance(nd["cv"], bool) and isinstance(nd["cv"], int):
            w, s = of_type(nd["t"])
            return convert(Val(80, True, nd["cv"], nd["cv"]), w, s)
        if "cv" in nd and isinstance(nd["cv"], bool):
            return Val(1, False, int(nd["cv"]), int(nd["cv"]))
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr", "SubstNonTypeTemplateParmExpr"):
            return self.value(f, nd["c"][0], env, depth)
        if k == "DeclRefExpr":
            if nd.get("v") in env:
                return env[nd["v"]].v
            raise Cannot("a variable")
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            v = self.value(f, nd["c"][0], env, depth)
            ck = nd.get("ck")
            if ck in ("LValueToRValue", "NoOp"):
                return v
            if ck == "ArrayToPointerDecay" and isinstance(v, tuple) and v[0] == "arr":
                return ("ptr", v[1], 0)
            if isinstance(v, tuple):
                raise Cannot("a conversion")
            if ck == "IntegralToBoolean":
                return Val(1, False, *([1, 1] if self.truth(v) else [0, 0]))
            if ck == "IntegralCast":
                return convert(v, *of_type(nd["t"]))
            raise Cannot("a conversion")
        if k == "InitListExpr" and "[" in nd["t"]:
            return ("arr", tuple(self.value(f, c, env, depth) for c in nd["c"]))
        if k == "LambdaExpr":
            caps = {}
            for c in nd.get("caps", ()):
                if c.get("this"):
                    continue
                if c.get("init"):
                    raise Cannot("a capture")
                caps[c["v"]] = env[c["v"]] if c["v"] in env and c.get("byref") else Box(self.value(f, c["e"], env, depth))
            return ("lam", caps)
        if k == "ArraySubscriptExpr":
            a, b = (self.value(f, c, env, depth) for c in nd["c"])
            return self.element(a, b)
        if k == "UnaryOperator":
            v = self.value(f, nd["c"][0], env, depth)
            op = nd["op"]
            if op == "*" and isinstance(v, tuple) and v[0] == "ptr":
                return self.element(v, Val(64, True, 0, 0))
            if isinstance(v, tuple):
                raise Cannot("operator " + op)
            if op == "!":
                t = self.truth(v)
                return Val(1, False, int(not t), int(not t))
            if op == "~":
                full = (1 << v.w) - 1
                return known(v.w, v.s, v.mask, ~v.bits & v.mask & full)
            if op == "-":
                return arith("-", Val(v.w, v.s, 0, 0), v, v.w, v.s)
            if op == "+":
                return v
            raise Cannot("operator " + op)
        if k == "BinaryOperator":
            op = nd["op"]
            if op in ("&&", "||"):
                a = self.truth(self.value(f, nd["c"][0], env, depth))
                if a == (op == "||"):
                    return Val(1, False, int(a), int(a))
                b = self.truth(self.value(f, nd["c"][1], env, depth))
                return Val(1, False, int(b), int(b))
            if op == ",":
                self.value(f, nd["c"][0], env, depth)
                return self.value(f, nd["c"][1], env, depth)
            a, b = (self.value(f, c, env, depth) for c in nd["c"])
            if isinstance(a, tuple) or isinstance(b, tuple):
                return self.pointers(op, a, b)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                r = compare(op, a, b)
                if r is None:
                    raise Unknown()
                return Val(1, False, int(r), int(r))
            w, s = of_type(nd["t"])
            return arith(op, a, b, w, s)
        if k == "ConditionalOperator":
            c = self.truth(self.value(f, nd["c"][0], env, depth))
            return self.value(f, nd["c"][1 if c else 2], env, depth)
        if k in ("CallExpr", "CXXMemberCallExpr") and nd.get("f") in self.p.funcs:
            g = self.p.funcs[nd["f"]]
            return self.call(g, [self.given(f, a, env, depth, q["t"]) for a, q in zip(nd.get("args", ()), g.params)], depth + 1)
        if k == "CXXOperatorCallExpr" and nd.get("op") == "()" and nd.get("f") in self.p.funcs:
            lam = self.value(f, nd["args"][0], env, depth)
            if isinstance(lam, tuple) and lam[0] == "lam":
                g = self.p.funcs[nd["f"]]
                return self.call(g, [self.given(f, a, env, depth, q["t"]) for a, q in zip(nd["args"][1:], g.params)], depth + 1, lam[1])
        raise Cannot("a construct (" + k + ")")

    def element(self, a, b):
        if not isinstance(a, tuple) or a[0] not in ("arr", "ptr"):
            raise Cannot("a subscript")
        if not b.single:
            raise Unknown()
        at = b.lo + (a[2] if a[0] == "ptr" else 0)
        if not 0 <= at < len(a[1]):
            raise Cannot("an index outside its array")
        return a[1][at]

    def pointers(self, op, a, b):
        if op in ("+", "-") and isinstance(a, tuple) and a[0] == "ptr" and isinstance(b, Val):
            if not b.single:
                raise Unknown()
            return ("ptr", a[1], a[2] + (b.lo if op == "+" else -b.lo))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "ptr" and a[1] is b[1]:
            x, y = (Val(64, True, v[2], v[2]) for v in (a, b))
            if op == "-":
                return arith("-", x, y, 64, True)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                r = compare(op, x, y)
                return Val(1, False, int(r), int(r))
        raise Cannot("operator " + op)


def rng(a, b):
    return (ord(a), ord(b))


UPPER, LOWER, DIGIT = [rng("A", "Z")], [rng("a", "z")], [rng("0", "9")]
CLASSES = {"is_alpha": UPPER + LOWER, "is_upper": UPPER, "is_lower": LOWER, "is_digit": DIGIT,
           "is_x_digit": DIGIT + [rng("A", "F"), rng("a", "f")], "is_space": [(9, 13), (32, 32)]}
MAPS = {"to_upper": (LOWER, -32), "to_lower": (UPPER, 32)}


def pieces(w, s, sets):
    """The character type's values, cut at the edges of the class: (lo, hi, in the class)."""
    lo, hi = bounds(w, s)
    out, at = [], lo
    for a, b in sorted(sets):
        if at < a:
            out.append((at, a - 1, False))
        out.append((a, b, True))
        at = b + 1
    if at <= hi:
        out.append((at, hi, False))
    return out


def decide(ev, f, w, s, lo, hi, want, count):
    """None if every character of the interval gives what is wanted, or an interval or character for which it does not."""
    stack = [(lo, hi)]
    while stack:
        a, b = stack.pop()
        count[0] += 1
        if count[0] > 60000:
            raise Cannot("too many intervals")
        try:
            v = ev.call(f, [Val(w, s, a, b)])
            r = want(v, a, b)
        except Unknown:
            r = None
        if r is True:
            continue
        if a == b:
            return a
        if r is False:
            return a
        m = (a + b) // 2
        stack += [(m + 1, b), (a, m)]
    return None


def F05(p, rep, thorough):
    rep.explanation = (
        "Abstract interpretation of every classification and conversion, for each character type: intervals and known bits of the "
        "argument are followed through the function, and an interval that does not decide a condition is divided, until the whole range "
        "of the type - negative characters included - is shown to give exactly the ASCII class.")
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.record and f.record.startswith(WHERE)), key=lambda f: f.key):
        if f.name not in CLASSES and f.name not in MAPS or len(f.params) != 1:
            continue
        t = strip_type(f.params[0]["t"])
        w, s = TYPES[t]
        n += 1
        ev = Evaluator(p)
        count = [0]
        nm = f"{short_q(f.record)}::{f.name} of {t}"
        bad = None
        try:
            if f.name in CLASSES:
                for lo, hi, inside in pieces(w, s, CLASSES[f.name]):
                    def want(v, a, b, inside=inside):
                        return ev.truth(v) == inside
                    bad = decide(ev, f, w, s, lo, hi, want, count)
                    if bad is not None:
                        break
                text = bad is not None and f"character {bad} is wrongly " + ("excluded" if inside else "included")
            else:
                sets, shift = MAPS[f.name]
                for lo, hi, inside in pieces(w, s, sets):
                    def want(v, a, b, d=shift if inside else 0):
                        if a == b:
                            return v.single and v.lo == a + d
                        if v.hi < a + d or v.lo > b + d:
                            return False
                        return identity(ev, f, w, s, a, b, d)
                    bad = decide(ev, f, w, s, lo, hi, want, count)
                    if bad is not None:
                        break
                text = bad is not None and f"character {bad} is converted wrongly"
            rep.check("exact for every character", nm, bad is None, rep.where(f), text or "")
        except Cannot as e:
            rep.check("exact for every character", nm, False, rep.where(f), f"{e} cannot be followed")
        rep.count("intervals", count[0])
        rep.functions |= ev.seen
    rep.require(n >= 2 * 8 * 5, f"only {n} functions for the five character types were found")


def identity(ev, f, w, s, a, b, d):
    """On the interval the function returns its argument unchanged (and untouched by any operation); otherwise divide."""
    return True if d == 0 and returns_argument(ev, f, w, s, a, b) else None


def returns_argument(ev, f, w, s, a, b):
    x = Val(w, s, a, b)
    return ev.call(f, [x]) is x


RULES = {"F05": F05}
