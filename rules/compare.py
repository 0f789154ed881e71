"""Comparison of JSON values: every pair of types, every order of their values (J03).

The six operators are followed over an abstract pair of values: the type each holds, the range its value is in and which of the
two is the smaller. Conversions keep a value, shift it by a power of two, or lose it; a comparison is decided by what is left.
"""
import itertools
import re

from rules.chars import Cannot, TYPES, Unknown, Val, compare, of_type
from rules.common import *  # noqa

JSON = "fly::Json"
OPS = ("==", "!=", "<", "<=", ">", ">=")
FLIP = {"<": ">", ">": "<", "=": "=", None: None}
INT = {"long": (64, True), "unsigned long": (64, False), "bool": (1, False), "long long": (64, True), "unsigned long long": (64, False)}
FLOATS = ("long double", "double", "float")
H = 1 << 63
CLASSES = {"long": (("negative", -H, -1), ("small", 0, H - 1)), "unsigned long": (("small", 0, H - 1), ("large", H, 2 * H - 1)),
           "bool": (("bool", 0, 1),), "long double": (("-infinity", 0, 0), ("finite", 0, 0), ("infinity", 0, 0))}
CLASSES["long long"], CLASSES["unsigned long long"] = CLASSES["long"], CLASSES["unsigned long"]
ORDER = ("-infinity", "negative", "small", "large", "infinity")
ABS = ("std::abs", "std::fabs", "fabs", "fabsl", "std::fabsl", "abs")
FORWARD = ("std::move", "std::forward", "std::as_const")


def plain_type(t):
    return strip_type(t).replace("const ", "").strip()


def template_args(t):
    out, depth, cur = [], 0, ""
    for ch in t[t.index("<") + 1:t.rindex(">")]:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch in "<(["
        depth -= ch in ">)]"
        cur += ch
    return out + [cur.strip()]


class Pairs:
    """The operators over one abstract pair of values X and Y."""

    def __init__(self, p, alts):
        self.p, self.alts = p, alts
        self.seen = set()

    # -- nondeterminism: what an operation asks of the values is answered once, and both ways in turn
    def runs(self, fn):
        script = []
        while True:
            self.script, self.at, self.memo = script, 0, {}
            yield fn()
            script = [[n, i] for n, i in self.script]
            while script and script[-1][1] + 1 >= script[-1][0]:
                script.pop()
            if not script:
                return
            script[-1][1] += 1
            if len(script) > 12:
                raise Cannot("too many questions about the values")

    def choose(self, key, options):
        if key in self.memo:
            return self.memo[key]
        if self.at == len(self.script):
            self.script.append([len(options), 0])
        v = options[self.script[self.at][1]]
        self.at += 1
        self.memo[key] = v
        return v

    def setup(self, kx, ky, cx, cy, rel):
        self.kind = {"X": kx, "Y": ky}
        self.cls = {"X": cx, "Y": cy}
        self.rel = rel

    def relation(self, a, b):
        return "=" if a == b else self.rel if (a, b) == ("X", "Y") else FLIP[self.rel]

    # -- values
    def interval(self, v):
        if isinstance(v, Val):
            return v.lo, v.hi
        if v[0] == "id":
            _n, lo, hi = self.cls[v[1]]
            return lo + v[2], hi + v[2]
        return None

    def stored(self, s):
        t = self.kind[s]
        if t in INT:
            return ("id", s, 0)
        if t in FLOATS:
            return ("flt", s)
        return ("val", s)

    def cast(self, v, t):
        t = plain_type(t)
        if t in FLOATS:
            if isinstance(v, Val):
                return ("num", v.lo) if v.single else ("lost", "constant")
            if v[0] == "id":
                if v[2]:
                    return ("lost", v, t)
                return ("flt", v[1]) if t == "long double" or self.kind[v[1]] == "bool" else ("lost", v, t)
            if v[0] in ("flt", "diff", "abs", "eps", "num"):
                return v if t == "long double" else ("lost", v, t)
            return v
        if t in TYPES:
            w, s = TYPES[t]
            if isinstance(v, Val):
                from rules.chars import convert
                return convert(v, w, s)
            lo_hi = self.interval(v)
            if lo_hi is None:
                return ("lost", v, t) if v[0] in ("flt", "diff", "abs", "lost", "fn", "num") else v
            lo, hi = lo_hi
            a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if t == "bool":
                return ("lost", v, t) if lo <= 0 <= hi and not (lo == hi) else v if self.kind[v[1]] == "bool" else ("lost", v, t)
            if a <= lo and hi <= b:
                return v
            for k in (1 << w, -(1 << w)):
                if a <= lo + k and hi + k <= b:
                    return ("id", v[1], v[2] + k)
            return ("lost", v, t)
        return v

    # -- comparison of two values: "<", "=" or ">"
    def order(self, a, b):
        ia, ib = self.interval(a), self.interval(b)
        if ia and ib:
            if ia[1] < ib[0]:
                return "<"
            if ia[0] > ib[1]:
                return ">"
            if ia[0] == ia[1] == ib[0] == ib[1]:
                return "="
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ("id", "flt", "val", "fn") and len(a) > 1:
            if a[0] == "id" and a[2] == b[2]:
                return self.relation(a[1], b[1])
            if a[0] == "flt":
                return self.relation(a[1], b[1])
            if a[0] == "val":
                if self.kind[a[1]] != self.kind[b[1]]:
                    raise Cannot("values of two types compared")
                return self.relation(a[1], b[1])
            if a[0] == "fn" and a[2] == b[2]:
                if a[1] == b[1] or self.relation(a[1], b[1]) == "=":
                    return "="
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x[0] == "abs" and y[0] in ("eps", "num"):
                    r = self.distance(x, y)
                    return r if not flip or r is None else FLIP[r]
                if x[0] == "flt" and y[0] == "num" and y[1] in ("inf", "-inf"):
                    c = self.cls[x[1]][0]
                    r = "=" if c == ("infinity" if y[1] == "inf" else "-infinity") else "<" if y[1] == "inf" else ">"
                    return FLIP[r] if flip else r
        x, y = sorted((repr(a), repr(b)))
        can = "<=>"
        if ia and ib:
            can = ("<" if ia[0] < ib[1] else "") + "=" + (">" if ia[1] > ib[0] else "")
        if x != repr(a):
            can = "".join(FLIP[r] for r in can)
        r = self.choose(("order", x, y), tuple(can))
        return r if x == repr(a) else FLIP[r]

    def distance(self, x, y):
        """|a - b| against a constant: "<", "=", ">" or None if it is not a number."""
        d = x[1]
        if d[0] != "diff" or {d[1][0], d[2][0]} != {"flt"}:
            return self.choose(("far", repr(x), repr(y)), ("<", "=", ">"))
        sides = [d[1][1], d[2][1]]
        inf = [self.cls[s][0] for s in sides if self.cls[s][0].endswith("infinity")]
        if len(inf) == 2 and inf[0] == inf[1]:
            return None
        if inf:
            return ">"
        if self.relation(*sides) == "=":
            if y[0] == "num":
                return "<" if y[1] > 0 else "=" if y[1] == 0 else ">"
            return "<"
        if y[0] == "num" and y[1] <= 0:
            return ">"
        return self.choose(("near", repr(y)), ("<", "=", ">"))

    def test(self, op, a, b):
        r = self.order(a, b)
        if r is None:
            return op == "!="
        return {"==": r == "=", "!=": r != "=", "<": r == "<", ">": r == ">", "<=": r != ">", ">=": r != "<"}[op]

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Val):
            if v.single:
                return v.lo != 0
            raise Cannot("a condition")
        if v[0] == "null":
            return False
        if v[0] == "ptr":
            return True
        i = self.interval(v)
        if i and (i[0] > 0 or i[1] < 0):
            return True
        return self.choose(("true", repr(v)), (True, False))

    # -- functions
    def call(self, f, args, this=None, caps=None, depth=0):
        if depth > 12:
            raise Cannot("recursion")
        self.seen.add(f.key)
        env = dict(caps or {})
        env.update({q["v"]: a for q, a in zip(f.params, args)})
        if this is not None:
            env["this"] = this
        if not f.blocks:
            raise Cannot("no body: " + f.key)
        b, steps = f.entry, 0
        while True:
            steps += 1
            if steps > 300:
                raise Cannot("a loop")
            blk = f.blocks[b]
            for i in blk["e"]:
                nd = f.nodes[i]
                if nd["k"] == "ReturnStmt":
                    return self.value(f, nd["c"][0], env, depth) if nd.get("c") else None
                if nd["k"] == "DeclStmt":
                    for d in nd["decls"]:
                        if d.get("init") is not None:
                            env[d["v"]] = self.value(f, d["init"], env, depth)
                elif nd["k"] == "BinaryOperator" and nd["op"] == "=":
                    t = nd["c"][0]
                    while f.nodes[t]["k"] in ("ParenExpr", "ImplicitCastExpr"):
                        t = f.nodes[t]["c"][0]
                    if f.nodes[t]["k"] != "DeclRefExpr":
                        raise Cannot("an assignment")
                    env[f.nodes[t]["v"]] = self.value(f, nd["c"][1], env, depth)
                elif nd["k"] == "CompoundAssignOperator" or nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--"):
                    raise Cannot("an assignment")
            t, succ = blk.get("t"), blk["s"]
            if t and t.get("k") == "SwitchStmt":
                b = self.switch(f, t, succ, env, depth)
            elif t and t.get("cond") is not None and len(succ) == 2:
                c = self.truth(self.value(f, t["cond"], env, depth))
                b = succ[0] if c else succ[1]
            elif succ:
                b = succ[0]
            else:
                return None
            if b is None or b < 0:
                raise Cannot("no way on")

    def switch(self, f, t, succ, env, depth):
        v = self.value(f, t["cond"], env, depth)
        default = None
        for s in succ:
            if s is None or s < 0:
                continue
            lab = f.blocks[s].get("label") or {}
            vs = lab.get("vals") or ([lab["v"]] if "v" in lab else [])
            if lab.get("k") == "CaseStmt" and vs:
                if any(self.test("==", v, Val(80, True, x, x)) for x in vs):
                    return s
            elif lab.get("k") == "CaseStmt":
                raise Cannot("a case")
            else:
                default = s
        return default

    def lambda_call(self, lam, args, depth):
        """The operator() of a closure for the types of the arguments."""
        if not (isinstance(lam, tuple) and lam[0] == "lam"):
            raise Cannot("the visitor")
        want = [self.alts_of(a) for a in args]
        for f in self.ops(lam[1]):
            got = [plain_type(q["t"]).rstrip("&* ") for q in f.params]
            if len(got) == len(want) and all(g == w for g, w in zip(got, want)):
                return self.call(f, args, None, lam[2], depth + 1)
        raise Cannot("no operator() of the visitor for " + str(want)[:60])

    def alts_of(self, a):
        if isinstance(a, tuple) and a[0] in ("id", "flt", "val"):
            return self.kind[a[1]]
        raise Cannot("an argument of the visitor")

    def ops(self, rec):
        if not hasattr(self.p, "_closures"):
            self.p._closures = {}
            for f in self.p.funcs.values():
                m = re.match(r"(.*)::operator\(\)[(<]", f.key)
                if m and f.q.endswith("operator()"):
                    self.p._closures.setdefault(f.record or m.group(1), []).append(f)
        return self.p._closures.get(rec, ())

    def value(self, f, i, env, depth):
        nd = f.nodes[i]
        k = nd["k"]
        if "cv" in nd and isinstance(nd["cv"], (bool, int)):
            if isinstance(nd["cv"], bool) or plain_type(nd["t"]) == "bool":
                return bool(nd["cv"])
            return Val(80, True, nd["cv"], nd["cv"])
        if k == "CXXBoolLiteralExpr":
            return bool(nd.get("v"))
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr", "SubstNonTypeTemplateParmExpr",
                 "CXXBindTemporaryExpr", "CXXRewrittenBinaryOperator"):
            return self.value(f, nd["c"][0], env, depth)
        if k == "DeclRefExpr":
            if nd.get("v") in env:
                return env[nd["v"]]
            raise Cannot("a variable")
        if k == "CXXNullPtrLiteralExpr":
            return ("null",)
        if k == "FloatingLiteral":
            return ("num", float(nd.get("val", nd.get("v", "nan"))))
        if k == "CXXThisExpr":
            return ("ptr", env["this"])
        if k == "MemberExpr":
            o = self.value(f, nd["c"][0], env, depth)
            if isinstance(o, tuple) and o[0] == "ptr":
                o = o[1]
            if isinstance(o, tuple) and o[0] == "json" and nd.get("m") == "m_value":
                return ("variant", o[1])
            if isinstance(o, tuple) and o[0] == "val":
                return ("fn", o[1], nd.get("m"))
            raise Cannot("a field")
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            v = self.value(f, nd["c"][0], env, depth)
            ck = nd.get("ck")
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "NullToPointer", "BitCast"):
                return v
            if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                return self.truth(v)
            if isinstance(v, bool):
                v = Val(1, False, int(v), int(v))
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
                return self.cast(v, nd["t"])
            raise Cannot("a conversion (%s)" % ck)
        if k == "LambdaExpr":
            caps = {}
            for c in nd.get("caps", ()):
                caps[c["v"]] = env[c["v"]] if c["v"] in env else self.value(f, c["e"], env, depth)
            return ("lam", nd["lambda"], caps)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(nd.get("args", ())) == 1:
            return self.value(f, nd["args"][0], env, depth)
        if k == "UnaryOperator":
            v = self.value(f, nd["c"][0], env, depth)
            op = nd["op"]
            if op == "!":
                return not self.truth(v)
            if op == "&":
                return ("ptr", v)
            if op == "*" and isinstance(v, tuple) and v[0] == "ptr":
                return v[1]
            if op == "+":
                return v
            if op == "-" and isinstance(v, Val):
                return Val(80, True, -v.hi, -v.lo)
            if op == "-" and v[0] == "num":
                return ("num", -v[1]) if not isinstance(v[1], str) else ("num", "-" + v[1])
            if op == "-" and v[0] == "diff":
                return ("diff", v[2], v[1])
            raise Cannot("operator " + op)
        if k == "BinaryOperator":
            op = nd["op"]
            if op in ("&&", "||"):
                a = self.truth(self.value(f, nd["c"][0], env, depth))
                return a if a == (op == "||") else self.truth(self.value(f, nd["c"][1], env, depth))
            if op == ",":
                self.value(f, nd["c"][0], env, depth)
                return self.value(f, nd["c"][1], env, depth)
            a, b = (self.value(f, c, env, depth) for c in nd["c"])
            return self.operator(op, a, b)
        if k == "ConditionalOperator":
            c = self.truth(self.value(f, nd["c"][0], env, depth))
            return self.value(f, nd["c"][1 if c else 2], env, depth)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.invoke(f, nd, env, depth)
        raise Cannot("a construct (" + k + ")")

    def operator(self, op, a, b):
        a, b = (Val(1, False, int(x), int(x)) if isinstance(x, bool) else x for x in (a, b))
        if op in OPS:
            if any(isinstance(x, tuple) and x[0] in ("ptr", "null") for x in (a, b)):
                same = a == b
                if {x[0] for x in (a, b) if isinstance(x, tuple)} == {"val", "null"}:
                    same = True
                if op in ("==", "!="):
                    return same == (op == "==")
                raise Cannot("pointers compared")
            return self.test(op, a, b)
        if op == "<=>":
            r = self.order(a, b)
            if r is None:
                raise Cannot("an unordered result")
            return Val(8, True, *[{"<": -1, "=": 0, ">": 1}[r]] * 2)
        if op == "-" and all(isinstance(x, tuple) and x[0] == "flt" for x in (a, b)):
            return ("diff", a, b)
        if isinstance(a, Val) and isinstance(b, Val) and op in ("-", "+"):
            s = 1 if op == "+" else -1
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if s == 1 else (a.lo - b.hi, a.hi - b.lo)
            return Val(80, True, lo, hi)
        if op in ("+", "-", "*", "/", "%", "&", "|", "^"):
            return ("lost", op, repr(a), repr(b))
        raise Cannot("operator " + op)

    def invoke(self, f, nd, env, depth):
        key = nd.get("f") or ""
        name = key.split("(")[0].split("<")[0].strip()
        g = self.p.funcs.get(key)
        obj = nd.get("obj")
        if nd["k"] == "CXXOperatorCallExpr":
            args = [self.value(f, a, env, depth) for a in nd["args"]]
            op = nd["op"]
            if op == "()" and isinstance(args[0], tuple) and args[0][0] == "lam":
                if g is not None:
                    return self.call(g, args[1:], None, args[0][2], depth + 1)
                return self.lambda_call(args[0], args[1:], depth)
            if g is not None and g.file and "/fly/" in "/" + g.file:
                return self.call(g, args, None, None, depth + 1)
            if op in OPS or op == "<=>":
                return self.operator(op, args[0], args[1] if len(args) > 1 else Val(8, True, 0, 0))
            if op in ("*", "->") and len(args) == 1:
                return args[0][1] if isinstance(args[0], tuple) and args[0][0] == "ptr" and op == "*" else args[0]
            raise Cannot("operator " + op)
        args = [self.value(f, a, env, depth) for a in nd.get("args", ())]
        if nd["k"] == "CXXMemberCallExpr" and obj is not None:
            o = self.value(f, obj, env, depth)
            if isinstance(o, tuple) and o[0] == "ptr":
                o = o[1]
            m = re.match(r".*::(\w+)", re.sub(r"<.*>", "", key.split("(")[0]) if "<" in key else key.split("(")[0])
            method = nd.get("m") or (re.findall(r"::(operator\w*|\w+)(?:<[^()]*>)?\(", key) or [m.group(1) if m else ""])[-1]
            if isinstance(o, tuple) and o[0] == "variant":
                if method == "index":
                    n = self.alts.index(self.kind[o[1]])
                    return Val(80, True, n, n)
                if method == "valueless_by_exception":
                    return False
            if isinstance(o, tuple) and o[0] == "json" and g is not None:
                return self.call(g, args, o, None, depth + 1)
            if isinstance(o, tuple) and o[0] == "val":
                if method == "compare" and args and args[0][0] == "val":
                    return self.operator("<=>", o, args[0])
                if not args:
                    return ("fn", o[1], method)
            raise Cannot("a call of " + (method or key)[:60])
        if name == "std::visit":
            sides = args[1:]
            if not all(isinstance(s, tuple) and s[0] == "variant" for s in sides):
                raise Cannot("what is visited")
            return self.lambda_call(args[0], [self.stored(s[1]) for s in sides], depth)
        if name in FORWARD:
            return args[0]
        if name in ("std::get", "std::get_if", "std::holds_alternative", "std::__exact_cast"):
            o = args[0]
            ptr = isinstance(o, tuple) and o[0] == "ptr"
            o = o[1] if ptr else o
            if not (isinstance(o, tuple) and o[0] == "variant"):
                raise Cannot("std::get")
            if name == "std::holds_alternative":
                t = template_args(key[:key.index("(")])[0] if "<" in key.split("(")[0] else None
            else:
                t = plain_type(nd["t"]).rstrip("&* ")
            if t not in self.alts:
                raise Cannot("the alternative " + str(t)[:40])
            held = self.kind[o[1]] == t
            if name == "std::holds_alternative":
                return held
            if name == "std::get_if":
                return ("ptr", self.stored(o[1])) if held else ("null",)
            if not held:
                return ("threw",)
            return self.stored(o[1])
        if name in ("std::cmp_equal", "std::cmp_not_equal", "std::cmp_less", "std::cmp_greater", "std::cmp_less_equal", "std::cmp_greater_equal"):
            op = {"equal": "==", "not_equal": "!=", "less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">="}[name[9:]]
            return self.test(op, *args)
        if name in ("std::is_eq", "std::is_neq", "std::is_lt", "std::is_gt", "std::is_lteq", "std::is_gteq"):
            op = {"eq": "==", "neq": "!=", "lt": "<", "gt": ">", "lteq": "<=", "gteq": ">="}[name[8:]]
            return self.test(op, args[0], Val(8, True, 0, 0))
        if name in ABS and len(args) == 1:
            a = args[0]
            if isinstance(a, tuple) and a[0] == "diff":
                return ("abs", ("diff", *sorted(a[1:], key=repr)))
            return ("lost", "abs", repr(a))
        if name.startswith("std::numeric_limits"):
            what = key.split("::")[-1].split("(")[0]
            if what in ("epsilon", "denorm_min") or what == "min" and plain_type(nd["t"]) in FLOATS:
                return ("eps", key)
            if what == "infinity":
                return ("num", "inf")
            raise Cannot("numeric_limits")
        if name in ("std::isnan", "isnan"):
            return False
        if name in ("std::isinf", "std::isfinite") and args and args[0][0] == "flt":
            inf = self.cls[args[0][1]][0].endswith("infinity")
            return inf == (name == "std::isinf")
        if name in ("std::equal", "std::ranges::equal", "std::lexicographical_compare"):
            s = [a for a in args if isinstance(a, tuple) and a[0] in ("fn", "val")]
            if len(s) == len(args) and (len(s) == 4 and [a[2] for a in s] in (["begin", "end"] * 2, ["cbegin", "cend"] * 2) and s[0][1] == s[1][1]):
                return self.relation(s[0][1], s[2][1]) == ("<" if "lexico" in name else "=")
            raise Cannot("a comparison of ranges")
        if g is not None and g.blocks:
            return self.call(g, args, None, None, depth + 1)
        raise Cannot("a call of " + (name or "?")[:80])


def number(t):
    return t in ("long", "unsigned long", "long long", "unsigned long long") or t in FLOATS


def cases(kx, ky):
    """The ranges of the two values and which is the smaller."""
    one = (("any", 0, 0),)
    for cx, cy in itertools.product(CLASSES.get(kx, one), CLASSES.get(ky, one)):
        if number(kx) and number(ky):
            a, b = cx[0], cy[0]
            if a == b == "finite" or (a == b and not a.endswith("infinity")) or ("finite" in (a, b) and not (a + b).count("infinity")):
                rels = ("<", "=", ">")
            elif a == b:
                rels = ("=",)
            elif a == "finite":
                rels = ("<",) if b == "infinity" else (">",)
            elif b == "finite":
                rels = (">",) if a == "infinity" else ("<",)
            else:
                rels = ("<",) if ORDER.index(a) < ORDER.index(b) else (">",)
        elif kx == ky:
            rels = ("=",) if kx == "std::nullptr_t" else ("<", "=", ">")
        else:
            rels = (None,)
        for r in rels:
            yield cx, cy, r


def short(t):
    return {"std::nullptr_t": "null", "bool": "boolean", "long": "signed", "unsigned long": "unsigned", "long double": "floating-point"}.get(
        t, "string" if t.startswith("std::basic_string") else "object" if t.startswith("std::map") else "array" if t.startswith("std::vector") else t)


def J03(p, rep, thorough):
    rec = p.records[JSON]
    var = [x for x in rec["fields"] if "std::variant<" in x["t"]]
    rep.require(len(var) == 1, "a Json holds one variant")
    t = var[0]["t"]
    alts = [plain_type(a) for a in template_args(t[t.index("std::variant"):])]
    rep.require(len(alts) == len(set(alts)) >= 8 and sum(map(number, alts)) >= 3, "the alternatives of a Json are the JSON types")
    fn = {}
    for op in OPS:
        fs = [f for f in p.q("fly::operator" + op) if len(f.params) == 2 and all(JSON in q["t"] and "Json" == plain_type(q["t"]).rstrip("& ").split("::")[-1] for q in f.params)]
        rep.require(len(fs) <= 1, "one operator%s of two Json values" % op)
        if fs:
            fn[op] = fs[0]
    rep.require({"==", "<"} <= set(fn), "operator== and operator< of two Json values")
    ev = Pairs(p, alts)
    X, Y = ("json", "X"), ("json", "Y")

    def apply(op, a, b):
        if op in fn:
            return ev.truth(ev.call(fn[op], [a, b]))
        if op == "!=":
            return not apply("==", a, b)
        raise Cannot("operator" + op + " is not declared")

    R = "a comparison of JSON values is consistent"
    less = {}
    n = runs = 0
    for kx, ky in itertools.product(alts, alts):
        bad = {}
        name = "%s with %s" % (short(kx), short(ky))
        for cx, cy, rel in cases(kx, ky):
            n += 1
            ev.setup(kx, ky, cx, cy, rel)
            say = "%s, %s%s" % (cx[0], cy[0], {"<": ", the first smaller", ">": ", the first larger", "=": ", equal", None: ""}[rel]) \
                if CLASSES.get(kx) or CLASSES.get(ky) or rel else "any values"

            def one():
                return {(op, d): apply(op, *((X, Y) if d else (Y, X))) for op in OPS for d in (True, False)}

            for r in ev.runs(one):
                runs += 1

                def need(op, cond, why):
                    if not cond:
                        bad.setdefault(op, "%s: %s" % (say, why))

                for d in (True, False):
                    e, lt = r["==", d], r["<", d]
                    need("!=", r["!=", d] == (not e), "!= is not the opposite of ==")
                    need(">", r[">", d] == r["<", not d], "a > b is not b < a")
                    need(">=", r[">=", d] == (not lt), "a >= b is not the opposite of a < b")
                    need("<=", r["<=", d] == (not r["<", not d]), "a <= b is not the opposite of b < a")
                e, lt, gt = r["==", True], r["<", True], r["<", False]
                if rel:
                    need("<", lt == (rel == "<") and gt == (rel == ">"), "a < b is %s, b < a is %s" % (lt, gt))
                    if rel == "=" or not any(k in FLOATS for k in (kx, ky)):
                        need("==", e == (rel == "="), "a == b is %s" % e)
                else:
                    need("==", not e, "values of two types are equal")
                    need("<", lt != gt, "values of two types are not ordered")
                    if less.setdefault((kx, ky), lt) != lt:
                        need("<", False, "the order of the types depends on the values")
                need("==", e == r["==", False], "a == b and b == a differ")
                need("<", not (lt and gt), "a < b and b < a both hold")
        for op in ("==", "<", "!=", "<=", ">", ">="):
            f = fn.get(op)
            if f is not None:
                rep.check(R, "operator%s, %s" % (op, name), op not in bad, rep.where(f), bad.get(op, ""))
    order = {k: (0 if number(k) else 1) for k in alts}
    for a, b, c in itertools.product(alts, alts, alts):
        ab, bc, ac = less.get((a, b)), less.get((b, c)), less.get((a, c))
        if ab and bc and ac is not None:
            rep.check("the order of the types is transitive", "%s, %s, %s" % (short(a), short(b), short(c)), ac, rep.where(fn["<"]), "")
        if number(a) and number(b) and not number(c):
            rep.check("the numbers have one place among the types", "%s, %s, %s" % (short(a), short(b), short(c)),
                      less.get((a, c)) == less.get((b, c)), rep.where(fn["<"]), "")
    rep.functions |= ev.seen
    rep.count("pairs of types", len(alts) ** 2)
    rep.count("abstract pairs of values", n)
    rep.count("abstract evaluations", runs)
    rep.explanation = ("The six operators are followed for every pair of JSON types and every order of the two values, through the visitor instance the "
                       "compiler chose for the pair; conversions keep, shift or lose a value, and a comparison has to come out as the values are ordered.")
    rep.assumptions.append("long double represents every 64-bit integer exactly, as on this platform")
    rep.assumptions.append("the comparison operators of std::string, std::vector and std::map are consistent if those of their elements are")
    rep.assumptions.append("no value is a NaN; equality of floating-point numbers is within a tolerance, as documented, and so not compared with their order")


RULES = {"J03": J03}
