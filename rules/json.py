"""JSON values: misuse is reported by the library's exception (J02), strings are always valid Unicode (J01)."""
from rules.common import *  # noqa
from rules import exc
from engine.escape import plain
from engine.bounds import entails_le
from engine.models import template_args

JSON = "fly::Json"
ITER = "fly::detail::JsonIterator"
BASE = "fly::JsonException"
KINDS = (("std::basic_string", "string"), ("std::map", "object"), ("std::vector", "array"), ("bool", "bool"), ("long double", "float"),
         ("unsigned long", "uint"), ("long", "int"), ("std::nullptr_t", "null"), ("nullptr_t", "null"))


ALL = {k for _, k in KINDS} | {"in array", "in object"}


def kind_of(t):
    """The alternative a type stands for."""
    t = strip_type(t)
    if "_Rb_tree" in t:
        return "in object"
    if "__normal_iterator" in t and "fly::Json" in t:
        return "in array"
    for pre, k in KINDS:
        if t.startswith(pre):
            return k
    return None


def is_container(t):
    t = strip_type(t)
    return t.startswith("std::vector<fly::Json") or t.startswith("std::map<") and "fly::Json" in t


def is_iter(t):
    t = strip_type(t)
    return ("__normal_iterator" in t or "_Rb_tree_iterator" in t or "_Rb_tree_const_iterator" in t) and "fly::Json" in t


def minus(v):
    return ("c", -v[1]) if v[0] == "c" else ("op", "-", ZERO, v)


def same(st, a, b):
    """The two are known to be equal, possibly by way of others."""
    return a == b or st.truth(mk_eq(a, b)) is True or entails_le(st, a, b) and entails_le(st, b, a)


SAME = "only iterators of one value are compared"
CHANGES = ("insert", "emplace", "emplace_back", "push_back", "pop_back", "erase", "resize", "clear", "swap", "merge", "operator[]", "operator=",
           "assign", "insert_or_assign", "try_emplace", "extract", "append", "replace", "operator+=")


class JsonRule(Rule):
    """Iterators of the containers behind a JSON value, and the alternatives of its variant, as the checks before them establish."""
    quiet_files = ("fly/types/string/", "fly/logger/", "fly/types/numeric/", "fly/assert/", "fly/coders/", "fly/parser/", "fly/config/",
                   "json_exception")
    numeric = True
    max_states = 30000
    max_per_block = 400

    def __init__(self, p):
        self.p = p
        self.problems = {}     # (rule, where) -> (detail, path)
        self.decided = {}

    def inline(self, key, fr):
        f = self.p.funcs.get(key)
        return f is not None and "/types/json/" in f.file and f.name not in ("convert_to_string", "validate_string", "read_escaped_character",
                                                                          "write_escaped_character", "serialize")

    def obligation(self, I, st, fr, n, rule, ok, detail):
        f, loc = fr.f, fr.f.loc(n)
        k = (rule, f.q, loc)
        self.decided[k] = self.decided.get(k, True) and bool(ok)
        if not ok and k not in self.problems:
            self.problems[k] = (detail, st.path())

    # -- alternatives ----------------------------------------------------------------------------
    def alts(self, st, L):
        return st.get(("alt", L), None)

    def known(self, I, st, L):
        """A variant that was copied together with its alternative."""
        v = I.freeze(st, L)
        base = v[1] if v[0] == "agg" else v
        k = None
        if base[0] == "op" and base[1] == "alt" and len(base) == 4:
            k = base[2] if base[2] in ALL else kind_of(base[2])
            if k is not None and v[0] != "agg":
                I.write(st, ("f", L, "alt:" + k), base[3])
        elif v[0] == "agg":
            names = [x[0] for x in v[2] if x[0].startswith("alt:")]
            k = names[0][4:] if len(names) == 1 else None
        if k is not None and self.alts(st, L) is None:
            st.set(("alt", L), ("is", k))

    def pick(self, st, L, k):
        """The path on which the variant holds the alternative, if there is one."""
        a = self.alts(st, L)
        if a is not None and (a[0] == "is" and a[1] != k or a[0] == "not" and k in a[1]):
            return False
        st.set(("alt", L), ("is", k))
        return True

    def drop(self, st, L, k):
        a = self.alts(st, L)
        if a is not None and a[0] == "is":
            return a[1] != k
        st.set(("alt", L), ("not", (a[1] if a else frozenset()) | {k}))
        return True

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        pq = plain(q)
        nm = pq.rsplit("::", 1)[-1]
        if obj is not None:
            self.object_is_there(I, st, fr, n, obj, pq)
        if pq == "std::visit" and args:
            return self.visit(I, st, fr, n, args)
        if pq in ("std::get_if", "std::get", "std::holds_alternative") and args:
            r = self.access(I, st, fr, n, nd, key, nm, args)
            if r is not None:
                return r
        if nm == "operator==" and pq == "std::operator==" and len(args) == 2 and all(a[0] == "&" for a in args) and \
                all("std::variant<" in self.type_of(fr, nd, x) for x in nd.get("args", ())):
            return self.variants_equal(I, st, fr, n, args)
        ot = self.type_of(fr, nd, nd.get("obj") if nd.get("obj") is not None else (nd.get("args") or [None])[0]) if obj is not None else ""
        if "std::variant<" in ot and nm in ("emplace", "operator=", "<ctor>") and obj is not None:
            self.changed(I, st, fr, n, obj)
            if nm == "emplace":
                k = kind_of(template_args(key)[0]) if template_args(key) else None
                L = ("f", obj, "alt:" + str(k))
                st.set(("alt", obj), ("is", k))
                I.write(st, L, ("emptyc",) if k in ("array", "object", "string") else I.fresh(st, fr, n, "alt"))
                return [(st, ("&", L))]
            pt = (self.p.decls.get(key, {}).get("params") or [""])[0]
            k = kind_of(pt)
            if k is not None and "variant" not in pt:
                I.write(st, obj, ("op", "alt", k, content(I, st, args[0])))
                st.set(("alt", obj), ("is", k))
                return [(st, ("&", obj))]
            st.set(("alt", obj), None)
            return None
        if is_container(ot):
            r = self.container(I, st, fr, n, ot, nm, key, args, obj)
            if r is not None:
                return r
        if pq == "std::initializer_list::begin" and obj is not None:
            return [(st, ("&", ("el", obj, "each")))]
        if pq == "std::all_of" and len(args) == 3 and args[0][0] == "&":
            return self.all_of(I, st, fr, n, args)
        if pq in ("std::distance",) and len(args) == 2:
            if self.is_it(fr, nd, 0):
                self.comparable(I, st, fr, n, content(I, st, args[0]), content(I, st, args[1]))
            return [(st, ("op", "distance", content(I, st, args[0]), content(I, st, args[1])))]
        if pq in ("std::next", "std::prev") and args:
            v = content(I, st, args[0])
            off = content(I, st, args[1]) if len(args) > 1 else ONE
            if pq == "std::prev":
                off = I.binop("-", ZERO, off) if hasattr(I, "binop") else ("op", "-", ZERO, off)
            if self.is_it(fr, nd, 0):
                return self.move(I, st, fr, n, v, off, None)
        if pq == "std::advance" and len(args) == 2 and args[0][0] == "&" and self.is_it(fr, nd, 0):
            return self.move(I, st, fr, n, I.freeze(st, args[0][1]), content(I, st, args[1]), args[0][1])
        if pq in ("std::abs", "abs", "labs", "llabs", "std::labs") and args:
            v = content(I, st, args[0])
            t = st.truth(mk_lt(v, ZERO))
            if t is False:
                return [(st, v)]
            # The smallest value has no absolute value.
            return [(st, ("op", "abs", v))]
        it = is_iter(ot) or (obj is None and args and nm.startswith("operator") and self.is_it(fr, nd, 0))
        if it and nm.startswith("operator"):
            return self.iterator(I, st, fr, n, nd, nm, args, obj)
        return None

    def type_of(self, fr, nd, x):
        return fr.f.nodes[x].get("t", "") if x is not None else ""

    def is_it(self, fr, nd, i):
        a = nd.get("args") or ()
        return len(a) > i and is_iter(fr.f.nodes[a[i]].get("t", ""))

    def object_is_there(self, I, st, fr, n, obj, what):
        while obj and obj[0] in ("f", "el"):
            obj = obj[1]
        if not obj or obj[0] != "o":
            return
        v = obj[1]
        if v == ZERO:
            self.obligation(I, st, fr, n, "nothing is reached through a null pointer", False, f"{what} on a null pointer")
        elif v[0] == "s" and "m_json" in repr(v) or v[0] == "op" and v[1] == "fld" and v[3] == "m_json":
            self.obligation(I, st, fr, n, "nothing is reached through a null pointer", st.truth(mk_eq(v, ZERO)) is False,
                            f"{what} through an iterator that may belong to no value")

    def on_deref(self, I, st, fr, n, v):
        if v[0] == "c" or v[0] == "s" or v[0] == "op" and v[1] == "fld":
            self.object_is_there(I, st, fr, n, ("o", v), "access")

    def on_field(self, I, st, fr, n, loc, nd):
        self.object_is_there(I, st, fr, n, loc, "access")

    # -- variants ---------------------------------------------------------------------------------
    def visit(self, I, st, fr, n, args):
        lam = I.as_lambda(st, args[0])
        if lam is None:
            return None
        out = []
        for v in args[1:]:
            if v[0] == "&":
                self.known(I, st, v[1])
        ops = I.lambda_ops(lam[1])
        for op in ops:
            f = self.p.funcs[op]
            s = st.copy()
            a, ok = [], True
            for prm, v in zip(f.params, args[1:]):
                k = kind_of(prm["t"])
                L = v[1] if v[0] == "&" else None
                if L is None or k is None:
                    ok = False
                    break
                ok = ok and self.pick(s, L, k)
                a.append(("&", ("f", L, "alt:" + k)))
            if not ok or len(a) != len(f.params):
                continue
            for s2, kind, v in I.run_function(s, f, None, a, fr, (n, "visit"), caps=I.lambda_caps(lam)):
                out.append((s2, ("throw", v[1]) if kind == "throw" else v))
        return out

    def on_step(self, I, st, fr, n, loc, old, new, op):
        if op == "++" and old[0] == "&" and old[1][0] == "el" and old[1][2] == "each":
            return old         # one element stands for all of them
        return None

    def all_of(self, I, st, fr, n, args):
        """On the path where every element satisfies the condition, the one standing for all of them does."""
        lam = I.as_lambda(st, args[2])
        if lam is None:
            return None
        no = st.copy()
        out = [(no, ZERO)]
        f = self.p.funcs[I.lambda_ops(lam[1])[0]]
        for s, kind, v in I.run_function(st, f, None, [args[0]], fr, (n, "all"), caps=I.lambda_caps(lam)):
            v = to_bool(v)
            if kind == "throw":
                out.append((s, ("throw", v[1])))
            elif s.assume(v, True):
                out.append((s, ONE))
        return out

    def variants_equal(self, I, st, fr, n, args):
        """Two iterators of one value are of the same kind."""
        L = [a[1] for a in args]
        own = [self.owner(I, st, x) for x in L]
        self.obligation(I, st, fr, n, SAME, all(own) and same(st, *own), "the iterators may be of different values")
        for x in L:
            self.known(I, st, x)
        ks = [self.alts(st, x) for x in L]
        k = next((x[1] for x in ks if x is not None and x[0] == "is"), None)
        if k is None:
            return None
        for x in L:
            if not self.pick(st, x, k):
                return [(st, ZERO)]
        return [(st, mk_eq(*(I.freeze(st, ("f", x, "alt:" + k)) for x in L)))]

    def access(self, I, st, fr, n, nd, key, nm, args):
        ta = template_args(key)
        k = kind_of(ta[0]) if ta else None
        if k is None or args[0][0] != "&":
            return None
        L = args[0][1]
        self.known(I, st, L)
        there = ("&", ("f", L, "alt:" + k))
        if nm == "get":
            a = self.alts(st, L)
            sure = a is not None and a[0] == "is"
            if k in ("in array", "in object") and not sure:
                # An iterator into a container of this kind: of the value it is used with. One used after its value
                # has become another kind of value is invalid anyway.
                sure = self.kind_known(I, st, self.owner(I, st, L), k)
            elif sure:
                sure = a[1] == k or k in ("in array", "in object")
            self.obligation(I, st, fr, n, "an iterator's container is the value's" if k.startswith("in ") else "the value is of the type accessed",
                            sure, f"it may be of another kind of value ({k})")
            return [(st, there)] if self.pick(st, L, k) else []
        no = st.copy()
        out = []
        if self.pick(st, L, k):
            out.append((st, there if nm == "get_if" else ONE))
        if self.drop(no, L, k):
            out.append((no, ZERO))
        return out

    def owner(self, I, st, L):
        """The value an iterator belongs to: the m_json next to its m_iterator."""
        if L[0] == "f":
            return I.freeze(st, ("f", L[1], "m_json"))
        return None

    def kind_known(self, I, st, J, k):
        want = {"in array": "array", "in object": "object"}[k]
        if J is None:
            return False
        for mk in list(st.mon):
            if isinstance(mk, tuple) and mk[0] == "alt" and st.get(mk, None) == ("is", want):
                L = mk[1]
                if L[0] == "f" and L[2] == "m_value":
                    X = L[1][1] if L[1][0] == "o" else ("&", L[1])
                    if same(st, X, J):
                        return True
        return False

    # -- containers and their iterators -----------------------------------------------------------
    def changed(self, I, st, fr, n, loc):
        r = root(loc)
        if r[0] in ("r", "o") or r[0] == "v" and r[1] == 1 and False:
            st.set("changed", fr.f.loc(n))

    def container(self, I, st, fr, n, ot, nm, key, args, obj):
        if nm in CHANGES and not key.rstrip().endswith("const"):
            self.changed(I, st, fr, n, obj)
        if nm in ("begin", "cbegin"):
            return [(st, ("op", "begin", ("&", obj)))]
        if nm in ("end", "cend"):
            return [(st, ("op", "end", ("&", obj)))]
        t = strip_type(ot)
        vec = t.startswith("std::vector")
        pt = self.p.decls.get(key, {}).get("params") or []
        if nm == "max_size":
            return [(st, ("op", "max_size"))]
        if nm == "resize" and args:
            x = content(I, st, args[0])
            if x[0] == "op" and x[1] == "+":
                self.obligation(I, st, fr, n, "a size cannot wrap around", any(entails_le(st, y, ("op", "max_size")) for y in x[2:]),
                                "an index is increased without a check of its limit")
        if nm in ("front", "back", "pop_back") or nm == "operator[]" and vec:
            v = I.freeze(st, obj)
            size = exc.size_of(v)
            i = content(I, st, args[0]) if nm == "operator[]" else ZERO
            self.obligation(I, st, fr, n, "an element is there", entails_le(st, ("op", "+", i, ONE), size), f"{nm} without a check of the size")
        if nm in ("erase", "insert", "emplace"):
            its = [content(I, st, a) for a, x in zip(args, pt) if is_iter(x)]
            for j, v in enumerate(its):
                if v[0] == "op" and v[1] == "moved":
                    continue
                if nm == "erase" and len(its) == 1:
                    self.obligation(I, st, fr, n, "an element is there", self.not_end(st, v), "the iterator may be past the end")
                if j == 0 and not (nm == "insert" and not vec):
                    self.obligation(I, st, fr, n, "an iterator's container is the value's", self.belongs(I, st, v, obj),
                                    "the iterator may be of another value")
            I.write(st, obj, I.fresh(st, fr, n, "cont"))
            new = ("op", "valid", I.fresh(st, fr, n, "pos"))
            if nm in ("insert", "emplace") and not vec and len(pt) == 1 or nm == "emplace" and not vec:
                return [(st, ("agg", ("s", "pair"), (("first", new), ("second", I.fresh(st, fr, n, "new")))))]
            if nm == "erase" and not its:
                return [(st, I.fresh(st, fr, n, "count"))]
            if nm == "insert" and len(its) == 2 and not vec:
                return [(st, ("void",))]
            return [(st, ("op", "at", I.fresh(st, fr, n, "pos"), ("&", obj)))]
        if nm == "find":
            return [(st, ("op", "at", I.fresh(st, fr, n, "pos"), ("&", obj)))]
        return None

    def belongs(self, I, st, v, obj):
        """The iterator is of the container: taken from it, or from an iterator shown to be of this value."""
        if v[0] == "op" and v[1] in ("begin", "end"):
            return v[2] == ("&", obj)
        if v[0] == "op" and v[1] == "at":
            return v[3] == ("&", obj)
        if v[0] == "s" and "m_iterator" in repr(v):
            J = self.owner_of_value(I, st, v)
            return J is not None and same(st, J, ("&", THIS))
        if v[0] == "op" and v[1] == "fld":
            J = self.owner_of_value(I, st, v)
            return J is not None and same(st, J, ("&", THIS))
        return v[0] == "op" and v[1] == "valid"

    def owner_of_value(self, I, st, v):
        """('s','init',('f',('f',X,'m_iterator'),'alt:..')) -> the m_json of X."""
        if len(v) >= 3 and v[1] == "init":
            L = v[2]
            while L and L[0] == "f":
                if L[2] == "m_iterator":
                    return I.freeze(st, ("f", L[1], "m_json"))
                L = L[1]
        while v[0] == "op" and v[1] == "fld":
            if v[3] == "m_iterator":
                return st.const(("op", "fld", v[2], "m_json"))
            v = v[2]
        return None

    def container_of(self, I, st, v):
        """The value an iterator is of: a pointer to it."""
        if v[0] == "op" and v[1] in ("begin", "end", "at") and v[-1][0] == "&":
            L = v[-1][1]
            while L[0] == "f" and L[2] != "m_value":
                L = L[1]
            if L[0] == "f":
                return L[1][1] if L[1][0] == "o" else ("&", L[1])
            return None
        if v[0] == "op" and v[1] == "moved":
            return self.container_of(I, st, v[2])
        return self.owner_of_value(I, st, v)

    def comparable(self, I, st, fr, n, a, b):
        x, y = self.container_of(I, st, a), self.container_of(I, st, b)
        self.obligation(I, st, fr, n, SAME, a == b or x is not None and y is not None and same(st, x, y),
                        "the iterators may be of different values")

    def not_end(self, st, v):
        if v[0] == "op" and v[1] == "valid":
            return True
        for t, x in st.facts.items():
            if t[0] == "op" and t[1] == "==" and len(t) == 4 and x is False and v in t[2:]:
                o = t[3] if t[2] == v else t[2]
                if o[0] == "op" and o[1] == "end":
                    return True
        return False

    def in_range(self, st, v, off):
        """The offset does not leave the container: at most the distance to the end, or back to the beginning."""
        off = st.const(off)
        ends = [t for t in self.distances(st) if t[2] == v and t[3][0] == "op" and t[3][1] == "end"]
        begs = [t for t in self.distances(st) if t[3] == v and t[2][0] == "op" and t[2][1] == "begin"]
        nonneg = off[0] == "c" and off[1] >= 0 or st.truth(mk_lt(off, ZERO)) is False
        negative = off[0] == "c" and off[1] < 0 or st.truth(mk_lt(off, ZERO)) is True
        if nonneg:
            return any(entails_le(st, x, d) for d in ends for x in (off,))
        if negative:
            return any(entails_le(st, x, d) for d in begs for x in (minus(off), ("op", "u-", off))) or \
                any(entails_le(st, x, off) for d in begs for x in (("op", "u-", d), ("op", "-", ZERO, d)))
        return False

    def distances(self, st):
        out = set()
        for t in list(st.facts):
            stack = [t]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    if len(x) == 4 and x[0] == "op" and x[1] == "distance":
                        out.add(x)
                    stack.extend(y for y in x if isinstance(y, tuple))
        return out

    def move(self, I, st, fr, n, v, off, loc):
        off = st.const(off)
        self.obligation(I, st, fr, n, "an iterator stays within its container", self.in_range(st, v, off), "the offset may leave the container")
        new = ("op", "moved", v, off)
        if loc is not None:
            I.write(st, loc, new)
            return [(st, ("void",))]
        return [(st, new)]

    def iterator(self, I, st, fr, n, nd, nm, args, obj):
        a = list(args)
        v = I.freeze(st, obj) if obj is not None else content(I, st, a.pop(0))
        if nm in ("operator*", "operator->"):
            self.obligation(I, st, fr, n, "an element is there", self.not_end(st, v), "the iterator may be past the end")
            return [(st, ("&", ("el", ("o", v), ONE)))]
        if nm in ("operator==", "operator!="):
            if "/detail/" in fr.f.file:
                self.comparable(I, st, fr, n, v, content(I, st, a[0]))
            t = mk_eq(v, content(I, st, a[0]))
            return [(st, t if nm == "operator==" else neg(t))]
        if nm in ("operator+", "operator-") and a and not is_iter(self.other(fr, nd, obj)):
            off = content(I, st, a[0])
            off = off if nm == "operator+" else ("op", "-", ZERO, off)
            if v[0] == "op" and v[1] == "begin":
                size = exc.size_of(I.freeze(st, v[2][1]))
                self.obligation(I, st, fr, n, "an iterator stays within its container", entails_le(st, off, size, -1), "the index may be out of range")
                return [(st, ("op", "moved", v, off))]
            return self.move(I, st, fr, n, v, off, None)
        if nm == "operator-":
            self.comparable(I, st, fr, n, v, content(I, st, a[0]))
            return [(st, ("op", "distance", content(I, st, a[0]), v))]
        if nm in ("operator++", "operator--") and obj is not None:
            if nm == "operator++":
                self.obligation(I, st, fr, n, "an iterator stays within its container", self.not_end(st, v) or self.in_range(st, v, ONE),
                                "the iterator may be past the end")
            else:
                self.obligation(I, st, fr, n, "an iterator stays within its container", self.in_range(st, v, ("c", -1)), "the iterator may be at the beginning")
            I.write(st, obj, I.fresh(st, fr, n, "it"))
            return [(st, ("&", obj) if not a else v)]
        if nm in ("operator+=", "operator-=") and obj is not None:
            off = content(I, st, a[0])
            r = self.move(I, st, fr, n, v, off if nm == "operator+=" else ("op", "-", ZERO, off), obj)
            return [(r[0][0], ("&", obj))]
        if nm == "operator=":
            I.write(st, obj, content(I, st, a[0]))
            return [(st, ("&", obj))]
        if nm.startswith("operator") and nm[8:] in ("<", ">", "<=", ">=", "<=>"):
            self.comparable(I, st, fr, n, v, content(I, st, a[0]))
            return [(st, I.fresh(st, fr, n, "cmp"))]
        if nm == "operator[]":
            self.move(I, st, fr, n, v, content(I, st, a[0]), None)
            return [(st, ("&", ("el", ("o", v), ONE)))]
        return None

    def other(self, fr, nd, obj):
        a = nd.get("args") or ()
        i = 0 if obj is not None and nd.get("obj") is not None else 1
        return fr.f.nodes[a[i]].get("t", "") if len(a) > i else ""


def interface(p):
    """The methods of JSON values and of their iterators a program can call, and the operators beside them."""
    out = []
    for f in p.funcs.values():
        if f.is_lambda or "/types/json/" not in f.file:
            continue
        if f.record and (f.record == JSON or plain(f.record) == ITER):
            if f.access in ("private", "protected"):
                continue
            out.append(f)
    return sorted(out, key=lambda f: f.key)


def allowed(p, t):
    return t == BASE or p.is_derived(t, BASE)


def J02(p, rep, thorough):
    rep.explanation = (
        "Every public operation of JSON values and of their iterators is followed through its checks, one path per alternative of the "
        "variant: each access to an element, each movement of an iterator and each use of another value's iterator lies behind the check "
        "that makes it valid; exceptions that may leave an operation are computed over the call graph; and no path that throws has "
        "changed the value.")
    esc = exc.escapes(p)
    fs = interface(p)
    rep.require(len(fs) > 60, f"only {len(fs)} operations were found")
    skip = ("convert_to_string", "validate_string", "read_escaped_character", "write_escaped_character", "serialize")
    for f in fs:
        bad = [t for t in esc.sets.get(f.key, ()) if not allowed(p, t) and not t == "std::bad_variant_access"]
        rep.check("only the library's exception is thrown", label(f), not bad, rep.where(f),
                  bad and f"{bad[0]}: {' -> '.join(esc.chain(f.key, bad[0]))[:300]}", None)
        if f.name in skip or f.name == "<dtor>":
            continue
        rule = JsonRule(p)
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        for (r, q, loc), ok in rule.decided.items():
            d = rule.problems.get((r, q, loc), ("", None))
            rep.check(r, f"{q} at {loc.rsplit('/', 1)[-1]}", ok, rep.where(f), f"{loc.replace('/repo/', '')}: {d[0]}", d[1])
        for st, k, v in outs:
            if k == "throw":
                rep.check("misuse leaves the value unchanged", label(f), not st.get("changed", None), rep.where(f),
                          f"it was changed at {st.get('changed', None)}", st.path())


def label(f):
    return f.q + "(" + ", ".join(plain(strip_type(x["t"])) for x in f.params) + ")" + (" const" if f.key.rstrip().endswith("const") else "")


RULES = {"J02": J02}
