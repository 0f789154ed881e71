"""The resolved program: the merged dump of every translation unit, with indexes over it."""
import fnmatch
import re


class Func:
    __slots__ = ("key", "q", "name", "file", "line", "noexcept", "ret", "record", "plain_record",
                 "params", "nodes", "vars", "trys", "blocks", "entry", "exit", "d", "parents",
                 "elements", "escaping", "logic_rhs", "bools", "is_lambda", "parent", "virtual", "static", "access",
                 "node_block", "preds", "live_in", "ret_cls")

    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.q = d["q"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.noexcept = d.get("noexcept", False)
        self.ret = d["ret"]
        self.record = d.get("record")
        self.plain_record = d.get("plain_record")
        self.params = d["params"]
        self.nodes = d["nodes"]
        self.vars = d["vars"]
        self.trys = d["trys"]
        self.is_lambda = d.get("is_lambda", False)
        self.parent = d.get("parent")
        self.virtual = d.get("virtual", False)
        self.static = d.get("static", False)
        self.access = d.get("access")
        cfg = d["cfg"]
        self.entry = cfg["entry"]
        self.exit = cfg["exit"]
        self.blocks = {b["id"]: b for b in cfg["blocks"]}
        self.parents = None
        self.elements = None
        self.escaping = None
        self.live_in = None
        self.preds = None

    def children(self, n):
        """All operand node ids of a node, whatever attribute holds them."""
        nd = self.nodes[n]
        for c in nd.get("c", ()):
            if isinstance(c, int) and c >= 0:
                yield c
        if "obj" in nd and nd["obj"] >= 0:
            yield nd["obj"]
        for c in nd.get("args", ()):
            if c >= 0:
                yield c
        if nd.get("calleeExpr", -1) >= 0:
            yield nd["calleeExpr"]
        if nd.get("size", -1) is not None and isinstance(nd.get("size"), int) and nd["size"] >= 0 and nd["k"] == "CXXNewExpr":
            yield nd["size"]
        for c in nd.get("placement", ()):
            if c >= 0:
                yield c
        for c in nd.get("caps", ()):
            if c.get("e", -1) >= 0:
                yield c["e"]
        for v in nd.get("decls", ()):
            if v.get("init", -1) >= 0:
                yield v["init"]
            for b in v.get("bindings", ()):
                if b.get("e", -1) >= 0:
                    yield b["e"]
                if b.get("holdinit", -1) >= 0:
                    yield b["holdinit"]
        if nd.get("filler", -1) >= 0:
            yield nd["filler"]

    def prepare(self):
        if self.elements is not None:
            return
        self.elements = set()
        self.node_block = {}
        for b in self.blocks.values():
            for e in b["e"]:
                if isinstance(e, int):
                    self.elements.add(e)
                    self.node_block[e] = b["id"]
                elif isinstance(e.get("e"), int):
                    self.node_block.setdefault(e["e"], b["id"])
        self.parents = {}
        for i in range(len(self.nodes)):
            for c in self.children(i):
                self.parents.setdefault(c, []).append(i)
        # A node whose value is used in another block than the one that computes it.
        self.escaping = set()
        for c, ps in self.parents.items():
            cb = self.node_block.get(c)
            for p in ps:
                pb = self.node_block.get(p)
                if cb is None or pb is None or cb != pb:
                    self.escaping.add(c)
        for b in self.blocks.values():
            t = b.get("t")
            if t and "cond" in t:
                c = t["cond"]
                while True:
                    self.escaping.add(c)
                    nd = self.nodes[c]
                    if nd["k"] == "BinaryOperator" and nd.get("op") in ("&&", "||"):
                        c = nd["c"][1]
                    else:
                        break
        # The last operand of a logical operator that is used as a value (and not to branch on).
        self.logic_rhs = set()
        for e in self.elements:
            if self.nodes[e]["k"] == "BinaryOperator" and self.nodes[e].get("op") in ("&&", "||"):
                self.logic_rhs.add(self.nodes[e]["c"][1])
        self.bools = frozenset(k for k, v in self.vars.items() if v["t"] in ("bool", "const bool"))
        self.preds = {}
        for b in self.blocks.values():
            for s in b["s"]:
                if s >= 0:
                    self.preds.setdefault(s, []).append(b["id"])
        self._liveness()

    def _liveness(self):
        """Backward may-liveness of local variables (a variable captured by reference, whose
        address is taken or bound to a reference is live everywhere)."""
        always = set()
        for nd in self.nodes:
            if nd["k"] == "LambdaExpr":
                for c in nd["caps"]:
                    if "v" in c:
                        always.add(c["v"])
        use = {}
        dfn = {}
        for bid, b in self.blocks.items():
            u, d = set(), set()

            def visit(n, seen):
                stack = [n]
                while stack:
                    x = stack.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    nd = self.nodes[x]
                    if "v" in nd and nd["k"] in ("DeclRefExpr", "MemberExpr"):
                        if nd["v"] not in d:
                            u.add(nd["v"])
                    for v in nd.get("decls", ()):
                        d.add(v["v"]) if v["v"] not in u else None
                        if v.get("ref"):
                            always.add(v["v"])
                        for bb in v.get("bindings", ()):
                            always.add(bb["v"])
                    stack.extend(self.children(x))

            seen = set()
            for e in b["e"]:
                if isinstance(e, int):
                    # only the node itself: its operands are elements of their own, or folded
                    visit(e, seen)
                else:
                    if e["k"] == "autodtor" and e["v"] not in d:
                        u.add(e["v"])
                    if isinstance(e.get("e"), int):
                        visit(e["e"], seen)
            t = b.get("t")
            if t and "cond" in t:
                visit(t["cond"], seen)
            use[bid] = u
            dfn[bid] = d
        live_in = {b: set() for b in self.blocks}
        changed = True
        while changed:
            changed = False
            for bid in sorted(self.blocks):
                b = self.blocks[bid]
                out = set()
                for s in b["s"]:
                    if s >= 0:
                        out |= live_in[s]
                t = b.get("t")
                new = use[bid] | (out - dfn[bid])
                if new != live_in[bid]:
                    live_in[bid] = new
                    changed = True
        # Values that escape into other blocks may name a variable read later by evaluation of a
        # folded operand: keep whatever any catch handler reads as well.
        handler = set()
        for bid, b in self.blocks.items():
            if b.get("label", {}).get("k") == "CXXCatchStmt":
                handler |= live_in[bid]
        for bid in live_in:
            live_in[bid] |= always | handler
        self.live_in = live_in

    def loc(self, n=None):
        line = self.line
        if n is not None and n >= 0:
            line = self.nodes[n].get("l") or self.line
        return f"{self.file}:{line}"

    def calls(self):
        """Yield (node id, node) of every call-like node that is part of the graph."""
        self.prepare()
        for i in sorted(self.elements):
            nd = self.nodes[i]
            if "f" in nd and nd["k"] not in ("DeclRefExpr", "MemberExpr"):
                yield i, nd
            elif nd["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                yield i, nd


def big(s):
    """Integers beyond 63 bits are dumped as text."""
    return int(s) if s.isdigit() else s


class Program:
    def __init__(self, d):
        self.funcs = {k: Func(k, v) for k, v in d["functions"].items()}
        self.decls = d["decls"]
        self.records = d["records"]
        self.enums = d["enums"]
        self.globals = d["globals"]
        for f in self.funcs.values():
            for nd in f.nodes:
                if isinstance(nd.get("cv"), str):
                    nd["cv"] = big(nd["cv"])
        for g in self.globals.values():
            if isinstance(g.get("value"), str):
                g["value"] = big(g["value"])
        self.files = d["files"]
        self.units = d["units"]
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f.q, []).append(f)
        self.overriders = {}
        for k, dd in self.decls.items():
            for o in dd.get("overrides", ()):
                self.overriders.setdefault(o, set()).add(k)
        self.derived = {}
        for r, rd in self.records.items():
            for b in rd["bases"]:
                self.derived.setdefault(b, set()).add(r)
        self._callers = None

    def q(self, name):
        """Functions by readable qualified name (no template arguments, no parameters)."""
        return sorted(self.by_q.get(name, []), key=lambda f: f.key)

    def match(self, pattern):
        return sorted((f for f in self.funcs.values() if fnmatch.fnmatchcase(f.q, pattern)),
                      key=lambda f: f.key)

    def decl_q(self, key):
        d = self.decls.get(key)
        return d["q"] if d else (key or "")

    def all_overriders(self, key):
        out = set()
        todo = [key]
        while todo:
            k = todo.pop()
            for o in self.overriders.get(k, ()):
                if o not in out:
                    out.add(o)
                    todo.append(o)
        return out

    def bases_of(self, rec):
        out = []
        todo = [rec]
        while todo:
            r = todo.pop()
            for b in self.records.get(r, {}).get("bases", ()):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def is_derived(self, rec, base):
        return rec == base or base in self.bases_of(rec)

    def targets(self, nd):
        """Functions of the program a call node may run."""
        k = nd.get("f")
        if k is None:
            return []
        out = []
        if k in self.funcs:
            out.append(k)
        if nd.get("virt"):
            for o in self.all_overriders(k):
                if o in self.funcs:
                    out.append(o)
        return out

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.funcs.values():
                for i, nd in f.calls():
                    for t in self.targets(nd) or [nd.get("f")]:
                        c.setdefault(t, []).append((f.key, i))
            self._callers = c
        return self._callers

    def home(self, f):
        """The function whose code a closure is part of."""
        while f.is_lambda and f.parent in self.funcs:
            f = self.funcs[f.parent]
        return f

    def is_private(self, f):
        return f.access == "private" and not (f.virtual or self.decls.get(f.key, {}).get("virtual"))

    def tops(self, f, inner=None, seen=()):
        """The functions a helper works for: those that call it, directly or through other helpers.

        Functions of the record named `inner` count as helpers where something calls them."""
        if f.key in seen:
            return set()
        seen = seen + (f.key,)
        cs = [k for k, i in self.callers().get(f.key, []) if k != f.key]
        if cs and f.is_lambda:
            return self.tops(self.home(f), inner, seen)
        own = self.is_private(f) or "(anonymous namespace)" in f.key or inner is not None and f.record == inner
        if cs and own and not f.name.endswith("tor>"):
            out = set()
            for k in cs:
                g = self.funcs[k]
                # A closure nobody calls runs later, on its own; a static function works on some object.
                alone = g.is_lambda and g.key not in self.callers() or self.home(g).static and not f.static
                out |= {f} if alone else self.tops(g, inner, seen)
            return out
        return {self.home(f)}

    def record_fields(self, plain):
        """All (record name, field) pairs for records with the readable name."""
        out = []
        for n, r in self.records.items():
            if r["plain"] == plain:
                for f in r["fields"]:
                    out.append((n, f))
        return out


def short(key, prog=None):
    return re.sub(r"std::__cxx11::basic_string<char[^>]*>", "std::string", key)
