"""Entailment of linear inequalities between terms of a state: difference constraints, closed by shortest paths.

Terms are split into a base and a constant; facts of the state (comparisons, equalities, intervals, known values) give the edges.
Everything is over unsigned quantities or signed ones that do not overflow; a subtraction is only split when it is known not to wrap.
"""
from . import interp as T

ZERO = ("c", 0)


def split(st, v, signed=False):
    """(base, constant): the value is base + constant; base None for a constant."""
    k = 0
    while True:
        c = st.facts.get(("k", v))
        if c is not None and isinstance(c[1], int):
            v = c
        if v[0] == "c" and isinstance(v[1], int):
            return None, k + v[1]
        if v[0] == "op" and v[1] == "+" and len(v) == 4:
            if v[3][0] == "c":
                k += v[3][1]
                v = v[2]
                continue
            if v[2][0] == "c":
                k += v[2][1]
                v = v[3]
                continue
        if v[0] == "op" and v[1] == "-" and len(v) == 4 and v[3][0] == "c":
            if signed or entails_le(st, v[3], v[2]):
                k -= v[3][1]
                v = v[2]
                continue
        return v, k


def edges(st):
    """[(a, b, w)]: a <= b + w."""
    out = []
    for t, val in st.facts.items():
        if t[0] in ("lo", "hi", "k"):
            x = t[1]
            c = val[1] if isinstance(val, tuple) else val
            if not isinstance(c, int):
                continue
            if t[0] in ("lo", "k"):
                out.append((None, x, -c))
            if t[0] in ("hi", "k"):
                out.append((x, None, c))
            continue
        if t[0] != "op":
            continue
        if t[1] == "<" and len(t) == 4:
            if val:
                out.append((t[2], t[3], -1))
            else:
                out.append((t[3], t[2], 0))
        elif t[1] == "==" and val and len(t) == 4:
            out.append((t[2], t[3], 0))
            out.append((t[3], t[2], 0))
        elif t[1] == "empty" and len(t) == 3:
            s = ("op", "size", t[2])
            out.append((s, None, 0) if val else (None, s, -1))
    return out


_busy = []


def entails_le(st, a, b, w=0):
    """a <= b + w follows from the state."""
    if a == b and w >= 0:
        return True
    key = (a, b, w)
    if key in _busy or len(_busy) > 6:
        return False
    _busy.append(key)
    try:
        return _entails(st, a, b, w)
    finally:
        _busy.pop()


def _norm(st, x):
    if x is None:
        return None, 0
    return split(st, x)


def _entails(st, a, b, w):
    g = {}
    nodes = set()

    def add(x, y, w):
        bx, cx = _norm(st, x)
        by, cy = _norm(st, y)
        # x <= y + w  ->  bx + cx <= by + cy + w
        g.setdefault(bx, []).append((by, cy + w - cx))
        nodes.add(bx)
        nodes.add(by)

    for x, y, k in edges(st):
        add(x, y, k)
    ba, ca = _norm(st, a)
    bb, cb = _norm(st, b)
    nodes |= {ba, bb}
    for x in list(nodes):
        if x is None:
            continue
        if unsigned(x):
            g.setdefault(None, []).append((x, 0))
        if x[0] == "op" and x[1] in ("min", "std::min") and len(x) == 4:
            for y in x[2:]:
                by, cy = _norm(st, y)
                g.setdefault(x, []).append((by, cy))
        if x[0] == "op" and x[1] == "-" and len(x) == 4 and x[3][0] != "c":
            # x - y with y <= x is at most x
            if entails_le(st, x[3], x[2]):
                by, cy = _norm(st, x[2])
                g.setdefault(x, []).append((by, cy))
    # Shortest distance from base a to base b.
    dist = {ba: 0}
    for _ in range(len(nodes) + 2):
        changed = False
        for x in list(dist):
            for y, k in g.get(x, ()):
                d = dist[x] + k
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    changed = True
        if not changed:
            break
    if bb not in dist:
        return False
    # a = ba + ca <= bb + d + ca ; want <= bb + cb + w
    return dist[bb] + ca <= cb + w


def unsigned(x):
    return x[0] == "op" and x[1] in ("size", "find", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of")


def common(a, x, b, y, j, mine):
    """What both sides know about the values a joined one stands for, as comparisons with terms neither side changed."""
    out = []
    terms = set()
    for st in (a, b):
        for p, q, _ in edges(st):
            for t in (p, q):
                if t is not None:
                    terms.add(split(st, t)[0])
    terms.discard(None)
    for t in terms:
        if T.symbols(t) & mine or t == x or t == y:
            continue
        if entails_le(a, x, t) and entails_le(b, y, t):
            strict = entails_le(a, x, t, -1) and entails_le(b, y, t, -1)
            out.append((T.mk_lt(j, t), True) if strict else (T.mk_lt(t, j), False))
        elif entails_le(a, t, x) and entails_le(b, t, y):
            strict = entails_le(a, t, x, -1) and entails_le(b, t, y, -1)
            out.append((T.mk_lt(t, j), True) if strict else (T.mk_lt(j, t), False))
    if x[0] != "s" or y[0] != "s":
        if entails_le(a, ZERO, x) and entails_le(b, ZERO, y):
            out.append((T.mk_lt(j, ZERO), False))
    return [(t, w) for t, w in out if t[0] == "op"]
