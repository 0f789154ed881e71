"""U: what the Unicode functions do with every sequence of code units and every code point."""
import multiprocessing

from engine.bits import (BV, Cannot, Cell, Fault, INF, It, Opt, Seq, Split, Thrown, boolean, num, partition, width)
from engine.escape import plain
from .common import AnalysisBroken

CHARS = ("char", "wchar_t", "char8_t", "char16_t", "char32_t")
WELL_FORMED = (  # Table 3-7 of the Unicode Standard: the ranges of the bytes of a well-formed UTF-8 sequence.
    ((0x00, 0x7f),),
    ((0xc2, 0xdf), (0x80, 0xbf)),
    ((0xe0, 0xe0), (0xa0, 0xbf), (0x80, 0xbf)),
    ((0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xed, 0xed), (0x80, 0x9f), (0x80, 0xbf)),
    ((0xee, 0xef), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf0, 0xf0), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf4, 0xf4), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf)),
)


def longest(w):
    return {8: 4, 16: 2, 32: 1}[w]


def within(ev, v, lo, hi):
    return ev.compare(">=", v, num(lo, v.w, False)) and ev.compare("<=", v, num(hi, v.w, False))


def unsigned(ev, v):
    return ev.cast(v, v.w, False)


def pad(bits):
    return BV(32, False, (tuple(bits) + (0,) * 32)[:32])


def decoded(ev, units):
    """What the standard says of the sequence starting here: (length, code point), or None when it is ill-formed."""
    if not units:
        return None
    us = [unsigned(ev, u) for u in units]
    w = us[0].w
    if w == 8:
        for row in WELL_FORMED:
            if within(ev, us[0], *row[0]):
                if len(us) < len(row) or not all(within(ev, u, *r) for u, r in zip(us[1:], row[1:])):
                    return None
                n = len(row)
                bits = ()
                for u in reversed(us[1:n]):
                    bits += ev.bits(u)[:6]
                bits += ev.bits(us[0])[:{1: 7, 2: 5, 3: 4, 4: 3}[n]]
                return n, pad(bits)
        return None
    if w == 16:
        if within(ev, us[0], 0xdc00, 0xdfff):
            return None
        if not within(ev, us[0], 0xd800, 0xdbff):
            return 1, pad(ev.bits(us[0]))
        if len(us) < 2 or not within(ev, us[1], 0xdc00, 0xdfff):
            return None
        lead = BV(32, False, ev.bits(us[0])[:10] + (0,) * 22)
        high = ev.arith("+", lead, num(0x40, 32, False), 32, False)
        return 2, ev.arith("+", ev.arith("<<", high, num(10), 32, False), pad(ev.bits(us[1])[:10]), 32, False)
    if within(ev, us[0], 0xd800, 0xdfff) or ev.compare(">", us[0], num(0x10ffff, 32, False)):
        return None
    return 1, us[0]


def encoded(ev, c, w, s):
    """The code units of a code point, or None when there are none."""
    if within(ev, c, 0xd800, 0xdfff) or ev.compare(">", c, num(0x10ffff, 32, False)):
        return None
    b = ev.bits(c)
    if w == 32:
        return [BV(w, s, b)]
    if w == 16:
        if ev.compare("<", c, num(0x10000, 32, False)):
            return [BV(w, s, b[:16])]
        d = ev.bits(ev.arith("-", c, num(0x10000, 32, False), 32, False))
        return [BV(w, s, d[10:20] + (0, 1, 1, 0, 1, 1)), BV(w, s, d[:10] + (1, 1, 1, 0, 1, 1))]
    one = [b[i:i + 6] + (0, 1) for i in (0, 6, 12)]
    if ev.compare("<", c, num(0x80, 32, False)):
        out = [b[:7] + (0,)]
    elif ev.compare("<", c, num(0x800, 32, False)):
        out = [b[6:11] + (0, 1, 1), one[0]]
    elif ev.compare("<", c, num(0x10000, 32, False)):
        out = [b[12:16] + (0, 1, 1, 1), one[1], one[0]]
    else:
        out = [b[18:21] + (0, 1, 1, 1, 1), one[2], one[1], one[0]]
    return [BV(w, s, x) for x in out]


def named(bits, fixed, name):
    """The inputs of a case, for a report."""
    out = []
    for i, w in bits:
        s = "".join(str(fixed.get((("u", i), j), "x")) for j in reversed(range(w)))
        out.append(s if "x" in s else "%#x" % int(s, 2))
    return name + " " + ", ".join(out) if out else "an empty sequence"


def identical(ev, a, b):
    if a.w != b.w:
        return False
    return ev.bits(a) == ev.bits(b)


def show(v):
    return repr(v).replace("u0", "a").replace("'", "")[:150]


JOBS = []


class Judge:
    """Collects the cases to analyse; `settle` analyses them side by side and reports."""

    def __init__(self, p, rep, rule, f):
        self.p, self.rep, self.rule, self.f = p, rep, rule, f

    def run(self, label, run, name):
        """`run(ev)` answers None when the case is right, or what is wrong with it."""
        JOBS.append((self, label, run, name))


def analyse(i):
    j, label, run, name = JOBS[i]
    cases, seen = 0, set()
    try:
        for fixed, ev, r in partition(j.p, run):
            cases += 1
            seen |= ev.seen
            if isinstance(r, Fault):
                f, e = ev.where
                r = "%s (%s:%s)" % (r, f.file.split("/")[-1], f.nodes[e].get("l"))
            elif isinstance(r, Thrown):
                r = "throws " + r.t
            if r is not None:
                return i, cases, seen, "%s: %s" % (name(fixed), r)
    except Cannot as e:
        return i, cases, seen, e
    except Exception as e:  # a construct the evaluator was never given
        return i, cases, seen, Cannot("%s (%s)" % (type(e).__name__, str(e)[:80]))
    return i, cases, seen, None


def settle(rep):
    with multiprocessing.get_context("fork").Pool(8) as pool:
        results = pool.map(analyse, range(len(JOBS)), 1)
    decided = {JOBS[i][0].rule for i, _c, _s, bad in results if not isinstance(bad, Cannot)}
    for i, cases, seen, bad in results:
        j, label = JOBS[i][:2]
        rep.functions |= {plain(j.p.funcs[k].q) for k in seen}
        if isinstance(bad, Cannot):
            bad = "the analysis does not follow %s" % bad
            if j.rule in decided:
                # The rest of the rule was decided: this case is named as not covered, not as a violation.
                rep.count("cases not followed")
                rep.sample("not followed", "[%s] %s: %s" % (j.rule, label, bad))
                continue
        rep.check(j.rule, label, bad is None, rep.where(j.f), bad or "")
        rep.count("cases", cases)
    del JOBS[:]


def instances(p, cls, name, c):
    pre = "fly::%s<%s>::%s" % (cls, c, name)
    fs = [f for k, f in sorted(p.funcs.items()) if f.q == pre or k.startswith(pre + "<") or k.startswith(pre + "(")]
    return [f for f in fs if f.name == name]


def closed(units):
    return Seq([Cell(u) for u in units])


def inputs(w):
    """Sequences of every length up to the longest character, the last of them open at its end."""
    top = longest(w)
    return [(n, False) for n in range(top)] + [(top, True)]


def U01(p, rep, thorough):
    rep.explanation = "The decoders of every character type were evaluated over abstract code units (bits that are known or traced to an input bit), splitting the inputs on a bit whenever the code or the Unicode Standard's table of well-formed sequences distinguishes it; each resulting set of inputs was judged by acceptance, units consumed and every bit of the code point."
    rule = "a decoder accepts exactly the well-formed sequences"
    rep.assumptions = [STD]

    def each(c):
        w, s = width(p, c)
        found = 0
        for cls in ("detail::BasicUnicode", "BasicString"):
            for f in instances(p, cls, "decode_codepoint", c):
                found += 1
                kind = "const_iterator" if "__normal_iterator<const" in f.key else "iterator" if "__normal_iterator" in f.key else "pointer"
                j = Judge(p, rep, rule, f)
                for n, more in inputs(w):
                    def run(ev, n=n, more=more, f=f):
                        units = [ev.symbol(("u", i), w, s) for i in range(n)]
                        seq = Seq([Cell(u) for u in units], more)
                        it = Cell(It(seq, 0))
                        r = ev.call(f, [it, Cell(It(seq, INF if more else n))])
                        return judge_decode(ev, r, it, decoded(ev, units))
                    label = "%s<%s>::decode_codepoint (%s), %s" % (cls, c, kind, "%d or more units" % n if more else "%d units" % n)
                    j.run(label, run, lambda fixed, n=n: named([(i, w) for i in range(n)], fixed, "units"))
        rep.require(found, "decode_codepoint of %s was not found" % c)
        found = 0
        for f in instances(p, "BasicString", "validate", c):
            found += 1
            j = Judge(p, rep, "validate answers whether every character is well-formed", f)
            for n in range(longest(w) + (1 if w > 8 else 0)):
                def run(ev, n=n, f=f):
                    units = [ev.symbol(("u", i), w, s) for i in range(n)]
                    r = ev.load(ev.call(f, [closed(units)]))
                    want, at = True, 0
                    while at < n and want:
                        d = decoded(ev, units[at:])
                        want = d is not None
                        at += d[0] if d else 0
                    if ev.truth(r) != want:
                        return "is called %s" % ("valid" if not want else "invalid")
                    return None
                j.run("BasicString<%s>::validate, %d units" % (c, n), run, lambda fixed, n=n: named([(i, w) for i in range(n)], fixed, "units"))
        rep.require(found, "validate of %s was not found" % c)
    for c in CHARS:
        each(c)
    settle(rep)


def judge_decode(ev, r, it, want):
    if not isinstance(r, Opt):
        raise Cannot("a result that is no optional")
    if want is None:
        return None if r.cell is None else "accepted as %s although it is ill-formed" % show(r.cell.v)
    if r.cell is None:
        return "refused although it is well-formed"
    if it.v.i != want[0]:
        return "%d units are consumed for a character of %d" % (it.v.i, want[0])
    if not identical(ev, r.cell.v, want[1]):
        return "decoded as %s instead of %s" % (show(r.cell.v), show(want[1]))
    return None


def text_equal(ev, got, want):
    if len(got) != len(want):
        return False
    return all(identical(ev, x.v, y) for x, y in zip(got, want))


def judge_text(ev, r, want):
    if not isinstance(r, Opt):
        raise Cannot("a result that is no optional")
    if want is None:
        return None if r.cell is None else "a result for something that has none"
    if r.cell is None:
        return "no result"
    if not isinstance(r.cell.v, Seq):
        raise Cannot("a result that is no string")
    if not text_equal(ev, r.cell.v.items, want):
        return "the result is [%s] instead of [%s]" % (", ".join(show(x.v) for x in r.cell.v.items), ", ".join(map(show, want)))
    return None


def bits_of(fixed, name="c", w=32):
    s = "".join(str(fixed.get((name, j), "x")) for j in reversed(range(w)))
    return "code points " + (s.lstrip("0") or "0")


def U02(p, rep, thorough):
    rep.explanation = "The encoders and conversions were evaluated over abstract code points and strings; every bit of every unit written was compared with the bit of the input the standard puts there."
    rep.assumptions = [STD]

    def each(c):
        w, s = width(p, c)
        found = 0
        for cls in ("detail::BasicUnicode", "BasicString"):
            for f in instances(p, cls, "encode_codepoint", c):
                found += 1

                def run(ev, f=f):
                    v = ev.symbol("c", 32, False)
                    return judge_text(ev, ev.call(f, [v]), encoded(ev, v, w, s))
                Judge(p, rep, "encode_codepoint gives the encoding of the code point", f).run("%s<%s>::encode_codepoint" % (cls, c), run, bits_of)
        rep.require(found, "encode_codepoint of %s was not found" % c)
        found = set()
        for f in instances(p, "BasicString", "convert", c):
            t = f.ret.replace("std::optional<std::basic_string<", "")
            d = t.split(",")[0]
            if d == f.ret or d not in CHARS or d in found:
                continue
            found.add(d)
            dw, ds = width(p, d)
            j = Judge(p, rep, "a conversion keeps the code points", f)
            top = longest(w) + 1
            for n in range(top + (1 if w > 8 else 0)):
                def run(ev, n=n, f=f, dw=dw, ds=ds):
                    units = [ev.symbol(("u", i), w, s) for i in range(n)]
                    r = ev.call(f, [Cell(closed(units))])
                    want, at = [], 0
                    while at < n:
                        x = decoded(ev, units[at:])
                        if x is None:
                            return judge_text(ev, r, None)
                        want += encoded(ev, x[1], dw, ds)
                        at += x[0]
                    return judge_text(ev, r, want)
                j.run("BasicString<%s>::convert to %s, %d units" % (c, d, n), run, lambda fixed, n=n: named([(i, w) for i in range(n)], fixed, "units"))
            if w == 8:
                def run(ev, f=f, dw=dw, ds=ds):
                    units = [ev.symbol(("u", i), w, s) for i in range(4)]
                    if not within(ev, unsigned(ev, units[0]), 0xf0, 0xff):
                        return None
                    r = ev.call(f, [Cell(closed(units))])
                    x = decoded(ev, units)
                    return judge_text(ev, r, None if x is None else encoded(ev, x[1], dw, ds))
                j.run("BasicString<%s>::convert to %s, one character of 4 units" % (c, d), run, lambda fixed: named([(i, w) for i in range(4)], fixed, "units"))
        rep.require(found, "no conversion from %s was found" % c)
    for c in CHARS:
        each(c)
    settle(rep)


def digits(w, s, text):
    return Seq([Cell(num(ord(x), w, s)) for x in text])


def text(chars, w, s):
    return [num(ord(x), w, s) for x in chars]


def hexadecimal(ev, v, n, w, s):
    b, t = ev.bits(v), digits(w, s, "0123456789abcdef")
    return [ev.lookup(t, BV(32, False, b[4 * i:4 * i + 4] + (0,) * 28)) for i in reversed(range(n))]


def escaped(ev, c, prefix, w, s):
    """How a code point is written: as itself when it is printable ASCII, else by its hexadecimal digits."""
    if within(ev, c, 0x20, 0x7e):
        return [BV(w, s, (ev.bits(c) + (0,) * w)[:w])]
    if ev.compare("<", c, num(0x10000, 32, False)):
        return text("\\u", w, s) + hexadecimal(ev, c, 4, w, s)
    if prefix == "u":
        d = ev.bits(ev.arith("-", c, num(0x10000, 32, False), 32, False))
        hi = BV(32, False, d[10:20] + (0, 1, 1, 0, 1, 1) + (0,) * 16)
        lo = BV(32, False, d[:10] + (1, 1, 1, 0, 1, 1) + (0,) * 16)
        return text("\\u", w, s) + hexadecimal(ev, hi, 4, w, s) + text("\\u", w, s) + hexadecimal(ev, lo, 4, w, s)
    return text("\\U", w, s) + hexadecimal(ev, c, 8, w, s)


def digit_value(ev, u):
    """The value of a hexadecimal digit in either case, or None."""
    u = unsigned(ev, u)
    for lo, hi, d in ((0x30, 0x39, 0), (0x41, 0x46, 10), (0x61, 0x66, 10)):
        if within(ev, u, lo, hi):
            v = ev.arith("-", u, num(lo - d, u.w, False), u.w, False)
            return ev.bits(v)[:4]
    return None


def is_char(ev, u, c):
    return ev.compare("==", u, num(ord(c), u.w, u.s))


def one_escape(ev, units, at, letters):
    """The number written at a place as a backslash, a letter and its digits: (value, place after it), or None."""
    if at + 1 >= len(units) or not is_char(ev, units[at], "\\"):
        return None
    n = 4 if "u" in letters and is_char(ev, units[at + 1], "u") else 8 if "U" in letters and is_char(ev, units[at + 1], "U") else 0
    if not n or at + 2 + n > len(units):
        return None
    bits = ()
    for u in units[at + 2:at + 2 + n]:
        d = digit_value(ev, u)
        if d is None:
            return None
        bits = d + bits
    return pad(bits), at + 2 + n, n


def unescaped(ev, units, at=0):
    """The code point an escape names and the place after it, or None when it names none."""
    x = one_escape(ev, units, at, "uU")
    if x is None:
        return None
    v, at, n = x
    if n == 4 and within(ev, v, 0xd800, 0xdbff):
        y = one_escape(ev, units, at, "u")
        if y is None or not within(ev, y[0], 0xdc00, 0xdfff):
            return None
        b, d = ev.bits(v), ev.bits(y[0])
        high = ev.arith("+", BV(32, False, b[:10] + (0,) * 22), num(0x40, 32, False), 32, False)
        return ev.arith("+", ev.arith("<<", high, num(10), 32, False), pad(d[:10]), 32, False), y[1]
    if within(ev, v, 0xd800, 0xdfff) or ev.compare(">", v, num(0x10ffff, 32, False)):
        return None
    return v, at


class Digits:
    """Abstract hexadecimal digits: a digit is a table of characters at an unknown index."""

    def __init__(self, ev, w, s):
        self.ev, self.w, self.s, self.n = ev, w, s, 0

    def any(self, case=None, lo=0, bits=4):
        """A digit lo + (unknown bits), in the case an unknown bit says (or in lower case)."""
        self.n += 1
        v = self.ev.symbol(("d", self.n), bits, False)
        lits = tuple(v.b) + tuple(lo >> j & 1 for j in range(bits, 4))
        table = "0123456789abcdef"
        if case is not None:
            lits = (self.ev.symbol(case, 1, False).b[0],) + lits
            table = "".join(x.lower() + x.upper() for x in table)
        return self.ev.lookup(digits(self.w, self.s, table), BV(32, False, lits + (0,) * (32 - len(lits))))

    def just(self, chars):
        return text(chars, self.w, self.s)


def shapes(w, s, deep, thorough):
    """Inputs of unescape_codepoint: (what they are, a function that builds the units)."""
    out = []
    case = "case"
    if deep:
        out.append(("the four digits of \\u", lambda g: g.just("\\u") + [g.any(case if not thorough else "c%d" % i) for i in range(4)]))
    else:
        out.append(("the four digits of \\u", lambda g: g.just("\\u") + [g.any(case), g.any(case), g.any(None, 0, 3), g.any(None, 0, 3)]))
    if deep > 1:
        out.append(("a pair of surrogates", lambda g: g.just("\\ud") + [g.any(case, 8, 2)] + [g.any(), g.any()] +
                    g.just("\\ud") + [g.any(case, 12, 2)] + [g.any(), g.any()]))
    else:
        out.append(("a pair of surrogates", lambda g: g.just("\\ud") + [g.any(case, 8, 2)] + [g.any(None, 0, 3), g.any(None, 0, 3)] +
                    g.just("\\ud") + [g.any(case, 12, 2)] + [g.any(None, 0, 3), g.any(None, 0, 3)]))
    out.append(("a high surrogate and another number", lambda g: g.just("\\ud83d\\u") +
                ([g.any() for _ in range(4)] if deep else [g.any(), g.any(), g.any(None, 0, 3), g.any(None, 0, 3)])))
    out.append(("a high surrogate and a long escape", lambda g: g.just("\\ud83d\\U0000de00")))
    out.append(("the first digits of \\U", lambda g: g.just("\\U") + [g.any(case), g.any(case), g.any()] + g.just("00000")))
    if deep > 1:
        out.append(("the digits of \\U", lambda g: g.just("\\U00") + [g.any(None, 0, 1)] + [g.any() for _ in range(5)]))
    else:
        out.append(("the digits of \\U", lambda g: g.just("\\U000") + [g.any(None, 0, 3) for _ in range(5)]))
    for n in range(3):
        out.append(("any %d units" % n, lambda g, n=n: [g.ev.symbol(("u", i), w, s) for i in range(n)]))
    for letter, n in (("u", 4), ("U", 8)):
        for k in range(n):
            out.append(("any unit as digit %d of \\%s" % (k, letter), lambda g, k=k, n=n, letter=letter:
                        g.just("\\" + letter) + [g.any(None, 0, 3) for _ in range(k)] + [g.ev.symbol(("u", 0), w, s)] + g.just("0" * (n - k - 1))))
            out.append(("%d digits of \\%s" % (k, letter), lambda g, k=k, letter=letter:
                        g.just("\\" + letter) + [g.any(None, 0, 3) for _ in range(k)]))
    for k in range(2):
        out.append(("any unit at place %d of a second escape" % k, lambda g, k=k:
                    g.just("\\ud83d" + "\\"[:k]) + [g.ev.symbol(("u", 0), w, s)] + g.just("ude00"[k:])))
    for k in range(6):
        out.append(("the first %d units of a second escape" % k, lambda g, k=k: g.just("\\ud83d" + "\\ude00"[:k])))
    return out


def U03(p, rep, thorough):
    rep.explanation = "The escaping and unescaping functions were evaluated over abstract code points and abstract digits; every unit written and every code point read was compared, bit by bit, with what the escape names."
    rep.assumptions = [STD]

    def each(c):
        w, s = width(p, c)
        found = 0
        for f in instances(p, "detail::BasicUnicode", "escape_codepoint", c):
            if len(f.params) != 1:
                continue
            found += 1
            prefix = "U" if "<'U'>" in f.key else "u"

            def run(ev, f=f, prefix=prefix):
                v = ev.symbol("c", 32, False)
                if within(ev, v, 0xd800, 0xdfff) or ev.compare(">", v, num(0x10ffff, 32, False)):
                    return None
                r = ev.load(ev.call(f, [v]))
                want = escaped(ev, v, prefix, w, s)
                if not spelled(ev, r.items, want):
                    return "written as [%s] instead of [%s]" % (", ".join(show(x.v) for x in r.items), ", ".join(map(show, want)))
                return None
            Judge(p, rep, "escape_codepoint writes the code point", f).run("BasicUnicode<%s>::escape_codepoint<%s>" % (c, prefix), run, bits_of)
        rep.require(found, "escape_codepoint of %s was not found" % c)
        found = 0
        for cls in ("detail::BasicUnicode", "BasicString"):
            for f in instances(p, cls, "unescape_codepoint", c):
                if "std::optional" not in f.ret:
                    continue
                found += 1
                j = Judge(p, rep, "unescape_codepoint reads back exactly what names a code point", f)
                public = cls == "BasicString" and "__normal_iterator<const" in f.key
                deep = 2 if thorough or c == "char" and public else 1 if public else 0
                for label, build in shapes(w, s, deep, thorough):
                    def run(ev, f=f, build=build):
                        units = build(Digits(ev, w, s))
                        it = Cell(It(closed(units), 0))
                        r = ev.call(f, [it, Cell(It(it.v.seq, len(units)))])
                        want = unescaped(ev, units)
                        bad = judge_text(ev, r, None if want is None else encoded(ev, want[0], w, s))
                        if bad is None and want is not None and it.v.i != want[1]:
                            bad = "%d units are consumed of %d" % (it.v.i, want[1])
                        return bad
                    kind = "const_iterator" if "__normal_iterator<const" in f.key else "iterator" if "__normal_iterator" in f.key else "pointer"
                    j.run("%s<%s>::unescape_codepoint (%s), %s" % (cls, c, kind, label), run, lambda fixed: digits_of(fixed))
        rep.require(found, "unescape_codepoint of %s was not found" % c)
        escape_texts(p, rep, c, w, s, thorough)
    for c in CHARS:
        each(c)
    settle(rep)


def escape_texts(p, rep, c, w, s, thorough):
    """escape_codepoint at an iterator, and the functions over whole strings."""
    found = 0
    for f in instances(p, "BasicString", "escape_codepoint", c):
        found += 1
        prefix = "U" if "<'U'" in f.key else "u"
        j = Judge(p, rep, "escaping a string writes the character it starts with", f)
        for n, more in inputs(w):
            def run(ev, n=n, more=more, f=f, prefix=prefix):
                units = [ev.symbol(("u", i), w, s) for i in range(n)]
                it = Cell(It(Seq([Cell(u) for u in units], more), 0))
                r = ev.call(f, [it, Cell(It(it.v.seq, INF if more else n))])
                want = decoded(ev, units)
                if want is None:
                    return None if r.cell is None else "an ill-formed sequence is escaped"
                if r.cell is None:
                    return "refused although it is well-formed"
                if it.v.i != want[0]:
                    return "%d units are consumed for a character of %d" % (it.v.i, want[0])
                if not spelled(ev, r.cell.v.items, escaped(ev, want[1], prefix, w, s)):
                    return "written as [%s]" % ", ".join(show(x.v) for x in r.cell.v.items)
                return None
            j.run("BasicString<%s>::escape_codepoint<%s> (%s), %s" % (c, prefix, "const_iterator" if "__normal_iterator<const" in f.key else "iterator", "%d or more units" % n if more else "%d units" % n),
                  run, lambda fixed, n=n: named([(i, w) for i in range(n)], fixed, "units"))
    for f in instances(p, "BasicString", "escape_all_codepoints", c):
        found += 1
        prefix = "U" if "<'U'" in f.key else "u"
        j = Judge(p, rep, "escaping a string writes every character in order", f)
        for n in range(4 if w == 8 and thorough else 3):
            def run(ev, n=n, f=f, prefix=prefix):
                units = [ev.symbol(("u", i), w, s) for i in range(n)]
                r = ev.call(f, [closed(units)])
                want, at = [], 0
                while at < n:
                    x = decoded(ev, units[at:])
                    if x is None:
                        return None if r.cell is None else "an ill-formed string is escaped"
                    want += escaped(ev, x[1], prefix, w, s)
                    at += x[0]
                if r.cell is None:
                    return "refused although it is well-formed"
                if not spelled(ev, r.cell.v.items, want):
                    return "written as [%s]" % ", ".join(show(x.v) for x in r.cell.v.items)
                return None
            j.run("BasicString<%s>::escape_all_codepoints<%s>, %d units" % (c, prefix, n), run,
                  lambda fixed, n=n: named([(i, w) for i in range(n)], fixed, "units"))
    rep.require(found >= 3, "the escaping functions of %s were not found" % c)
    fs = instances(p, "BasicString", "unescape_all_codepoints", c)
    rep.require(fs, "unescape_all_codepoints of %s was not found" % c)
    for f in fs:
        j = Judge(p, rep, "unescaping a string replaces every escape and keeps the rest", f)
        forms = [("any %d units" % n, lambda g, n=n: [g.ev.symbol(("u", i), w, s) for i in range(n)]) for n in range(4 if thorough else 3)]
        for what, t in (("a short escape", "\\u2%s4%s"), ("a long escape", "\\U0001%s0%s4"), ("a truncated escape", "\\u1%s"), ("an invalid escape", "\\u1%sz%s")):
            def build(g, t=t):
                out = [g.ev.symbol(("u", 0), w, s)]
                for i, part in enumerate(t.split("%s")):
                    out += ([g.any(None, 0, 3)] if i else []) + g.just(part)
                return out + ([] if t.endswith("1%s") else [g.any(None, 0, 3)] + [g.ev.symbol(("u", 1), w, s)])
            forms.append(("%s between two units" % what, build))
        forms.append(("two escapes", lambda g: g.just("\\u00") + [g.any(None, 8, 1), g.any(None, 0, 3)] + g.just("\\U000000") + [g.any(None, 0, 3), g.any(None, 0, 3)]))
        for label, build in forms:
            def run(ev, f=f, build=build):
                units = build(Digits(ev, w, s))
                r = ev.call(f, [closed(units)])
                want, at = [], 0
                while at < len(units):
                    if is_char(ev, units[at], "\\") and at + 1 < len(units) and (is_char(ev, units[at + 1], "u") or is_char(ev, units[at + 1], "U")):
                        x = unescaped(ev, units, at)
                        if x is None:
                            return None if r.cell is None else "an invalid escape is accepted"
                        want += encoded(ev, x[0], w, s)
                        at = x[1]
                    else:
                        want.append(units[at])
                        at += 1
                if r.cell is None:
                    return "refused although every escape is valid"
                if not spelled(ev, r.cell.v.items, want):
                    return "the result is [%s] instead of [%s]" % (", ".join(show(x.v) for x in r.cell.v.items), ", ".join(map(show, want)))
                return None
            j.run("BasicString<%s>::unescape_all_codepoints, %s" % (c, label), run, digits_of)


def digits_of(fixed):
    out = {}
    for (name, j), v in fixed.items():
        out.setdefault(str(name[-1]) if isinstance(name, tuple) else name, []).append("bit %d = %d" % (j, v))
    return "; ".join("%s %s: %s" % ("unit" if k.isdigit() else "choice", k, ", ".join(sorted(v))) for k, v in sorted(out.items())) or "every input"


def spelled(ev, got, want):
    if len(got) != len(want):
        return False
    for x, y in zip(got, want):
        x = x.v
        if x.tab is not None and x.b is None and y.tab is not None and y.b is None and x.tab == y.tab:
            continue
        if not identical(ev, x, y):
            return False
    return True


STD = "The iterators, strings, views and optionals of the standard library behave as specified."
RULES = {"U01": U01, "U02": U02, "U03": U03}
