"""C03: Base64 decoding inverts encoding and accepts nothing but Base64."""
import math
import re

from engine.bits import BV, Cell, Obj, Seq, Stream, num
from .bitstream import guarded
from .unicode import Judge, settle

CODER = "fly::coders::Base64Coder"
ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
LETTERS = Seq([Cell(num(c, 8, True)) for c in ALPHABET])
VALUE = {c: i for i, c in enumerate(ALPHABET)}
# What a byte is: its value, 64 for padding, 65 for anything else.
KIND = Seq([Cell(num(VALUE.get(i, 64 if i == ord("=") else 65), 8, True)) for i in range(256)])


def operation(p, rep, name):
    fs = [f for f in p.funcs.values() if f.record == CODER and f.name == name]
    rep.require(len(fs) == 1, "%s::%s was not found" % (CODER, name))
    return fs[0]


def coder(p, k):
    """A coder whose buffers have the proportions of the real ones, with room for `k` groups; old letters are left in them."""
    fields = p.records[CODER]["fields"]
    sizes = {q["n"]: int(m.group(1)) for q in fields for m in [re.match(r"std::array<char, (\d+)", q["t"])] if m}
    g = math.gcd(*sizes.values()) if sizes else 1
    o = {n: Cell(Seq([Cell(num(ord("A"), 8, True)) for i in range(s // g * k)])) for n, s in sizes.items()}
    for q in fields:
        if q["n"] not in o:
            o[q["n"]] = Cell(None)
    return Cell(Obj(CODER, o))


def msb(ev, x):
    return list(reversed(ev.bits(x)))


def letter(ev, bits):
    """The letter for six bits, most significant first."""
    return ev.lookup(LETTERS, BV(8, False, tuple(reversed(bits)) + (0, 0)))


def same(ev, a, b):
    """Whether two bytes are equal for every input."""
    if a.tab is None or b.tab is None or not ev.cube(a.tab[0]) or not ev.cube(b.tab[0]):
        return ev.bits(a) == ev.bits(b)
    fa, ra = ev.table_values(a) if a.tab is not None and a.b is None else (None, None)
    fb, rb = ev.table_values(b) if b.tab is not None and b.b is None else (None, None)
    if fa is None or fb is None:
        return ev.bits(a) == ev.bits(b)
    return set(fa) == set(fb) and {tuple(sorted(x.items())): v % 256 for x, v in ra} == {tuple(sorted(x.items())): v % 256 for x, v in rb}


def encoded(ev, data):
    """RFC 4648 with padding."""
    bits = [b for d in data for b in msb(ev, d)]
    bits += [0] * (-len(bits) % 6)
    out = [letter(ev, bits[i:i + 6]) for i in range(0, len(bits), 6)]
    return out + [num(ord("="), 8, True)] * (-len(out) % 4)


def apply(ev, f, o, data):
    src, dst, r = Cell(Stream(data)), Cell(Stream()), []
    bad = guarded(ev, lambda: r.append(ev.truth(ev.load(ev.call(f, [src, dst], o)))))
    return bad, r and r[0], dst.v.data


def C03(p, rep, thorough):
    enc, dec = operation(p, rep, "encode_internal"), operation(p, rep, "decode_internal")
    groups = (1, 2, 3, 4) if thorough else (1, 2, 3)
    j = Judge(p, rep, "encoding writes RFC 4648 Base64, and decoding gives the input back", enc)
    for k in groups:
        for n in range(3 * k * (3 if thorough else 2) + 3):
            def run(ev, k=k, n=n):
                data = [ev.symbol(("d", i), 8, True) for i in range(n)]
                bad, ok, out = apply(ev, enc, coder(p, k), data)
                if bad or not ok:
                    return bad or "encoding reports failure"
                want = encoded(ev, data)
                if len(out) != len(want):
                    return "%d characters are written instead of %d" % (len(out), len(want))
                for i, (a, b) in enumerate(zip(out, want)):
                    if not same(ev, a, b):
                        return "character %d is not the one of RFC 4648" % i
                bad, ok, back = apply(ev, dec, coder(p, k), out)
                if bad or not ok:
                    return bad or "decoding reports failure for what encoding wrote"
                if [ev.bits(x) for x in back] != [ev.bits(x) for x in data]:
                    return "decoding does not give the input back"
                return None
            j.run("%d bytes through buffers of %d groups" % (n, k), run, lambda fixed: "every content")
    j = Judge(p, rep, "decoding accepts exactly Base64", dec)

    def judge(ev, k, text):
        bad, ok, out = apply(ev, dec, coder(p, k), text)
        kinds = []
        for c in text:
            x = ev.lookup(KIND, ev.cast(c, 8, False))
            if x.const is None and not ev.compare("<", x, num(64, 8, True)):
                ev.known(x)
            kinds.append(x)
        n = len(text)
        pads = [i for i, x in enumerate(kinds) if x.const == 64]
        good = n % 4 == 0 and all(x.const != 65 for x in kinds) and pads in ([], [n - 1], [n - 2, n - 1]) and (not pads or n)
        if bad:
            return bad
        if ok != bool(good):
            return "it is %s" % ("accepted" if ok else "refused")
        if good:
            bits = [b for x in kinds if x.const != 64 for b in msb(ev, x)[2:]]
            want = [tuple(reversed(bits[i:i + 8])) for i in range(0, len(bits) // 8 * 8, 8)]
            if [ev.bits(x) for x in out] != want:
                return "the bytes decoded are not the ones named"
        return None

    def plain(ev, i):
        return letter(ev, ev.symbol(("e", i), 6, False).b[::-1])

    for k in groups:
        for n in range(4 * k * 2 + 6):
            for at in range(max(n, 1)):
                if at and not thorough and at < n - (8 if n % 4 == 0 else 1):
                    continue

                def run(ev, k=k, n=n, at=at):
                    return judge(ev, k, [ev.symbol("c", 8, True) if i == at else plain(ev, i) for i in range(n)])
                j.run("%d characters, the one at %d free, through buffers of %d groups" % (n, at, k), run, lambda fixed: "every content")
        for n in (4, 4 * k, 4 * k + 4, 8 * k, 8 * k + 4):
            for combo in range(3 ** 4):
                def run(ev, k=k, n=n, combo=combo):
                    text = [plain(ev, i) for i in range(n)]
                    for i in range(4):
                        kind = combo // 3 ** i % 3
                        if kind:
                            text[n - 4 + i] = num(ord("=" if kind == 1 else "-"), 8, True)
                    return judge(ev, k, text)
                what = "".join("x=-"[combo // 3 ** i % 3] for i in range(4))
                j.run("%d characters ending in %s through buffers of %d groups" % (n, what, k), run, lambda fixed: "every content")
    rep.explanation = ("Both directions were evaluated on inputs whose bytes are unknown bits, and every output bit was traced back to the input bits it carries: the characters written were compared with RFC 4648, "
                       "and what decoding them writes with the input. For decoding, each position in turn is any byte at all.")
    rep.assumptions = ["The buffers were scaled down in proportion, to one to four groups of three bytes: the code uses their size only through size().",
                       "Input and output streams do not fail (what happens when they do is C02)."]
    settle(rep)


RULES = {"C03": C03}
