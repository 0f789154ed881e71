"""C04: bit streams give back the bits that were written."""
from engine.bits import BV, Cannot, Cell, It, Obj, Seq, Stream, Split, Fault, num, partition, width
from .unicode import Judge, settle

WRITER, READER, BASE = "fly::BitStreamWriter", "fly::BitStreamReader", "fly::detail::BitStream"
MAGIC = 0x1a
UNITS = ("unsigned char", "unsigned short", "unsigned int", "unsigned long")


def symbols(ev, name, n):
    """Input bits name_0 .. name_(n-1), least significant first."""
    return ev.symbol(name, n, False).b


def word(bits, w=64, s=False):
    return BV(w, s, tuple(bits) + (0,) * (w - len(bits)))


def named(p, cls, name, t=None):
    fs = [f for k, f in sorted(p.funcs.items()) if f.q.split("<")[0] == cls + "::" + name.split("<")[0] and f.name == name]
    return [f for f in fs if t is None or "<" + t + ">(" in f.key]


def one(p, rep, cls, name, t=None):
    fs = named(p, cls, name, t)
    rep.require(len(fs) == 1, "%s::%s%s was not found" % (cls, name, "<" + t + ">" if t else ""))
    return fs[0]


def machine(cls, stream, **fields):
    s = Cell(stream)
    o = {"m_stream": s, "m_stream_buffer": Cell(It(Seq([s]), 0))}
    o.update({k: Cell(v) for k, v in fields.items()})
    return Cell(Obj(cls, o))


def msb(bits):
    """A value's bits, most significant first."""
    return list(reversed(bits))


def octets(ev, xs):
    out = []
    for x in xs:
        out += msb(ev.bits(x))
    return out


def writer(p, rep):
    rule = "write_bits appends exactly the bits given"
    for t in UNITS:
        f = one(p, rep, WRITER, "write_bits", t)
        w = width(p, t)[0]
        j = Judge(p, rep, rule, f)
        for pos in range(65):
            def run(ev, f=f, pos=pos, w=w):
                for size in range(w + 1):
                    st = Stream()
                    before = symbols(ev, "b", 64 - pos)
                    o = machine(WRITER, st, m_buffer=word((0,) * pos + before), m_position=num(pos, 8, False))
                    given = symbols(ev, "v", size)
                    bad = guarded(ev, lambda: ev.call(f, [word(given, w), num(size, 8, False)], o))
                    if bad:
                        return "%d bits: %s" % (size, bad)
                    at = ev.known(o.v.f["m_position"].v)
                    rest = msb(ev.bits(o.v.f["m_buffer"].v))
                    if octets(ev, st.data) + rest[:64 - at] != msb(before) + msb(given):
                        return "%d bits are not appended to the %d before them" % (size, 64 - pos)
                    if any(rest[64 - at:]) or st.fail:
                        return "%d bits leave a buffer that is not clear behind them" % size
                return None
            j.run("write_bits<%s> with %d bits buffered" % (t, 64 - pos), run, lambda fixed: "every value")
    for name, n in (("write_byte", 8), ("write_word", 16)):
        f = one(p, rep, WRITER, name)

        def run(ev, f=f, n=n):
            for pos in range(65):
                st = Stream()
                before, given = symbols(ev, "b", 64 - pos), symbols(ev, "v", n)
                o = machine(WRITER, st, m_buffer=word((0,) * pos + before), m_position=num(pos, 8, False))
                bad = guarded(ev, lambda: ev.call(f, [word(given, n)], o))
                if bad:
                    return bad
                at = ev.known(o.v.f["m_position"].v)
                if octets(ev, st.data) + msb(ev.bits(o.v.f["m_buffer"].v))[:64 - at] != msb(before) + msb(given):
                    return "the value is not appended to %d buffered bits" % (64 - pos)
            return None
        Judge(p, rep, rule, f).run(name, run, lambda fixed: "every value")
    f = one(p, rep, WRITER, "finish")
    j = Judge(p, rep, "finish writes every buffered bit and says how many bits fill the last byte", f)
    for pos in range(65):
        def run(ev, f=f, pos=pos):
            head, old = num(MAGIC << 3, 8, True), [BV(8, True, symbols(ev, ("s", i), 8)) for i in range(8)]
            st = Stream([head] + old)
            st.pos = 9
            before = symbols(ev, "b", 64 - pos)
            o = machine(WRITER, st, m_buffer=word((0,) * pos + before), m_position=num(pos, 8, False))
            r = []
            bad = guarded(ev, lambda: r.append(ev.call(f, [], o)))
            if bad:
                return bad
            pad = -(64 - pos) % 8
            want = msb(before) + [0] * pad
            if octets(ev, st.data[1:9]) != octets(ev, old) or octets(ev, st.data[9:]) != want:
                return "the bits in the buffer do not follow those written before"
            if st.data[0].const is None or st.data[0].const % 256 != (MAGIC << 3 | pad):
                return "the header names %s filling bits instead of %d" % (st.data[0].const and st.data[0].const % 8, pad)
            if not ev.truth(ev.load(r[0])):
                return "failure is reported"
            return None
        j.run("finish with %d bits buffered" % (64 - pos), run, lambda fixed: "every value")
    f = one(p, rep, WRITER, "<ctor>")

    def run(ev, f=f):
        s = Cell(Stream())
        o = Cell(Obj(WRITER, {"m_buffer": Cell(num(0, 64, False)), "m_position": Cell(num(0, 8, False))}))
        bad = guarded(ev, lambda: ev.call(f, [s], o))
        if bad:
            return bad
        if ev.known(o.v.f["m_position"].v) != 64 or o.v.f["m_buffer"].v.const != 0:
            return "the buffer does not start empty"
        if len(s.v.data) != 1 or s.v.data[0].const is None or s.v.data[0].const % 256 != MAGIC << 3:
            return "no place for the header is written"
        return None
    Judge(p, rep, "a writer starts with its header and an empty buffer", f).run("BitStreamWriter", run, lambda fixed: "every stream")


def guarded(ev, call):
    ev.steps = 0
    try:
        call()
    except Fault as e:
        g, n = ev.where
        return "%s (%s:%s)" % (e, g.file.split("/")[-1], g.nodes[n].get("l"))
    return None


def supply(ev, pos, k, r):
    """A reader's state, and the bits it still has to give, first to last."""
    data = [BV(8, True, symbols(ev, ("s", i), 8)) for i in range(k)]
    st = Stream(data)
    low, junk = symbols(ev, "b", pos), symbols(ev, "g", 64 - pos)
    o = machine(READER, st, m_buffer=word(low + junk), m_position=num(pos, 8, False), m_remainder=num(r, 8, False), m_header=num(0, 8, False))
    rest = [x for d in data for x in msb(d.b)]
    return o, st, msb(low) + (rest[:len(rest) - r] if k else [])


def left(ev, o, st, r):
    pos = ev.known(o.v.f["m_position"].v)
    if not 0 <= pos <= 64:
        return None
    rest = [x for d in st.data[st.pos:] for x in msb(d.b)]
    return msb(ev.bits(o.v.f["m_buffer"].v)[:pos]) + (rest[:len(rest) - r] if rest else [])


def states(size, pos, w, thorough):
    """How many bytes the stream still has, and how many of their bits only fill the last one."""
    if size <= pos:
        return [(1, 0)]
    if w == 64:
        return [(k, r) for k in ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16) if thorough else (0, 1, 4, 8, 9)) for r in ((0, 1, 3, 7) if thorough else (0, 3)) if k or not r]
    return [(k, r) for k in range(10 if thorough else 9) for r in (range(8) if thorough or w > 8 else (0, 1, 7)) if k or not r]


def reading(p, rep, f, name, t, w, thorough, consumes):
    rule = "%s gives exactly the next bits" % name
    j = Judge(p, rep, rule, f)
    for pos in range(65):
        def run(ev, f=f, pos=pos):
            for size in range(w + 1):
                for k, r in states(size, pos, w, thorough):
                    o, st, ahead = supply(ev, pos, k, r)
                    out = Cell(None)
                    ret = []
                    bad = guarded(ev, lambda: ret.append(ev.load(ev.call(f, [out, num(size, 8, False)], o))))
                    what = "%d bits with %d buffered and %d bytes (%d bits filling) left" % (size, pos, k, r)
                    if bad:
                        return what + ": " + bad
                    n = min(size, len(ahead))
                    if ret[0].const != n:
                        return "%s: %s bits are given instead of %d" % (what, ret[0].const, n)
                    want = list(reversed(ahead[:n] + [0] * (size - n)))
                    if list(ev.bits(out.v)) != want + [0] * (out.v.w - size):
                        return what + ": the bits given are not the next ones"
                    rest = left(ev, o, st, r)
                    if rest != (ahead[n:] if consumes else ahead):
                        return what + ": the bits left over are not the ones that follow"
            return None
        j.run("%s<%s> with %d bits buffered" % (name, t, pos), run, lambda fixed: "every content")


def reader(p, rep, thorough):
    for t in UNITS:
        w = width(p, t)[0]
        if w < 64:
            reading(p, rep, one(p, rep, READER, "peek_bits", t), "peek_bits", t, w, thorough, False)
        reading(p, rep, one(p, rep, READER, "read_bits", t), "read_bits", t, w, thorough, True)
    for name, n in (("read_byte", 8), ("read_word", 16)):
        f = one(p, rep, READER, name)

        def run(ev, f=f, n=n):
            for pos in range(65):
                for k, r in states(n, pos, n, thorough):
                    o, st, ahead = supply(ev, pos, k, r)
                    out = Cell(None)
                    ret = []
                    bad = guarded(ev, lambda: ret.append(ev.load(ev.call(f, [out], o))))
                    if bad:
                        return bad
                    if ev.truth(ret[0]) != (len(ahead) >= n):
                        return "%d of %d bits are left and the answer is %s" % (len(ahead), n, ev.truth(ret[0]))
                    if len(ahead) >= n and (list(ev.bits(out.v)) != list(reversed(ahead[:n])) or left(ev, o, st, r) != ahead[n:]):
                        return "not the next %d bits are read" % n
            return None
        Judge(p, rep, "read_bits gives exactly the next bits", f).run(name, run, lambda fixed: "every content")
    f = one(p, rep, READER, "discard_bits")

    def run(ev, f=f):
        for pos in range(65):
            for n in range(pos + 1):
                o, st, ahead = supply(ev, pos, 2, 1)
                bad = guarded(ev, lambda: ev.call(f, [num(n, 8, False)], o))
                if bad or left(ev, o, st, 1) != ahead[n:]:
                    return bad or "%d of %d bits are not discarded" % (n, pos)
        return None
    Judge(p, rep, "discard_bits drops exactly the bits peeked", f).run("discard_bits", run, lambda fixed: "every content")
    f = one(p, rep, READER, "fully_consumed")

    def run(ev, f=f):
        for pos in range(65):
            for k in range(3):
                o, st, ahead = supply(ev, pos, k, 0)
                ret = []
                bad = guarded(ev, lambda: ret.append(ev.load(ev.call(f, [], o))))
                if bad:
                    return bad
                if ev.truth(ret[0]) != (not ahead):
                    return "%d bits are left and the answer is %s" % (len(ahead), ev.truth(ret[0]))
        return None
    Judge(p, rep, "fully_consumed answers whether any bit is left", f).run("fully_consumed", run, lambda fixed: "every content")
    f = one(p, rep, READER, "<ctor>")
    j = Judge(p, rep, "a reader accepts exactly streams with the header a writer gives them", f)
    for n in range(3):
        def run(ev, f=f, n=n):
            s = Cell(Stream([ev.symbol(("s", i), 8, True) for i in range(n)]))
            o = Cell(Obj(READER, {k: Cell(num(0, w, False)) for k, w in (("m_buffer", 64), ("m_position", 8), ("m_header", 8), ("m_remainder", 8))}))
            bad = guarded(ev, lambda: ev.call(f, [s], o))
            if bad:
                return bad
            good = n > 0 and ev.compare("==", BV(8, False, ev.bits(s.v.data[0])[3:] + (0, 0, 0)), num(MAGIC, 8, False))
            if s.v.fail == good:
                return "the stream is %s" % ("refused" if good else "accepted")
            if good and (ev.bits(o.v.f["m_remainder"].v)[:3] != ev.bits(s.v.data[0])[:3] or any(ev.bits(o.v.f["m_remainder"].v)[3:])):
                return "the number of filling bits is not taken from the header"
            if good and (ev.known(o.v.f["m_position"].v) != 0 or s.v.pos != 1):
                return "the bits do not start behind the header"
            return None
        j.run("BitStreamReader on %d bytes" % n, run, lambda fixed: "header " + "".join(str(fixed.get((("s", 0), j), "x")) for j in reversed(range(8))))


def C04(p, rep, thorough):
    rep.explanation = ("Each operation was evaluated from every state of the bit buffer (every number of buffered bits, every content as symbolic bits) and every size; "
                       "the bits in the stream, the buffer and the result afterwards were compared, bit by bit, with the sequence before. The states reached are again such states, so the sequences of any series of operations follow by induction.")
    rep.assumptions = ["The stream buffer accepts and returns all bytes asked for while it has them (what happens when it does not is C02).",
                       "write_bits is given values that fit the size named; peeked bits are discarded only after a peek of as many."]
    writer(p, rep)
    reader(p, rep, thorough)
    settle(rep)


RULES = {"C04": C04}
