"""Coders: success is reported only if everything was read and written (C02)."""
from rules.common import *  # noqa
from engine import bounds

CODERS = ("fly::coders::Encoder", "fly::coders::Decoder")
FAIL, BAD, EOFB = 4, 1, 2
QUIET = ("fly/types/string/", "fly/types/json/", "fly/types/numeric/", "fly/assert/", "fly/logger/", "fly/parser/", "fly/config/", "coder_config")


def is_stream(q):
    c = q.split("::")
    return len(c) >= 3 and c[0] == "std" and c[1].startswith("basic_") and ("stream" in c[1] or c[1] == "basic_ios")


class CodeRule(Rule):
    """Typestate of streams: what is known of a stream since it was last used. Outcomes of tests are followed separately."""
    quiet_files = QUIET
    numeric = True
    delegates = ()
    helpers = ()
    reader = writer = None

    def __init__(self, p):
        self.p = p

    def inline(self, key, fr):
        if not (self.reader or self.writer):
            return True
        f = self.p.funcs[key]
        own = strip_type((self.reader or self.writer))
        return f.is_lambda or any("stream" in q["t"] or own in q["t"] for q in f.params)

    # -- what is known of a stream ---------------------------------------------------------------
    def known(self, st, loc):
        return st.get(("stream", loc), frozenset())

    def learn(self, st, loc, *what):
        st.set(("stream", loc), self.known(st, loc) | set(what))

    def used(self, st, loc):
        """Anything learnt before the stream was used again no longer counts; a failure set by hand stays."""
        st.set(("stream", loc), self.known(st, loc) & {"failed", "tampered", "open"})

    def flag(self, st, name, on=1):
        st.set(name, on)

    def split(self, st, n_true, n_false):
        a, b = st, st.copy()
        return a, b

    def test(self, I, st, loc, nm):
        """The outcomes of a test of the stream's state, with what each tells."""
        k = self.known(st, loc)
        yes = {"good": ("ok", "notbad", "noteof"), "operator bool": ("ok", "notbad"), "fail": ("notok",), "operator!": ("notok",),
               "bad": ("isbad", "notok"), "eof": ("eof",), "is_open": ("open",)}[nm]
        no = {"good": ("notgood",), "operator bool": ("notok",), "fail": ("ok", "notbad"), "operator!": ("ok", "notbad"), "bad": ("notbad",),
              "eof": ("noteof",), "is_open": ("closed",)}[nm]
        out = []
        sure = None
        if nm in ("good", "operator bool") and ("failed" in k or "notok" in k):
            sure = False
        elif nm in ("fail", "operator!") and ("failed" in k or "notok" in k):
            sure = True
        elif nm == "operator bool" and "ok" in k:
            sure = True
        elif nm in ("fail", "operator!") and "ok" in k:
            sure = False
        elif nm == "bad" and "notbad" in k:
            sure = False
        elif nm == "eof" and ("eof" in k or "noteof" in k):
            sure = "eof" in k
        elif nm == "good" and "eof" in k:
            sure = False
        for val, facts in ((ONE, yes), (ZERO, no)):
            if sure is not None and (val == ONE) != sure:
                continue
            s = st.copy()
            self.learn(s, loc, *facts)
            out.append((s, val))
        return out

    # -- calls ------------------------------------------------------------------------------------
    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        nm = q.rsplit("::", 1)[-1]
        if is_stream(q) and obj is not None:
            r = self.stream_call(I, st, fr, n, nm, q, args, obj)
            if r is not None:
                return r
        if nm == "operator<<" and q.startswith("std::") and args and args[0][0] == "&":
            self.wrote(st, args[0][1])
            return [(st, args[0])]
        d = self.p.decls.get(key, {})
        if key in self.delegates or any(o in self.delegates for o in d.get("overrides", [])):
            a, b = st, st.copy()
            for x in args:
                if x is not None and x[0] == "&":
                    self.used(a, x[1])
                    self.used(b, x[1])
            a.set("delegated", a.get("delegated", 0) + 1)
            a.set("given", tuple(x[1] if x[0] == "&" else x for x in args))
            b.set("refused", 1)
            return [(a, ONE), (b, ZERO)]
        if key in self.helpers:
            a, b = st, st.copy()
            b.set("rejected", 1)
            v = I.fresh(a, fr, n, "conv")
            f = self.p.funcs[key]
            if strip_type(f.ret) == "bool":
                v = ONE
            else:
                a.facts[mk_eq(v, ZERO)] = False
                a.facts[("lo", v)] = 1
            self.havoc_args(I, a, fr, n, args)
            self.havoc_args(I, b, fr, n, args)
            return [(a, v), (b, ZERO)]
        rec = d.get("record") or q.rsplit("::", 1)[0]
        if self.reader and rec == self.reader:
            if nm in ("read_word", "read_byte"):
                a, b = st, st.copy()
                for s in (a, b):
                    s.set("consumed", 0)
                    self.havoc_args(I, s, fr, n, args)
                b.set("badread", 1)
                return [(a, ONE), (b, ZERO)]
            if nm in ("read_bits", "peek_bits"):
                st.set("consumed", 0)
                self.havoc_args(I, st, fr, n, args)
                v = I.fresh(st, fr, n, "bits")
                st.facts[("lo", v)] = 0
                return [(st, v)]
            if nm == "discard_bits":
                st.set("consumed", 0)
                st.set("pending", 1)
                return [(st, ("void",))]
            if nm == "fully_consumed":
                a, b = st, st.copy()
                if a.get("consumed", 0) == 2:
                    return [(a, ONE)]
                a.set("consumed", 2)
                return [(a, ONE), (b, ZERO)]
        if self.writer and rec == self.writer:
            if nm == "finish":
                a, b = st, st.copy()
                a.set("finished", 1)
                b.set("finished", 0)
                b.set("refused", 1)
                return [(a, ONE), (b, ZERO)]
            if nm.startswith("write_"):
                st.set("finished", 0)
                st.set("pending", 0)
                return [(st, ("void",))]
        if q in ("memset", "std::memset", "memcpy", "std::memcpy"):
            return [(st, args[0])]
        return None

    def havoc_args(self, I, st, fr, n, args):
        for i, a in enumerate(args):
            if a is not None and a[0] == "&" and a[1][0] in ("v", "f", "t"):
                I.write(st, a[1], I.fresh(st, fr, n, "out%d" % i))

    def wrote(self, st, loc):
        self.used(st, loc)
        st.set("pending", 0)
        st.set("wrote", 1)

    def stream_call(self, I, st, fr, n, nm, q, args, obj):
        if nm in ("good", "operator bool", "fail", "operator!", "bad", "eof", "is_open"):
            return self.test(I, st, obj, nm)
        if nm in ("read", "get", "getline", "ignore", "peek", "readsome", "operator>>"):
            if nm != "peek" and st.get("pending", 0) and self.unwritten(st):
                st.set("dropped", 1)
            self.used(st, obj)
            if nm != "peek":
                st.set("pending", 1)
                st.set("count", None)
            return [(st, ("&", obj))] if nm in ("read", "getline", "ignore", "operator>>") else [(st, I.fresh(st, fr, n, "ch"))]
        if nm == "gcount":
            v = st.get("count", None)
            if v is None:
                v = I.fresh(st, fr, n, "gc")
                st.facts[("lo", v)] = 0
                st.set("count", v)
            return [(st, v)]
        if nm in ("write", "put", "operator<<"):
            self.wrote(st, obj)
            return [(st, ("&", obj))]
        if nm == "flush":
            self.used(st, obj)
            self.learn(st, obj, "flushed")
            return [(st, ("&", obj))]
        if nm == "setstate":
            v = st.const(args[0])
            bits = v[1] if v[0] == "c" else FAIL
            if bits & (FAIL | BAD):
                self.used(st, obj)
                self.learn(st, obj, "failed")
            return [(st, ("void",))]
        if nm in ("clear", "swap", "operator=", "rdbuf", "exceptions") and args:
            self.used(st, obj)
            self.learn(st, obj, "tampered")
        if nm == "close":
            self.used(st, obj)
            self.learn(st, obj, "flushed")
            return [(st, ("void",))]
        if nm == "str" and not args:
            st.set("taken", obj)
            return [(st, ("op", "text", ("&", obj)))]
        return None

    def unwritten(self, st):
        v = st.get("count", None)
        if v is None:
            return True
        return not (st.truth(mk_eq(v, ZERO)) is True or st.truth(mk_lt(ZERO, v)) is False)


def run(p, rep, f, **kw):
    rule = CodeRule(p)
    for k, v in kw.items():
        setattr(rule, k, v)
    I = Interp(p, rule)
    outs = I.run_entry(f)
    rep.absorb(I)
    return rule, I, [(s, s.const(v)) for s, k, v in outs if k == "ret"]


def overriders(p, base, name):
    out = []
    for f in p.funcs.values():
        for o in p.decls.get(f.key, {}).get("overrides", []):
            d = p.decls.get(o, {})
            if d.get("record") == base and o.split("(")[0].endswith("::" + name):
                out.append((o, f))
    return out


def C02(p, rep, thorough):
    rep.explanation = (
        "Typestate of the streams and of the bit reader and writer over every path of the coders: whatever is learnt of a stream is "
        "forgotten when it is used again, the outcomes of every read, write and test are followed separately, and success is an outcome "
        "only where the input is known to be used up and the output to have been accepted.")
    rep.assumptions += ["streams record failures in their state (the standard library does)"]
    internal = [(o, f) for b in CODERS for nm in ("encode_internal", "decode_internal") for o, f in overriders(p, b, nm)]
    binary = [(o, f) for nm, b in (("encode_binary", "fly::coders::BinaryEncoder"), ("decode_binary", "fly::coders::BinaryDecoder"))
              for o, f in overriders(p, b, nm)]
    rep.require(len(internal) >= 4 and len(binary) >= 2, f"{len(internal)} coders on streams, {len(binary)} on bits")
    bkeys = {o for o, f in binary} | {f.key for o, f in binary}
    for o, f in internal:
        on_streams(p, rep, f, bkeys)
    for o, f in binary:
        if any("Reader" in q["t"] for q in f.params):
            decoding(p, rep, f)
        else:
            encoding(p, rep, f)
    ikeys = {o for o, f in internal} | {f.key for o, f in internal}
    public(p, rep, ikeys)
    reading(p, rep)
    writing(p, rep)


def stream_params(f):
    i = [k for k, q in enumerate(f.params) if "istream" in q["t"]]
    o = [k for k, q in enumerate(f.params) if "ostream" in q["t"]]
    return (("r", "param", i[0]) if i else None), (("r", "param", o[0]) if o else None)


def on_streams(p, rep, f, bkeys):
    w = rep.where(f)
    free = {g.key for g in p.funcs.values() if g.file == f.file and not g.record and strip_type(g.ret) != "void" and
            any(q["t"].rstrip().endswith("*") for q in g.params)}
    rule, I, outs = run(p, rep, f, delegates=bkeys, helpers=free)
    i, o = stream_params(f)
    nm = f.q
    good = 0
    for st, v in outs:
        if v == ZERO:
            continue
        good += 1
        ki, ko = rule.known(st, i), rule.known(st, o)
        dele = st.get("delegated", 0)
        reads = "decode" in f.name and dele
        rep.check("success means all input was consumed", nm, v == ONE and ("eof" in ki or reads and "notbad" in ki), w,
                  "the input's end was not seen" if not reads else "read errors are not looked at", st.path())
        rep.check("success means no read failed", nm, "isbad" not in ki and ("eof" in ki and not dele or "notbad" in ki or "ok" in ki), w,
                  "the input may have failed", st.path())
        rep.check("success means the output took everything", nm, v == ONE and ("ok" in ko or dele and not st.get("wrote", 0)), w,
                  "the output's state is not looked at after the last write", st.path())
        rep.check("success means nothing was refused", nm, not st.get("refused", 0), w, "the conversion reported failure", st.path())
        rep.check("malformed input is not reported as success", nm, not st.get("rejected", 0), w, "a piece of input was rejected", st.path())
        rep.check("all that was read is written", nm, dele or not st.get("dropped", 0) and (not st.get("pending", 0) or not rule.unwritten(st)), w,
                  "input was read and nothing written for it", st.path())
        rep.check("a stream's state is left alone", nm, "tampered" not in ki | ko, w, "its state is cleared or replaced", st.path())
    rep.require(good, f"{nm} never succeeds")


def decoding(p, rep, f):
    w = rep.where(f)
    rec = [strip_type(q["t"]) for q in f.params if "Reader" in q["t"]][0]
    rule, I, outs = run(p, rep, f, reader=rec)
    _, o = stream_params(f)
    good = 0
    for st, v in outs:
        if v == ZERO:
            continue
        good += 1
        ko = rule.known(st, o)
        rep.check("success means all input was consumed", f.q, v == ONE and st.get("consumed", 0) == 2, w,
                  "input may be left", st.path())
        rep.check("success means no read failed", f.q, not st.get("badread", 0), w, "a read of the input failed", st.path())
        rep.check("success means the output took everything", f.q, v == ONE and "ok" in ko, w,
                  "the output's state is not looked at after the last write", st.path())
        rep.check("all that was read is written", f.q, not st.get("pending", 0), w, "symbols were read that are not written", st.path())
        rep.check("a stream's state is left alone", f.q, "tampered" not in ko, w, "its state is cleared or replaced", st.path())
    rep.require(good, f"{f.q} never succeeds")


def encoding(p, rep, f):
    w = rep.where(f)
    rec = [strip_type(q["t"]) for q in f.params if "Writer" in q["t"]][0]
    rule, I, outs = run(p, rep, f, writer=rec)
    i, _ = stream_params(f)
    good = 0
    for st, v in outs:
        if v == ZERO:
            continue
        good += 1
        rep.check("success means the output took everything", f.q, v == ONE and st.get("finished", 0) == 1, w,
                  "the writer is not finished successfully after the last write", st.path())
        rep.check("all that was read is written", f.q, not st.get("dropped", 0) and (not st.get("pending", 0) or not rule.unwritten(st)), w,
                  "input was read and nothing written for it", st.path())
        rep.check("a stream's state is left alone", f.q, "tampered" not in rule.known(st, i), w, "its state is cleared or replaced", st.path())
    rep.require(good, f"{f.q} never succeeds")


def public(p, rep, ikeys):
    for rec, names in (("fly::coders::Encoder", ("encode_string", "encode_file")), ("fly::coders::Decoder", ("decode_string", "decode_file"))):
        for nm in names:
            fs = [f for f in p.funcs.values() if f.record == rec and f.name == nm]
            rep.require(fs, f"{rec}::{nm} was not found")
            f = fs[0]
            w = rep.where(f)
            rule, I, outs = run(p, rep, f, delegates=ikeys)
            good = 0
            for st, v in outs:
                out = I.freeze(st, ("r", "param", 1))
                if v == ZERO:
                    if "string" in nm:
                        rep.check("failure leaves the result alone", f.q, out == ("s", "init", ("r", "param", 1)), w, "the result was changed",
                                  st.path())
                    continue
                good += 1
                g = st.get("given", ())
                rep.check("success means the conversion succeeded", f.q, v == ONE and st.get("delegated", 0) == 1 and not st.get("refused", 0), w,
                          "the conversion was not run once, or failed", st.path())
                if len(g) != 2:
                    continue
                if "file" in nm:
                    k = rule.known(st, g[1])
                    rep.check("success means the file took everything", f.q, "ok" in k and "flushed" in k, w,
                              "the file is not flushed, or its state is not looked at afterwards", st.path())
                else:
                    rep.check("success delivers the output", f.q, out == ("op", "text", ("&", g[1])), w, f"the result is {str(out)[:100]}", st.path())
            rep.require(good, f"{f.q} never succeeds")


# ----------------------------------------------------------------------------- reader and writer
READER, WRITER = "fly::BitStreamReader", "fly::BitStreamWriter"


class BitRule(Rule):
    """The bit streams on top of a stream buffer: what each layer tells the next of a short read, a short write or an exception."""
    quiet_files = QUIET
    cuts = ()        # names of methods of the class taken as given, with their outcomes followed separately

    def __init__(self, p, rec):
        self.p, self.rec = p, rec

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        nm = q.rsplit("::", 1)[-1]
        d = self.p.decls.get(key, {})
        rec = d.get("record") or q.rsplit("::", 1)[0]
        if is_stream(q) and obj is not None and "streambuf" not in q:
            if nm in ("operator bool", "good", "fail", "operator!", "bad"):
                a, b = st, st.copy()
                a.set("state", "ok")
                b.set("state", "failed")
                pos = nm in ("operator bool", "good")
                if st.get("state", None) == "failed":
                    return [(b, ZERO if pos else ONE)]
                return [(a, ONE if pos else ZERO), (b, ZERO if pos else ONE)]
            if nm == "setstate":
                v = st.const(args[0])
                if v[0] != "c" or v[1] & (FAIL | BAD):
                    st.set("state", "failed")
                return [(st, ("void",))]
            return None
        if "streambuf" in q:
            if nm in ("sgetn", "sputn"):
                a, b, c = st, st.copy(), st.copy()
                v, r = I.fresh(b, fr, n, "count"), args[1]
                b.facts[mk_lt(v, r)] = True
                b.facts[mk_eq(v, r)] = False
                b.facts[("lo", v)] = 0
                for s, x in ((a, r), (b, v)):
                    s.set("state", None)
                    s.set("moved", x)
                b.set("short", 1)
                c.set("threw", 1)
                c.set("state", None)
                out = [(a, r), (b, v)]
                if nm == "sgetn":
                    out.append((c, ("throw", "std::ios_base::failure")))
                return out
            if nm in ("sgetc", "snextc", "sbumpc"):
                a, b, c = st, st.copy(), st.copy()
                a.set("end", 1)
                v = I.fresh(b, fr, n, "char")
                b.facts[mk_eq(v, ("c", -1))] = False
                b.facts[("lo", v)] = 0
                b.set("end", 0)
                c.set("threw", 1)
                c.set("state", None)
                return [(a, ("c", -1)), (b, v), (c, ("throw", "std::ios_base::failure"))]
            return [(st, I.fresh(st, fr, n, "buf"))]
        if nm in self.cuts and rec == self.rec:
            if nm in ("peek_bits", "read_bits"):
                I.write(st, args[0][1], I.fresh(st, fr, n, "bits"))
                v = I.fresh(st, fr, n, "count")
                a, b = st, st.copy()
                for s, r, full in ((a, args[1], 1), (b, v, 0)):
                    s.set("got", s.get("got", ()) + ((r, full, 0),))
                b.facts[mk_lt(v, args[1])] = True
                b.facts[mk_eq(v, args[1])] = False
                b.facts[("lo", v)] = 0
                if any(not x[2] for x in st.get("got", ())[:-1]):
                    a.set("unordered", 1)
                    b.set("unordered", 1)
                return [(a, args[1]), (b, v)]
            if nm == "discard_bits":
                g = st.get("got", ())
                v = st.const(args[0])
                for i, (r, full, done) in enumerate(g):
                    if not done and st.const(r) == v:
                        st.set("got", g[:i] + ((r, full, 1),) + g[i + 1:])
                        break
                else:
                    st.set("stray", 1)
                return [(st, ("void",))]
            if nm == "end_of_stream":
                b = st.copy()
                st.set("end", 1)
                b.set("end", 0)
                return [(st, ONE), (b, ZERO)]
            if nm in ("flush", "flush_buffer", "flush_header"):
                st.set("state", None)
                if nm == "flush" and len(args) == 2:
                    st.set("flushed", 1)
                if nm == "flush_header":
                    st.set("header", 1)
                return [(st, ("void",))]
        return None


def bits(p, rep, rec, name, cuts=()):
    out = []
    for f in sorted((f for f in p.funcs.values() if f.record == rec and f.name == name and not f.is_lambda), key=lambda f: f.key):
        rule = BitRule(p, rec)
        rule.cuts = cuts
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        out.append((f, rule, I, outs))
    rep.require(out, f"{rec}::{name} was not found")
    return out


def label(f):
    return f.q + (" of " + strip_type(f.params[0]["t"]) if f.params else "")


def reading(p, rep):
    R = "a short read is reported"
    for nm in ("read_word", "read_byte"):
        for f, rule, I, outs in bits(p, rep, READER, nm, ("read_bits", "peek_bits", "discard_bits")):
            for st, k, v in outs:
                g = st.get("got", ())
                full = bool(g) and all(x[1] for x in g)
                v = st.const(v)
                rep.check(R, f.q, k == "ret" and (v == ONE if full else v == ZERO), rep.where(f),
                          f"it returns {str(v)[:80]} although {'all' if full else 'fewer'} bits were read", st.path())
    for f, rule, I, outs in bits(p, rep, READER, "read_bits", ("peek_bits", "discard_bits")):
        w = rep.where(f)
        for st, k, v in outs:
            if k != "ret":
                continue
            g = st.get("got", ())
            rep.check("what was read is taken off the stream", label(f), g and all(x[2] for x in g) and not st.get("stray", 0)
                      and not st.get("unordered", 0), w, "bits that were peeked are not discarded, or others are", st.path())
            rep.check(R, label(f), terms(st, v) == sorted(repr(st.const(x[0])) for x in g), w,
                      f"it returns {str(v)[:120]} for {len(g)} reads", st.path())
    for f, rule, I, outs in bits(p, rep, READER, "fully_consumed", ("end_of_stream",)):
        for st, k, v in outs:
            v = st.const(v)
            empty = any(bounds.entails_le(st, t, ZERO) or st.const(t) == ZERO for t in left_over(st))
            rep.check("consumed means the end was reached", f.q, v == ZERO or v == ONE and empty and st.get("end", 0) == 1, rep.where(f),
                      "bits are left in the buffer, or the stream has not ended", st.path())
    for f, rule, I, outs in bits(p, rep, READER, "end_of_stream"):
        for st, k, v in outs:
            v = st.const(v)
            ended = st.get("end", 0) == 1 or st.get("threw", 0)
            rep.check("the end of the stream is the stream buffer's", f.q, k == "ret" and (v == ONE if ended else v == ZERO), rep.where(f),
                      f"it returns {str(v)[:60]}", st.path())
            rep.check("an exception marks the stream as failed", f.q, k == "ret" and (not st.get("threw", 0) or st.get("state", None) == "failed"),
                      rep.where(f), "the stream is left as it was", st.path())
    for f, rule, I, outs in bits(p, rep, READER, "fill"):
        w = rep.where(f)
        for st, k, v in outs:
            rep.check("an exception marks the stream as failed", label(f), k == "ret" and (not st.get("threw", 0) or st.get("state", None) == "failed"),
                      w, "the stream is left as it was", st.path())
            m = st.get("moved", None)
            rep.check(R, label(f), k == "ret" and (st.const(v) == ZERO or m is not None and st.const(v) == st.const(m)), w,
                      f"it returns {str(v)[:100]} which is not the number of bytes read", st.path())


def left_over(st):
    """The values of the bit position a path knows something about."""
    out = set()
    for t in list(st.facts):
        for x in symbols(t):
            if "m_position" in repr(x):
                out.add(x)
    return out


def nothing_left(st, pos):
    """The write position is at its start: as far as the whole buffer."""
    whole = ("c", 64)
    left = ("op", "-", whole, pos)
    return bounds.entails_le(st, whole, pos) or st.truth(mk_eq(pos, whole)) is True or st.truth(mk_eq(left, ZERO)) is True or \
        st.truth(mk_lt(ZERO, left)) is False or bounds.entails_le(st, left, ZERO)


def terms(st, v):
    v = st.const(v)
    if v[0] == "op" and v[1] == "+":
        return sorted(terms(st, v[2]) + terms(st, v[3]))
    return [repr(v)]


def writing(p, rep):
    for f, rule, I, outs in bits(p, rep, WRITER, "flush"):
        for st, k, v in outs:
            rep.check("a short write marks the stream as failed", label(f), k == "ret" and (not st.get("short", 0) or st.get("state", None) == "failed"),
                      rep.where(f), "fewer bytes were accepted and the stream is left as it was", st.path())
            rep.check("nothing is withheld from a working stream", label(f), st.get("moved", None) is not None or st.get("state", None) == "failed",
                      rep.where(f), "the stream works and nothing is written", st.path())
    for f, rule, I, outs in bits(p, rep, WRITER, "finish", ("flush", "flush_buffer", "flush_header")):
        for st, k, v in outs:
            v = st.const(v)
            rep.check("finishing reports the stream's state", f.q, k == "ret" and (v == ZERO or v == ONE and st.get("state", None) == "ok"),
                      rep.where(f), "success is returned without the stream's state after the last write", st.path())
            if v == ONE and st.get("flushed", 0):
                rep.check("a partial byte is recorded in the header", f.q, st.get("header", 0) == 1, rep.where(f), "the header is not rewritten", st.path())
            if v == ONE and not st.get("flushed", 0):
                full = any(nothing_left(st, x) for x in left_over(st))
                rep.check("what is left in the buffer is written", f.q, full, rep.where(f), "nothing was flushed whatever the buffer holds", st.path())


RULES = {"C02": C02}
