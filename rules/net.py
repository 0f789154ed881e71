"""Sockets and the socket service (N01-N07)."""
from .common import *

NET = "/fly/net/"
SYS = {"socket", "close", "getsockopt", "setsockopt", "fcntl", "getsockname", "getpeername", "bind", "listen", "accept",
       "accept4", "connect", "send", "sendto", "recv", "recvfrom", "select", "getaddrinfo", "freeaddrinfo", "shutdown", "sendmsg",
       "recvmsg", "poll", "dup"}
MINUS = ("c", -1)
EWOULDBLOCK, EINPROGRESS, EINTR = 11, 115, 4
SERVICE = "fly::net::SocketService"
BASE = "fly::net::detail::BaseSocket"


def syscall(q, key, p):
    return q in SYS and key not in p.funcs


def errno_of(r):
    return ("s", "errno", r)


class NetRule(Trace):
    """System calls, error numbers, registrations with the service, callbacks and handle changes of one operation."""
    max_depth = 16

    def __init__(self, p):
        self.p = p
        self.recs = {}

    def clobber(self, st):
        if st.get("err") is not None:
            st.set("err", None)

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        p = self.p
        if q == "fly::system::get_error_code" and not args:
            r = st.get("err")
            return [(st, errno_of(r) if r is not None else ("s", "errno-late", fr.f.loc(n)))]
        if q.startswith("fly::system::get_error"):
            self.clobber(st)
            return [(st, I.fresh(st, fr, n, "text"))]
        if q == "fly::endian_swap_if_non_native" and "::big" in key and len(args) == 1:
            q = "htonl"
        if q in ("htons", "ntohs", "htonl", "ntohl") or (q == "fly::endian_swap" and len(args) == 1):
            a = args[0] if args[0][0] != "&" else I.read(st, args[0][1])
            return [(st, a[2] if a[0] == "op" and a[1] == "swap" else ("op", "swap", a))]
        if syscall(q, key, p):
            self.sys_args = tuple(args)
            if q in ("send", "sendto", "recv", "recvfrom"):
                v = self.view_of(I, st, args[1])
                ln = st.const(args[2])
                self.whole = v is not None and (ln == size_of(v) or ln[0] == "op" and ln[1] == "min" and size_of(v) in ln[2:])
            if q == "close":
                self.ev(st, "close", args[0], fr.f.loc(n))
                self.clobber(st)
                return [(st, I.fresh(st, fr, n, "closed"))]
            return None
        f = p.funcs.get(key)
        if f is not None and ("/logger/" in f.file or "/types/string/" in f.file):
            self.clobber(st)
            if strip_type(f.ret) == "void" and "/logger/" in f.file:
                return [(st, ("void",))]
        if key and q.startswith(SERVICE + "::") and f is not None:
            ps = [x["t"] for x in f.params]
            nm = q.rsplit("::", 1)[1]
            if len(ps) == 2 and strip_type(ps[0]) == "int" and "std::function<void ()>" in ps[1]:
                kind = self.p.service_kind.get(key)
                self.ev(st, "arm", kind, args[0] if args[0][0] != "&" else I.read(st, args[0][1]),
                        content(I, st, args[1]), fr.f.loc(n))
                if args[1][0] == "&":
                    I.moved_from(st, fr, n, args[1][1], "std::function<>")
                return [(st, ("void",))]
            if len(ps) == 1 and strip_type(ps[0]) == "int":
                a = args[0] if args[0][0] != "&" else I.read(st, args[0][1])
                self.ev(st, "leave", a, fr.f.loc(n))
                return [(st, ("void",))]
        return None

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        if key and key.startswith("std::weak_ptr<") and "::lock(" in key:
            self.ev(st, "service" if "<fly::net::SocketService>" in key else "lock", val)
        if syscall(q, key, self.p):
            st.set("err", val)
            extra = None
            if q in ("send", "sendto"):
                extra = (self.view_of(I, st, args[1]), self.whole) + ((self.sockaddr(I, st, args[4]),) if q == "sendto" else ())
            elif q in ("recv", "recvfrom"):
                extra = (args[1][1][1] if args[1][0] == "&" and args[1][1][0] == "f" else None, self.whole)
            elif q in ("bind", "connect"):
                extra = self.sockaddr(I, st, args[1])
            elif q == "getsockopt":
                extra = I.read(st, args[3][1]) if args[3][0] == "&" else None
            self.ev(st, "sys", q, tuple(args), val, fr.f.loc(n), extra, errno_of(val))

    def view_of(self, I, st, a):
        """The text a data() pointer belongs to."""
        if a[0] == "&" and a[1][0] == "f" and a[1][2] == "#data":
            return I.freeze(st, a[1][1])
        return None

    def sockaddr(self, I, st, a):
        """Family, port and address of the socket address a system call is given."""
        if a[0] != "&":
            return None
        base = a[1]
        get = lambda *fs: I.freeze(st, path_of(base, fs))
        for v6 in (True, False):
            fam = st.const(get("sin6_family" if v6 else "sin_family"))
            if fam[0] == "c" and fam[1] in (2, 10):
                if v6:
                    return (fam[1], get("sin6_port"), get("sin6_addr", "__in6_u", "__u6_addr8"))
                return (fam[1], get("sin_port"), get("sin_addr", "s_addr"))
        return None

    def on_invoke(self, I, st, fr, n, fval, args):
        vals = tuple(content(I, st, a) for a in args)
        given = tuple(I.read(st, hfield(self.p, v[1])) for v in vals if v[0] == "&" and hfield(self.p, v[1]) in st.store)
        self.ev(st, "run", fval, vals, fr.f.loc(n), given)
        return None

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if name in ("resize", "clear", "assign", "erase", "push_back", "append", "operator+=", "pop_back") and obj is not None \
                and root(obj)[0] in ("v", "t"):
            self.ev(st, "text", name, obj, tuple(c.val(i) for i in range(len(c.args))), fr.f.loc(n))

    def on_write(self, I, st, fr, n, loc, val):
        if loc[0] == "f" and loc[2] == self.p.handle_field:
            self.ev(st, "handle", loc[1], val, fr.f.loc(n))


def path_of(loc, fs):
    for x in fs:
        loc = ("f", loc, x)
    return loc


def size_of(v):
    if v[0] == "op" and v[1] == "resized":
        return v[2]
    return ZERO if v == ("emptyc",) else ("op", "size", v)


def prepare(p, rep):
    """The handle field of a socket; which vector of the service each notify function feeds."""
    if hasattr(p, "service_kind"):
        return
    hf = set()
    for n, r in p.records.items():
        if n.startswith(BASE + "<") and "lambda@" not in n:
            hf |= {fl["n"] for fl in r["fields"] if strip_type(fl["t"]) == "int" and fl["n"]}
    rep.require(len(hf) == 1, f"the handle field of {BASE} was not found: {hf}")
    p.handle_field = hf.pop()
    p.service_kind = {}
    vecs = [fl["n"] for fl in p.records[SERVICE]["fields"] if "std::vector<" in fl["t"]]
    rep.require(len(vecs) == 2, f"the request lists of {SERVICE} were not found: {vecs}")
    p.request_lists = vecs
    for f in p.funcs.values():
        if f.record == SERVICE and len(f.params) == 2 and strip_type(f.params[0]["t"]) == "int":
            p.service_kind[f.key] = f.name
    rep.require(len(p.service_kind) == 2, "the service's notify functions were not found")


def net_funcs(p, pred=lambda f: True):
    return sorted([f for f in p.funcs.values() if NET in f.file and not f.is_lambda and pred(f)], key=lambda f: f.key)


def label(f):
    """A short name that tells the address family apart."""
    k = f.key
    v = "IPv6" if "IPv6Address" in k else "IPv4" if "IPv4Address" in k else ""
    q = f.q.replace("fly::net::", "")
    return f"{q} ({v})" if v else q


def failed(st, r):
    return st.truth(mk_eq(r, MINUS))


def calls_sys(f, names):
    for i, nd in f.calls():
        if nd.get("f") and short_name(nd["f"]) in names:
            return True
    return False


def short_name(key):
    return key.split("(")[0]


def run(p, rep, f, st=None, args=None, this=None, dyn=None):
    rule = NetRule(p)
    I = Interp(p, rule)
    if dyn:
        I.dyn[THIS] = dyn
    outs = I.run_entry(f, this, args, st)
    rep.absorb(I)
    return rule, I, outs


def state_name(p, v, st=None):
    names = {0: "Disconnected", 1: "Connecting", 2: "Connected"}
    if st is not None and v is not None:
        v = st.const(v)
    return names.get(v[1]) if v is not None and v[0] == "c" else None


def N04(p, rep, thorough):
    rep.explanation = (
        "Path-sensitive analysis of every function of the network module that reaches a system call: on each path the rule "
        "compares what the path knows about the call's result with the value returned, the would-block flag, the stored "
        "connection state and whether the socket was closed; the error number must be read before any call that can change it.")
    rep.assumptions += ["logging does not modify the values it is given", "logging, formatting and system calls may change the error number"]
    prepare(p, rep)
    CHECKED = {"getsockname", "getpeername", "setsockopt", "bind", "listen", "accept", "fcntl", "connect", "getaddrinfo"}
    ops = net_funcs(p, lambda f: calls_sys(f, SYS - {"close", "socket", "select"}))
    rep.require(len(ops) >= 16, f"only {len(ops)} functions make system calls")
    for f in ops:
        rule, I, outs = run(p, rep, f)
        nm, w = label(f), rep.where(f)
        wb = [i for i, q in enumerate(f.params) if q["t"].replace(" ", "") == "bool&"]
        ret = strip_type(f.ret)
        for st, kind, val in outs:
            sysev = rule.evs(st, "sys")
            if kind != "ret" or not sysev:
                if wb and kind == "ret":
                    b = st.const(I.freeze(st, ("r", "param", wb[0])))
                    rep.check("would-block is false when nothing was attempted", nm, b == ZERO, w, f"it is {b}", st.path())
                continue
            late = any(x[0] == "s" and x[1] == "errno-late" for t in list(st.facts) + [val] for x in subs(t)) or \
                any(x[0] == "s" and x[1] == "errno-late" for i in wb for x in subs(I.freeze(st, ("r", "param", i))))
            rep.check("the error number is read before it can change", nm, not late, w,
                      "a decision uses the error number after a call that may have changed it", st.path())
            bad = False
            for e in sysev:
                q, r = e[1], e[3]
                if q not in CHECKED:
                    continue
                t = st.truth(mk_eq(r, ZERO)) if q == "getaddrinfo" else failed(st, r)
                rep.check("every result is examined", f"{nm}: {q}", t is not None, e[4],
                          f"whether {q} failed is not known when the function returns", st.path())
                bad = bad or (t is False if q == "getaddrinfo" else t is True)
            if ret == "bool" and calls_sys(f, CHECKED):
                want = ZERO if bad else ONE
                rep.check("returns false exactly on failure", nm, st.const(val) == want, w,
                          f"a path where {'a call failed' if bad else 'every call succeeded'} returns {val}", st.path())
            elif ret == "bool":
                opt = [e for e in sysev if e[1] == "getsockopt"]
                if opt:
                    e = opt[-1]
                    x = e[5]
                    fl = failed(st, e[3])
                    v = st.const(val)
                    ok = (fl is True and (v == ZERO or v == mk_eq(("c", -1), ZERO))) or \
                         (fl is not True and (v == mk_eq(x, ZERO) or st.truth(mk_eq(x, ZERO)) is not None and
                                              v == (ONE if st.truth(mk_eq(x, ZERO)) else ZERO)))
                    rep.check("free of errors only if the pending error is zero", nm, ok, w,
                              f"returns {val} when the call {'failed' if fl else 'succeeded'}", st.path())
            elif "std::optional" in ret:
                h = val[0] if val is not None else "?"
                rep.check("empty exactly on failure", nm, h == ("none" if bad else "some"), w,
                          f"a path where {'a call failed' if bad else 'every call succeeded'} returns {str(val)[:80]}", st.path())
                if "accept" in [e[1] for e in sysev] and h == "some":
                    rep.check("hands out the accepted handle", nm, val[1] == sysev[-1][3], w, f"it is {val}", st.path())
            elif "ConnectedState" in ret:
                e = [e for e in sysev if e[1] == "connect"]
                if e:
                    judge_connect(p, rep, nm, w, st, e[-1], val)
            if wb:
                b = st.const(I.freeze(st, ("r", "param", wb[0])))
                e = sysev[-1]
                r = e[3]
                fl = failed(st, r)
                if fl is None and st.truth(mk_lt(r, ZERO)) is not None:
                    fl = st.truth(mk_lt(r, ZERO))
                en = errno_of(r)
                t = st.truth(mk_eq(en, ("c", EWOULDBLOCK)))
                if fl is True:
                    ok = b == mk_eq(en, ("c", EWOULDBLOCK)) or (t is not None and b == (ONE if t else ZERO))
                    rep.check("would-block exactly when the call says so", nm, ok, w,
                              f"{e[1]} failed and the flag is {str(b)[:90]}", st.path())
                elif fl is False:
                    rep.check("would-block exactly when the call says so", nm, b == ZERO, w,
                              f"{e[1]} did not fail and the flag is {str(b)[:90]}", st.path())
                else:
                    rep.check("every result is examined", f"{nm}: {e[1]}", b == ZERO, e[4],
                              f"whether {e[1]} failed is not known and the flag is {str(b)[:90]}", st.path())
    sockets(p, rep)


def judge_connect(p, rep, nm, w, st, e, val):
    r = e[3]
    fl = failed(st, r)
    en = errno_of(r)
    prog = [st.truth(mk_eq(en, ("c", x))) for x in (EINPROGRESS, EINTR)]
    s = state_name(p, val, st)
    if fl is False:
        want = "Connected"
    elif fl is True:
        want = "Disconnected" if prog == [False, False] else "Connecting"
    else:
        want = None
    rep.check("the connection state is what the call reported", nm, s is not None and s == want, w,
              f"connect {'failed' if fl else 'succeeded'} and the state is {s or val}", st.path())
    return s


def subs(t):
    """All terms inside a term."""
    out, work = [], [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            if len(x) > 1 and isinstance(x[0], str):
                out.append(x)
            work.extend(y for y in x if isinstance(y, tuple))
    return out


def socket_methods(p, cls, name):
    return net_funcs(p, lambda f: f.name == name and (f.record or "").split("<")[0] == cls)


def handle_loc(p):
    return ("f", THIS, p.handle_field)


def closed_now(p, rule, st):
    """Whether this path closed the handle the socket had at entry."""
    return [e for e in rule.evs(st, "close")]


def sockets(p, rep):
    """The socket classes: what a failed operation does to the socket."""
    h0 = ("s", "init", handle_loc(p))
    TCP, UDP, LIS = "fly::net::TcpSocket", "fly::net::UdpSocket", "fly::net::ListenSocket"

    def closes(f, st, rule):
        open0 = st.truth(mk_eq(h0, MINUS))
        cl = rule.evs(st, "close")
        return open0 is True or (len(cl) == 1 and cl[0][1] == h0)
    n = 0
    for cls in (TCP, UDP):
        for name in ("send", "receive"):
            for f in socket_methods(p, cls, name):
                st = State()
                st.assume(mk_eq(h0, MINUS), False)      # the socket is open when the operation starts
                rule, I, outs = run(p, rep, f, st)
                for st, kind, val in outs:
                    if kind != "ret" or not rule.evs(st, "sys"):
                        continue
                    io = [e for e in rule.evs(st, "sys") if e[1] in ("send", "sendto", "recv", "recvfrom")]
                    if not io:
                        continue
                    n += 1
                    v = st.const(val) if val is not None else ("s", "?")
                    none = st.truth(mk_empty(v) if name == "receive" else mk_eq(v, ZERO))
                    cl = rule.evs(st, "close")
                    if none is not False:
                        rep.check("a failed operation closes the socket", label(f), none and closes(f, st, rule), rep.where(f),
                                  "nothing was transferred and the socket stays open", st.path())
                    else:
                        rep.check("a successful operation keeps the socket", label(f), not cl, rep.where(f),
                                  "the socket is closed although data was transferred", st.path())
    for f in net_funcs(p, lambda f: (f.record or "").startswith((TCP + "<", UDP + "<")) and not f.is_lambda and
                       f.name.startswith("ready_to_")):
        rule, I, outs = run(p, rep, f)
        for st, kind, val in outs:
            io = [e for e in rule.evs(st, "sys") if e[1] in ("send", "sendto", "recv", "recvfrom")]
            if kind != "ret" or not io:
                continue
            r = io[-1][3]
            n += 1
            fl = failed(st, r)
            would = st.truth(mk_eq(errno_of(r), ("c", EWOULDBLOCK)))
            cl, arm = rule.evs(st, "close"), rule.evs(st, "arm")
            if fl is True and would is False and not rule_complete(I, st, f, io):
                rep.check("a failed operation closes the socket", label(f), closes(f, st, rule), rep.where(f),
                          "an error other than would-block leaves the socket open", st.path())
            if fl is True and would is True:
                rep.check("would-block keeps the socket", label(f), not cl, rep.where(f),
                          "the socket is closed although the call would only block", st.path())
            if fl is False and st.truth(mk_lt(ZERO, r)) is True and "recv" in io[-1][1]:
                rep.check("a successful operation keeps the socket", label(f), not cl, rep.where(f),
                          "the socket is closed although data was received", st.path())
    for f in net_funcs(p, lambda f: (f.record or "").startswith(TCP + "<") and "ConnectedState" in f.ret):
        if any("basic_string_view" in q["t"] for q in f.params) or any("std::function" in q["t"] for q in f.params):
            continue
        rule, I, outs = run(p, rep, f)
        for st, kind, val in outs:
            if kind != "ret":
                continue
            cs = [k for k in st.store if k[0] == "f" and k[1] == THIS and "state" in k[2]]
            stored = st.const(I.freeze(st, cs[0])) if cs else None
            n += 1
            s = state_name(p, val, st)
            rep.check("the stored connection state is the returned one", label(f), s is not None and
                      state_name(p, stored, st) == s, rep.where(f), f"returns {s or val}, stores {stored}", st.path())
            con = [e for e in rule.evs(st, "sys") if e[1] == "connect"]
            opt = [e for e in rule.evs(st, "sys") if e[1] == "getsockopt"]
            if con:
                judge_connect(p, rep, label(f), rep.where(f), st, con[-1], val)
            else:
                ok = bool(opt) and failed(st, opt[-1][3]) is not True and st.truth(mk_eq(h0, MINUS)) is False and \
                    st.truth(mk_eq(opt[-1][5], ZERO)) is True
                rep.check("connected only when open and free of errors", label(f), s != "Connected" or ok, rep.where(f),
                          "reports a connection that was not verified", st.path())
                if ok and s != "Connected":
                    was = [t for t, v in st.facts.items() if v is False and t[0] == "op" and t[1] == "==" and t[3] == ONE]
                    rep.check("a completed connection is reported", label(f), bool(was), rep.where(f),
                              f"the socket is open and free of errors, yet {s} is reported", st.path())
            if s == "Disconnected":
                rep.check("a failed operation closes the socket", label(f), closes(f, st, rule), rep.where(f),
                          "the connection failed and the socket stays open", st.path())
            elif s:
                rep.check("a successful operation keeps the socket", label(f), not rule.evs(st, "close"), rep.where(f),
                          f"the socket is closed although it is {s}", st.path())
    for f in net_funcs(p, lambda f: (f.record or "").startswith(LIS + "<") and f.name in ("accept", "ready_to_accept")):
        rule, I, outs = run(p, rep, f)
        for st, kind, val in outs:
            acc = [e for e in rule.evs(st, "sys") if e[1] == "accept"]
            if kind != "ret" or not acc:
                continue
            n += 1
            fl = failed(st, acc[-1][3])
            would = st.truth(mk_eq(errno_of(acc[-1][3]), ("c", EWOULDBLOCK)))
            cl = [e for e in rule.evs(st, "close") if e[1] == h0]
            if fl is True and (would is False or f.name == "accept"):
                rep.check("a failed operation closes the socket", label(f), closes(f, st, rule), rep.where(f),
                          "an error other than would-block leaves the socket open", st.path())
            elif fl is False or would is True:
                rep.check("a successful operation keeps the socket", label(f), not cl, rep.where(f),
                          "the listening socket is closed although nothing failed", st.path())
    for f in net_funcs(p, lambda f: (f.record or "").startswith(BASE + "<") and f.name == "set_io_mode"):
        rule, I, outs = run(p, rep, f)
        for st, kind, val in outs:
            fc = [e for e in rule.evs(st, "sys") if e[1] == "fcntl"]
            if kind != "ret" or not fc:
                continue
            n += 1
            bad = any(failed(st, e[3]) is True for e in fc)
            if bad:
                rep.check("a failed operation closes the socket", label(f), closes(f, st, rule), rep.where(f),
                          "the mode could not be set and the socket stays open", st.path())
            else:
                rep.check("a successful operation keeps the socket", label(f), not rule.evs(st, "close"), rep.where(f),
                          "the socket is closed although its mode was set", st.path())
    rep.require(n >= 40, f"only {n} socket paths were seen")


def rule_complete(I, st, f, io):
    """Whether the path knows that everything had been sent before the failure (nothing remained)."""
    return False


# ---- N03: completion of asynchronous operations --------------------------------------------------------
def is_completion(t):
    return t.replace("const ", "").startswith("std::function<void (") and t.endswith("&&") or t.startswith("std::function<void (")


def clear_events(st):
    st.set("ev", ())
    return st


def run_closure(p, rep, rule, I, st, lam, h):
    """Everything a registered notification can do, with the socket's handle and state as they may be by then."""
    st = clear_events(st.copy())
    st.vals = {}
    for k in [k for k in st.store if k[0] == "f" and k[1] == THIS]:
        I.clear(st, k)
        st.store[k] = ("s", "later", k)
    st.store[handle_loc(p)] = ("s", "later", handle_loc(p))
    for k in [k for k in st.facts if any(x[0] == "s" and len(x) == 3 and x[1] == "init" and x[2][0] == "f" and x[2][1] == THIS for x in subs(k) if x)]:
        del st.facts[k]
    ops = I.lambda_ops(lam[1])
    if len(ops) != 1:
        return None
    f = p.funcs[ops[0]]
    return f, I.run_function(st, f, None, [], None, None, caps=I.lambda_caps(lam))


def N03(p, rep, thorough):
    rep.explanation = (
        "Each asynchronous operation is analysed path by path down to its registration with the socket service; every closure "
        "registered is then itself analysed, and so is every closure that one registers, until no new closure appears. Each "
        "run of a closure must invoke the user's callback exactly once, or register exactly one closure that holds it, and "
        "re-registration is allowed only when the system call reported that it would block; nothing may happen if the socket is gone.")
    rep.assumptions += ["a completion callback given by the user is not empty once the operation accepted it"]
    prepare(p, rep)
    ops = net_funcs(p, lambda f: any(is_completion(q["t"]) for q in f.params) and f.access == "public" and (f.record or "").split("<")[0].endswith("Socket"))
    rep.require(len(ops) >= 14, f"only {len(ops)} asynchronous operations found")
    closures = transfers = 0
    for f in ops:
        nm, w = label(f), rep.where(f)
        cb = [i for i, q in enumerate(f.params) if is_completion(q["t"])][0]
        st0 = State()
        h0 = ("s", "init", handle_loc(p))
        user = ("s", "init", ("r", "param", cb))
        rule, I, outs = run(p, rep, f, st0)
        work = []
        want = "recv" if any(x in f.name for x in ("accept", "receive")) else "send"
        for st, kind, val in outs:
            arms = rule.evs(st, "arm")
            runs = [e for e in rule.evs(st, "run") if e[1] == user]
            v = st.const(val) if val is not None else None
            if strip_type(f.ret) == "bool":
                ok = v == (ONE if arms else ZERO)
                rep.check("accepted exactly when registered", nm, ok, w,
                          f"returns {v} with {len(arms)} registrations", st.path())
            else:
                s = state_name(p, v, st)
                rep.check("accepted exactly when registered", nm, s is not None and (s == "Connecting") == bool(arms), w,
                          f"reports {s} with {len(arms)} registrations", st.path())
            rep.check("registered at most once", nm, len(arms) <= 1, w, f"{len(arms)} registrations", st.path())
            rep.check("the callback is not invoked by the call itself", nm, not runs, w, "it is invoked immediately", st.path())
            for e in arms:
                work.append((st, e, None))
        done = {}
        depth = 0
        while work and depth < 4:
            depth += 1
            nxt = []
            for st, e, _ in work:
                kind, h, clo, loc = e[1:5]
                rep.check("waits for the right event", f"{nm}", ("writ" in kind) == (want == "send"), loc,
                          f"registered with {kind}", st.path())
                rep.check("waits on its own handle", f"{nm}", h == I.freeze(st, handle_loc(p)) or h == h0, loc,
                          f"registered for {str(h)[:80]}", st.path())
                lam = lambda_of(clo)
                if lam is None:
                    rep.bad("the registered notification is known", nm, loc, f"{str(clo)[:80]}", st.path())
                    continue
                rep.check("the registered notification holds the callback", nm, user in subs(clo) or callback_in(I, st, clo, user),
                          loc, "the closure does not hold the user's callback", st.path())
                lam = general(lam, user)
                key = shape(lam)
                if key in done:
                    continue
                done[key] = 1
                closures += 1
                got = run_closure(p, rep, rule, I, st, lam, h)
                if got is None:
                    rep.bad("the registered notification is known", nm, loc, "several call operators", st.path())
                    continue
                g, outs2 = got
                for s2, k2, v2 in outs2:
                    runs = [x for x in rule.evs(s2, "run") if is_user(x[1], user)]
                    arms = rule.evs(s2, "arm")
                    io = rule.evs(s2, "sys")
                    alive = s2.truth(mk_eq(lock_term(s2, rule), ZERO)) if lock_term(s2, rule) else False
                    if alive is True:
                        rep.check("a socket that is gone is left alone", nm, not runs and not arms and not io, loc,
                                  "something is done for a destroyed socket", s2.path())
                        continue
                    srv = [x for x in rule.evs(s2, "service") if s2.truth(mk_eq(x[1], ZERO)) is True]
                    if srv and not arms and not runs:
                        continue
                    rep.check("exactly one completion or re-registration", nm, len(runs) + len(arms) == 1, loc,
                              f"the callback runs {len(runs)} times and {len(arms)} registrations are made", s2.path())
                    ios = [x for x in io if x[1] in ("send", "sendto", "recv", "recvfrom", "accept")]
                    transfers += bool(ios)
                    if runs and ios and failed(s2, ios[-1][3]) is True and \
                            s2.truth(mk_eq(errno_of(ios[-1][3]), ("c", EWOULDBLOCK))) is False:
                        evs = list(s2.get("ev", ()))
                        hl = ("s", "later", handle_loc(p))
                        cl = [i for i, x in enumerate(evs) if x[0] == "close" and x[1] == hl]
                        rep.check("a failure closes the socket before it is reported", nm, s2.truth(mk_eq(hl, MINUS)) is True or
                                  bool(cl) and cl[0] < evs.index(runs[0]), loc, "the callback runs while the socket is open", s2.path())
                    if arms:
                        ok = bool(ios) and failed(s2, ios[-1][3]) is True and \
                            s2.truth(mk_eq(errno_of(ios[-1][3]), ("c", EWOULDBLOCK))) is True
                        rep.check("re-registered only when the call would block", nm, ok, loc,
                                  "re-registered although the last call did not report would-block", s2.path())
                        nxt += [(s2, x, None) for x in arms]
            work = nxt
        rep.check("the closures registered are finitely many", nm, not work, w, "new closures keep appearing", ())
    rep.count("closures", closures)
    rep.require(transfers >= 8, f"only {transfers} transfers were seen in closures")
    rep.require(closures >= 14, f"only {closures} closures were analysed")


def lambda_of(v):
    while isinstance(v, tuple) and v and v[0] in ("agg", "some", "op"):
        if v[0] == "op":
            if v[1] == "make":
                v = v[-1]
                continue
            return None
        v = v[1]
    return v if isinstance(v, tuple) and v and v[0] == "lam" else None


def shape(lam):
    """A closure up to the symbols it captured."""
    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == "s":
                return "s"
            return tuple(go(x) for x in t)
        return t
    return go(lam)


def general(lam, user):
    """A closure that holds the same callables and objects, and anything at all in its other captures."""
    def plain(v):
        return not any(x == user or x[0] in ("lam", "weak", "&") for x in subs(v) if x)

    def go(v, at):
        if not isinstance(v, tuple) or not v:
            return v
        if v == user or v[0] in ("weak", "&", "c"):
            return v
        if v[0] == "lam":
            return ("lam", v[1], tuple((n, how, go(x, at + (n,))) for n, how, x in v[2]))
        if v[0] == "agg":
            return ("agg", go(v[1], at), tuple((n, go(x, at + (n,))) for n, x in v[2]))
        if plain(v):
            return ("s", "captured") + at
        if v[0] == "op":
            return v[:2] + tuple(go(x, at) for x in v[2:])
        return v
    return go(lam, ())


def is_user(v, user):
    return v == user


def callback_in(I, st, clo, user):
    return any(x == user for x in subs(clo))


def lock_term(st, rule):
    e = rule.evs(st, "lock")
    return e[0][1] if e else None



# ---- N01, N02: ownership of handles --------------------------------------------------------------------
SOCKETS = ("fly::net::TcpSocket", "fly::net::UdpSocket", "fly::net::ListenSocket", BASE)


def is_socket(r):
    return (r or "").split("<")[0] in SOCKETS or (r or "").endswith("SocketImpl")


def hfield(p, loc):
    return ("f", loc, p.handle_field)


def N01(p, rep, thorough):
    rep.explanation = (
        "Path-sensitive ownership analysis: every function of the network module that can obtain, move, replace or close a "
        "socket handle is analysed; on every path a handle that was obtained ends in exactly one place (a socket's handle "
        "field, the returned value, or one close call), a closed handle is not used again and not kept, and moving a socket "
        "leaves the source without a handle. Lists returned by the resolver are freed exactly once.")
    prepare(p, rep)
    h0 = ("s", "init", handle_loc(p))
    # 1. Members of the socket classes.
    ms = net_funcs(p, lambda f: is_socket(f.record) and not f.static and f.name != "<ctor>")
    n = 0
    for f in ms:
        if f.name == "operator=":
            continue
        st0 = State()
        rule, I, outs = run(p, rep, f, st0)
        for st, kind, val in outs:
            n += 1
            cl = rule.evs(st, "close")
            end = st.const(I.freeze(st, handle_loc(p)))
            nm, w = label(f), rep.where(f)
            mine = [e for e in cl if e[1] == h0]
            rep.check("closed at most once", nm, len(mine) <= 1, w, f"the handle is closed {len(mine)} times", st.path())
            if mine:
                rep.check("a closed handle is forgotten", nm, end != h0, w, "the socket keeps the handle it closed", st.path())
            elif f.name != "<dtor>":
                rep.check("a handle is not dropped", nm, end == h0 or st.truth(mk_eq(h0, MINUS)) is True, w,
                          f"the handle field becomes {str(end)[:60]} without a close", st.path())
            use_after_close(rep, rule, st, nm, w)
            if f.name == "close" or f.name == "<dtor>" and f.record.startswith(BASE):
                open0 = st.truth(mk_eq(h0, MINUS))
                rep.check("close closes an open handle", nm, open0 is True or len(mine) == 1, w,
                          "an open handle is left open", st.path())
                rep.check("close ignores a socket without a handle", nm, open0 is False or not cl, w,
                          "close is called without a handle", st.path())
            judge_new(p, rep, rule, I, st, val, nm, w)
    # 2. Constructors.
    for f in net_funcs(p, lambda f: is_socket(f.record) and f.name == "<ctor>"):
        src = [i for i, q in enumerate(f.params) if q["t"].endswith("&&") and is_socket(strip_type(q["t"]))]
        rule, I, outs = run(p, rep, f)
        nm, w = label(f), rep.where(f)
        for st, kind, val in outs:
            n += 1
            end = st.const(I.freeze(st, handle_loc(p)))
            if src:
                sl = hfield(p, ("r", "param", src[0]))
                hs = ("s", "init", sl)
                rep.check("moving hands over the handle", nm, end == hs and not rule.evs(st, "close"), w,
                          f"the new socket holds {str(end)[:60]}", st.path())
                rep.check("moving leaves the source without a handle", nm, st.const(I.freeze(st, sl)) == MINUS, w,
                          f"the source keeps {str(I.freeze(st, sl))[:60]}", st.path())
            use_after_close(rep, rule, st, nm, w)
            judge_new(p, rep, rule, I, st, val, nm, w)
    # 3. Move assignment, to another socket and to itself.
    for f in net_funcs(p, lambda f: is_socket(f.record) and f.name == "operator="):
        nm, w = label(f), rep.where(f)
        rule, I, outs = run(p, rep, f)
        sl = hfield(p, ("r", "param", 0))
        hs = ("s", "init", sl)
        for st, kind, val in outs:
            n += 1
            same = [v for t, v in st.facts.items() if t[0] == "op" and t[1] == "==" and {t[2], t[3]} >= {("&", THIS), ("&", ("r", "param", 0))}]
            if same and same[0]:
                continue
            end = st.const(I.freeze(st, handle_loc(p)))
            cl = rule.evs(st, "close")
            rep.check("assigning closes the handle that is replaced", nm, st.truth(mk_eq(h0, MINUS)) is True or
                      [e[1] for e in cl] == [h0], w, f"closed: {[str(e[1])[:50] for e in cl]}", st.path())
            rep.check("moving hands over the handle", nm, end == hs, w, f"the socket holds {str(end)[:60]}", st.path())
            rep.check("moving leaves the source without a handle", nm, st.const(I.freeze(st, sl)) == MINUS, w,
                      f"the source keeps {str(I.freeze(st, sl))[:60]}", st.path())
            use_after_close(rep, rule, st, nm, w)
        rule, I, outs = run(p, rep, f, None, [("&", THIS)])
        for st, kind, val in outs:
            n += 1
            end = st.const(I.freeze(st, handle_loc(p)))
            cl = rule.evs(st, "close")
            rep.check("assigning a socket to itself keeps it", nm, end == h0 and not cl, w,
                      f"the socket then holds {str(end)[:60]}, closed {len(cl)}", st.path())
    # 4. Whoever else obtains a handle, or a list of addresses.
    for f in net_funcs(p, lambda f: not is_socket(f.record) and calls_sys(f, {"socket", "accept", "getaddrinfo", "close"})):
        rule, I, outs = run(p, rep, f)
        nm, w = label(f), rep.where(f)
        for st, kind, val in outs:
            n += 1
            judge_new(p, rep, rule, I, st, val, nm, w)
            for e in rule.evs(st, "sys"):
                if e[1] == "getaddrinfo":
                    fr = [x for x in rule.evs(st, "sys") if x[1] == "freeaddrinfo"]
                    ok = st.truth(mk_eq(e[3], ZERO))
                    rep.check("a resolver's list is freed exactly once", nm, len(fr) == (1 if ok else 0), w,
                              f"it is freed {len(fr)} times", st.path())
    # 5. Only the one closing function closes.
    closers = sorted({f.q for f in p.funcs.values() if NET in f.file and calls_sys(f, {"close", "shutdown", "dup"})})
    rep.check("one function closes handles", "close", len(closers) == 1, "fly/net", f"{closers}", ())
    for f in net_funcs(p):
        for i, nd in f.calls():
            if nd.get("f") and nd["f"].split("(")[0] in closers:
                rep.check("handles are closed by their socket", label(f), f.q.startswith(BASE) or f.q in closers or
                          not is_socket(f.record), f.loc(i), "a handle is closed behind its socket's back", ())
    rep.require(n >= 200, f"only {n} paths were analysed")


def use_after_close(rep, rule, st, nm, w):
    gone = set()
    for e in st.get("ev", ()):
        if e[0] == "close":
            rep.check("a closed handle is not used", nm, e[1] not in gone, e[2], "it is closed twice", st.path())
            gone.add(e[1])
        elif e[0] == "sys" and e[2] and e[2][0] in gone:
            rep.bad("a closed handle is not used", nm, e[4], f"{e[1]} uses a handle that was closed", st.path())
        elif e[0] == "arm" and e[2] in gone:
            rep.bad("a closed handle is not used", nm, e[4], "a closed handle is registered", st.path())


def judge_new(p, rep, rule, I, st, val, nm, w):
    """Where each handle obtained on this path ends."""
    for e in rule.evs(st, "sys"):
        if e[1] not in ("socket", "accept", "accept4", "dup") or failed(st, e[3]) is True:
            continue
        h = e[3]
        places = 0
        vals = [val] if val is not None else []
        for x in vals:
            places += 1 if h in [y for y in subs(x)] else 0
        held = {k for k, v in st.store.items() if k[0] == "f" and k[2] == p.handle_field and st.const(v) == h}
        for k in held:
            if k[1] == THIS or root(k)[0] not in ("v", "t"):
                places += 1
        made = 0
        if not places:
            made = sum(1 for k in held) + sum(1 for x in st.get("ev", ()) if x[0] == "run" and any(h in subs(a) for a in x[2] + x[4]))
        cl = [x for x in rule.evs(st, "close") if x[1] == h]
        rep.check("an obtained handle has one owner", nm, (places >= 1 and not cl) or (not places and (len(cl) == 1 or made)), e[4],
                  f"the handle is in {places} places and closed {len(cl)} times", st.path())


def N02(p, rep, thorough):
    rep.explanation = (
        "On every path of every socket operation that closes a handle, the event order is checked: the handle is first taken "
        "out of the socket service (unless the path found that there is no service), with the value that is then closed, and "
        "it is not registered again afterwards. The service's removal must post one task that erases exactly the requests "
        "with that handle from both lists.")
    prepare(p, rep)
    n = 0
    for f in net_funcs(p, lambda f: is_socket(f.record) and not f.static):
        st0 = State()
        args = None
        rule, I, outs = run(p, rep, f, st0)
        for st, kind, val in outs:
            evs = st.get("ev", ())
            for i, e in enumerate(evs):
                if e[0] != "close":
                    continue
                n += 1
                before = [x for x in evs[:i] if x[0] == "leave" and x[1] == e[1]]
                none = [x for x in evs[:i] if x[0] == "service" and st.truth(mk_eq(x[1], ZERO)) is True]
                rep.check("requests are withdrawn before the handle is closed", label(f), bool(before) or bool(none), e[2],
                          "the handle is closed while the service may still watch it", st.path())
                rep.check("requests are withdrawn once", label(f), len(before) <= 1, e[2], "withdrawn twice", st.path())
                after = [x for x in evs[i + 1:] if x[0] == "arm" and x[2] == e[1]]
                rep.check("a closed handle is not registered", label(f), not after, e[2], "registered after the close", st.path())
    rep.require(n >= 40, f"only {n} closes were seen")
    sv = [f for f in net_funcs(p) if f.record == SERVICE and len(f.params) == 1 and strip_type(f.params[0]["t"]) == "int" and
          f.name != "<ctor>"]
    rep.require(len(sv) == 1, "the service's removal function was not found")
    for f, st, posts, rule, I in service_tasks(p, rep, sv):
        rep.check("removal posts one task", label(f), len(posts) == 1, rep.where(f), f"{len(posts)} tasks", st.path())
        for g, s2, ev in run_posted(p, rep, posts, rule, I, st):
            h = ("s", "param", 0)
            erased = {}
            for e in ev:
                if e[0] == "cont" and e[1] in ("erase_if", "std::erase_if", "remove_if"):
                    erased.setdefault(e[2], []).append(e)
            for v in p.request_lists:
                got = erased.get(v, [])
                ok = len(got) == 1 and got[0][4] is True
                rep.check("removal erases the handle's requests from both lists", v, ok, rep.where(f),
                          "not erased, or other requests would be erased with them", s2.path())


class ServiceRule(NetRule):
    """The service's own functions: tasks posted, request lists changed."""

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if q.startswith("fly::task::") and q.rsplit("::", 1)[1].startswith("post_task"):
            lam = [lambda_of(content(I, st, a)) for a in args]
            lam = [x for x in lam if x]
            self.ev(st, "post", I.read(st, obj) if obj is not None else None, obj, lam[0] if lam else None, fr.f.loc(n),
                    tuple(content(I, st, a) for a in args))
            return [(st, I.fresh(st, fr, n, "posted"))]
        if q in ("std::erase_if",):
            lst = self.list_of(args[0])
            pred = lambda_of(content(I, st, args[1])) if len(args) > 1 else None
            exact = None
            if lst and pred:
                exact = self.exact(I, st, fr, n, pred)
            self.ev(st, "cont", q, lst, fr.f.loc(n), exact)
            return [(st, I.fresh(st, fr, n, "erased"))]
        if key in self.p.funcs and self.p.funcs[key].record == SERVICE and q.endswith("::poll"):
            self.ev(st, "poll", fr.f.loc(n))
            return [(st, ("void",))]
        return super().pre_call(I, st, fr, n, nd, key, q, args, obj)

    def list_of(self, a):
        if a[0] == "&" and a[1][0] == "f" and a[1][2] in self.p.request_lists:
            return a[1][2]
        return None

    def exact(self, I, st, fr, n, pred):
        """Whether the predicate is true exactly for requests with the captured handle."""
        ops = I.lambda_ops(pred[1])
        if len(ops) != 1:
            return None
        f = self.p.funcs[ops[0]]
        s2 = st.copy()
        rq = ("r", "probe")
        fld = [x["n"] for x in self.p.records[SERVICE + "::Request"]["fields"] if strip_type(x["t"]) == "int"][0]
        hr = ("s", "init", ("f", rq, fld))
        good = []
        for s, kind, v in I.run_function(s2, f, None, [("&", rq)], fr, n, caps=I.lambda_caps(pred)):
            caps = [st.const(x[2] if x[2][0] != "&" else I.read(st, x[2][1])) for x in pred[2]]
            handles = [c for c in caps if c[0] == "s"]
            good.append(any(s.const(v) == mk_eq(hr, c) or s.const(v) == mk_eq(c, hr) or
                            (s.truth(mk_eq(hr, c)) is not None and s.const(v) == (ONE if s.truth(mk_eq(hr, c)) else ZERO))
                            for c in handles))
        return bool(good) and all(good)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if obj is not None and obj[0] == "f" and obj[2] in self.p.request_lists and name not in ("empty", "size", "begin", "end",
                                                                                               "cbegin", "cend"):
            self.ev(st, "cont", name, obj[2], fr.f.loc(n), tuple(content(I, st, a) for a in c.args))
        super().on_container(I, st, fr, n, obj, name, c, v)


def service_tasks(p, rep, fs):
    for f in fs:
        rule = ServiceRule(p)
        I = Interp(p, rule)
        for st, kind, val in I.run_entry(f):
            if kind == "ret":
                yield f, st, rule.evs(st, "post"), rule, I
        rep.absorb(I)


def run_posted(p, rep, posts, rule, I, st):
    """Every path of the posted tasks, run on the service."""
    for e in posts:
        lam = e[3]
        if lam is None:
            rep.bad("the posted task is known", "SocketService", e[4], f"{str(e[5])[:120]}", st.path())
            continue
        for op in I.lambda_ops(lam[1]):
            g = p.funcs[op]
            s = clear_events(st.copy())
            s.vals = {}
            args = []
            if len(g.params) == 1:
                tl = ("t", 0, "self")
                s.store[tl] = ("&", THIS)
                args = [("&", tl)]
            for s2, kind, val in I.run_function(s, g, None, args, None, None, caps=I.lambda_caps(lam)):
                yield g, s2, s2.get("ev", ())
    rep.absorb(I)


# ---- N05: byte order -----------------------------------------------------------------------------------
def swapped(v):
    return v[2] if v[0] == "op" and v[1] == "swap" else None


def content_of(v):
    while v[0] == "agg" and not v[2]:
        v = v[1]
    return v


def N05(p, rep, thorough):
    rep.explanation = (
        "Value analysis with the byte-order conversions kept as symbolic operators: at every bind, connect and sendto the "
        "port in the socket address must be the endpoint's port converted exactly once, the address the endpoint's stored "
        "network-order value unconverted, and the family the one of the endpoint type; every endpoint built from an address "
        "the system filled in must hold the port converted exactly once and the address unconverted.")
    prepare(p, rep)
    pf = [fl["n"] for fl in p.records["fly::net::Endpoint<fly::net::IPv4Address>"]["fields"] if "short" in fl["t"]]
    af = [fl["n"] for fl in p.records["fly::net::Endpoint<fly::net::IPv4Address>"]["fields"] if "IPv4Address" in fl["t"]]
    raw = {v: [fl["n"] for fl in p.records["fly::net::IPv%dAddress" % v]["fields"] if not fl.get("static")] for v in (4, 6)}
    rep.require(len(pf) == 1 and len(af) == 1 and len(raw[4]) == 1 and len(raw[6]) == 1, "the fields of Endpoint were not found")
    n = 0
    ops = net_funcs(p, lambda f: calls_sys(f, {"bind", "connect", "sendto", "accept", "recvfrom", "getsockname", "getpeername",
                                               "getaddrinfo"}))
    for f in ops:
        v6 = "IPv6" in f.key
        nm, w = label(f), rep.where(f)
        rule, I, outs = run(p, rep, f)
        ends = [i for i, q in enumerate(f.params) if "Endpoint<" in q["t"]]
        for st, kind, val in outs:
            for e in rule.evs(st, "sys"):
                sa = e[5][2] if e[1] == "sendto" and isinstance(e[5], tuple) else e[5] if e[1] in ("bind", "connect") else None
                if e[1] in ("bind", "connect", "sendto"):
                    n += 1
                    if not sa:
                        rep.bad("the address passed is known", nm, e[4], "the socket address is not understood", st.path())
                        continue
                    ep = ("r", "param", ends[0]) if ends else None
                    port = ("s", "init", ("f", ep, pf[0]))
                    addr = ("s", "init", ("f", ("f", ep, af[0]), raw[6 if v6 else 4][0]))
                    rep.check("the family is the endpoint's", f"{nm}: {e[1]}", sa[0] == (10 if v6 else 2), e[4],
                              f"family {sa[0]}", st.path())
                    rep.check("ports are sent in network byte order", f"{nm}: {e[1]}", swapped(sa[1]) == port, e[4],
                              f"the port is {str(sa[1])[:100]}", st.path())
                    rep.check("addresses are sent in network byte order", f"{nm}: {e[1]}", content_of(sa[2]) == addr, e[4],
                              f"the address is {str(sa[2])[:160]}", st.path())
            io = rule.evs(st, "sys")
            got = None
            if any(e[1] in ("getsockname", "getpeername") for e in io) and val is not None and val[0] == "some":
                got = val[1]
            elif any(e[1] in ("accept", "recvfrom") for e in io) and ends:
                got = I.freeze(st, ("r", "param", ends[0]))
                stored = got != ("s", "init", ("r", "param", ends[0]))
                e = [x for x in io if x[1] in ("accept", "recvfrom")][-1]
                good = s_pos(st, e[3]) if e[1] == "recvfrom" else \
                    {True: False, False: True}.get(failed(st, e[3]))
                rep.check("the peer's endpoint is given exactly on success", nm, good is not None and stored == good, e[4],
                          "the endpoint is " + ("set" if stored else "not set"), st.path())
                if not stored:
                    got = None
            elif any(e[1] == "getaddrinfo" for e in io) and val is not None and val[0] == "some":
                n += 1
                x = field_of(val[1], raw[6 if v6 else 4][0])
                rep.check("addresses are received in network byte order", nm, from_system(x), w, f"it is {str(x)[:160]}", st.path())
            if got is not None:
                n += 1
                port = field_of(got, pf[0])
                addr = field_of(field_of(got, af[0]), raw[6 if v6 else 4][0])
                x = swapped(port) if port else None
                rep.check("ports are received in host byte order", nm, x is not None and swapped(x) is None and
                          named(x, "sin6_port" if v6 else "sin_port"), w, f"the port is {str(port)[:120]}", st.path())
                rep.check("addresses are received in network byte order", nm, from_system(addr), w,
                          f"the address is {str(addr)[:160]}", st.path())
    # The address class itself.
    for f in [f for f in p.funcs.values() if f.record == "fly::net::IPv4Address" and f.name in ("network_order", "host_order")]:
        rule, I, outs = run(p, rep, f)
        base = ("s", "init", ("f", THIS, raw[4][0]))
        for st, kind, val in outs:
            n += 1
            ok = val == (base if f.name == "network_order" else ("op", "swap", base))
            rep.check("conversions of an address", f.name, ok, rep.where(f), f"it is {str(val)[:100]}", st.path())
    rep.require(n >= 16, f"only {n} conversions were seen")


def s_pos(st, v):
    return st.truth(mk_lt(ZERO, v))


def field_of(v, name):
    if v is None:
        return None
    if v[0] == "agg":
        for k, x in v[2]:
            if k == name:
                return x
        return field_of(v[1], name)
    return ("op", "fld", v, name)


def named(v, name):
    return name in str(v)


def from_system(x):
    """An address copied from a socket address without any conversion."""
    return x is not None and not any(t[0] == "op" and t[1] in ("swap", "<<", ">>", "|", "+", "-", "^") for t in subs(x)) and \
        (named(x, "sin_addr") or named(x, "sin6_addr"))


# ---- N06: bytes ----------------------------------------------------------------------------------------
NOSIGNAL = 0x4000


def terms_of_sum(v):
    if v[0] == "op" and v[1] == "+":
        return terms_of_sum(v[2]) + terms_of_sum(v[3])
    return [] if v == ZERO else [v]


def is_substr(v, base, off):
    return v[0] == "op" and v[1] == "substr" and v[2] == base and v[3] == off and \
        (len(v) == 4 or v[4] in (("c", "18446744073709551615"), ("c", 2 ** 64 - 1), ("c", -1)))


class XferRule(NetRule):
    """As NetRule, with the functions that move the bytes left opaque."""

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        f = self.p.funcs.get(key)
        if f is not None and NET in f.file and f.key in self.movers:
            text = [i for i, x in enumerate(f.params) if "basic_string_view" in x["t"]]
            flag = [i for i, x in enumerate(f.params) if x["t"].replace(" ", "") == "bool&"]
            r = I.fresh(st, fr, n, "moved")
            t = content(I, st, args[text[0]]) if text else None
            b = I.fresh(st, fr, n, "wouldblock")
            if flag and args[flag[0]][0] == "&":
                I.write(st, args[flag[0]][1], b)
            self.ev(st, "move", r, t, fr.f.loc(n), b)
            return [(st, r)]
        return super().pre_call(I, st, fr, n, nd, key, q, args, obj)


def N06(p, rep, thorough):
    rep.explanation = (
        "Term analysis of the bytes handed over: in the functions that call send and sendto, on every path of up to three "
        "calls, each call must be given the remaining text and no more, which after the first call is the previous "
        "text advanced by the previous positive result, and the count returned must be the sum of the positive results; recv "
        "must be given its whole buffer and the buffer returned must be cut to the count received. The asynchronous "
        "operations built on them must hand over the text they were given, resume with the text advanced by what was sent, "
        "and report the sum.")
    rep.assumptions += ["the operating system reports the number of bytes it accepted or delivered"]
    prepare(p, rep)
    n = n_async = 0
    senders = net_funcs(p, lambda f: calls_sys(f, {"send", "sendto"}))
    for f in senders:
        rule, I, outs = run(p, rep, f)
        nm, w = label(f), rep.where(f)
        text = [i for i, x in enumerate(f.params) if "basic_string_view" in x["t"]]
        rep.require(len(text) == 1, f"the text sent by {f.q} was not found")
        for st, kind, val in outs:
            io = [e for e in rule.evs(st, "sys") if e[1] in ("send", "sendto")]
            exact = True
            left = None
            for k, e in enumerate(io):
                view, whole = e[5][0], e[5][1]
                if any(x[1] == "join" or x[-1] == "deep" for x in symbols(view) | symbols(e[3])) if view else False:
                    exact = False
                    break
                n += 1
                rep.check("no more than the remaining text is offered", nm, whole, e[4], "the length is not bounded by the text", st.path())
                fl = e[2][3]
                if e[1] == "send":
                    rep.check("a disconnected peer raises no signal", nm, fl[0] == "c" and fl[1] & NOSIGNAL, e[4],
                              f"flags are {fl}", st.path())
                if k == 0:
                    rep.check("sending starts at the beginning", nm, view is not None and view[0] == "s" and view[1] == "param" and
                              view[2] == text[0], e[4], f"it sends {str(view)[:100]}", st.path())
                else:
                    pv, pr = io[k - 1][5][0], io[k - 1][3]
                    rep.check("sending resumes where it stopped", nm, view is not None and is_substr(view, pv, pr) and
                              st.truth(mk_lt(ZERO, pr)) is not False, e[4], f"it sends {str(view)[:140]}", st.path())
            v = st.const(val) if val is not None else None
            if exact and v is not None and not any(x[1] == "join" or x[-1] == "deep" for x in symbols(v)):
                want = []
                for e in io:
                    t = st.truth(mk_lt(ZERO, e[3]))
                    if t is True or e is not io[-1]:
                        want.append(e[3])
                n += 1
                rep.check("the count is the sum of what was accepted", nm, sorted(map(str, terms_of_sum(v))) == sorted(map(str, want)), w,
                          f"returns {str(v)[:120]}", st.path())
                if io:
                    t = st.truth(mk_lt(ZERO, io[-1][3]))
                    if t is True:
                        rest = ("op", "substr", io[-1][5][0], io[-1][3])
                        e = [k for k in st.facts if k[0] == "op" and k[1] == "empty" and st.facts[k] is True]
                        rep.check("sending stops only when done or refused", nm, any(is_substr(k[2], io[-1][5][0], io[-1][3]) for k in e), w,
                                  "stops although text remains", st.path())
                else:
                    rep.check("sending stops only when done or refused", nm,
                              any(k[0] == "op" and k[1] == "empty" and b is True for k, b in st.facts.items()), w,
                              "nothing is sent although there is text", st.path())
    recvs = net_funcs(p, lambda f: calls_sys(f, {"recv", "recvfrom"}))
    for f in recvs:
        rule, I, outs = run(p, rep, f)
        nm, w = label(f), rep.where(f)
        for st, kind, val in outs:
            io = [e for e in rule.evs(st, "sys") if e[1] in ("recv", "recvfrom")]
            if len(io) != 1:
                continue
            e = io[0]
            n += 1
            r = e[3]
            rep.check("no more is received than the buffer holds", nm, e[5][0] is not None and buffer_ok(I, st, e), e[4],
                      "the length is not that of the buffer", st.path())
            pos = st.truth(mk_lt(ZERO, r))
            v = val if val is not None else ("s", "?")
            if pos is True:
                tx = [x for x in rule.evs(st, "text") if x[2] == e[5][0]]
                rep.check("exactly what was received is returned", nm, v[0] == "op" and v[1] == "resized" and v[2] == r and
                          [x[1] for x in tx] == ["resize"], w, f"returns {str(v)[:120]}", st.path())
            else:
                rep.check("nothing is returned when nothing was received", nm, pos is False and v == ("emptyc",), w,
                          f"returns {str(v)[:120]}", st.path())
    movers = {f.key for f in senders + recvs}
    for f in net_funcs(p, lambda f: any(is_completion(q["t"]) for q in f.params) and f.access == "public" and
                       (f.record or "").split("<")[0].endswith("Socket")):
        if not any(x in f.name for x in ("send", "receive")):
            continue
        nm, w = label(f), rep.where(f)
        rule = XferRule(p)
        rule.movers = movers
        I = Interp(p, rule)
        outs = I.run_entry(f)
        text = [i for i, x in enumerate(f.params) if "basic_string_view" in x["t"]]
        text = text[-1] if text else None
        work = [(st, e, None, []) for st, kind, val in outs for e in rule.evs(st, "arm")]
        for st, kind, val in outs:
            rep.check("an asynchronous operation sends nothing by itself", nm, not rule.evs(st, "move"), w, "", st.path())
        depth = 0
        while work and depth < 3:
            depth += 1
            nxt = []
            for st, e, prev, sums in work:
                lam = lambda_of(e[3])
                got = run_closure(p, rep, rule, I, st, lam, e[2]) if lam else None
                if got is None:
                    continue
                for s2, k2, v2 in got[1]:
                    mv = rule.evs(s2, "move")
                    if not mv:
                        continue
                    m = mv[-1]
                    n += 1
                    n_async += 1
                    rep.check("one transfer per notification", nm, len(mv) == 1, m[3], f"{len(mv)} transfers", s2.path())
                    if text is not None:
                        if prev is None:
                            ok = m[2] is not None and m[2][0] == "s" and m[2][1] == "param" and m[2][2] == text
                        else:
                            ok = is_substr(m[2], prev[0], old(prev[1])) or is_substr(m[2], prev[0], prev[1])
                        rep.check("an asynchronous send offers the remaining text", nm, ok, m[3], f"offers {str(m[2])[:140]}", s2.path())
                    runs = rule.evs(s2, "run")
                    for x in runs:
                        a = x[2][0] if x[2] else None
                        if text is not None:
                            want = sorted(str(norm(t)) for t in sums + [m[1]])
                            have = sorted(str(norm(t)) for t in terms_of_sum(a)) if a is not None else None
                            rep.check("the sum is reported", nm, want == have, x[3], f"reports {str(a)[:140]}", s2.path())
                        else:
                            tx = [t for t in rule.evs(s2, "text") if t[1] in ("append", "operator+=")]
                            ok = a == m[1] or (tx and [t for t in tx if t[3] and t[3][0] == m[1]] and len(tx) == 1)
                            rep.check("the text received is reported", nm, ok, x[3], f"reports {str(a)[:140]}", s2.path())
                    if text is not None:
                        for x in rule.evs(s2, "arm"):
                            nxt.append((s2, x, (m[2], m[1]), sums + [m[1]]))
            work = nxt
        rep.absorb(I)
    rep.require(n_async >= 4, f"only {n_async} asynchronous transfers were seen")
    rep.require(n >= 12, f"only {n} transfers were seen")


def old(s):
    return s + ("old",) if s[0] == "s" and s[-1] != "old" else s


def norm(t):
    """Symbols of the same call at different times are told apart only by their age."""
    if isinstance(t, tuple):
        return tuple(norm(x) for x in t if x not in ("old", "older"))
    return t


def buffer_ok(I, st, e):
    """The length given is the size of the buffer before the call."""
    return bool(e[5][1])


# ---- N07: the service's lists --------------------------------------------------------------------------
CHANGES = ("clear", "pop_back", "pop_front", "resize", "swap", "emplace_back", "push_back", "assign", "operator=", "insert", "emplace")


def unaged(v):
    if isinstance(v, tuple):
        return tuple(unaged(x) for x in v if x not in ("old", "older"))
    return v


class PollRule(ServiceRule):
    """The polling task: what is inserted where, run, erased and posted; finite monitors only."""

    def __init__(self, p, selector):
        super().__init__(p)
        self.selector = selector
        self.problems = []
        self.ranfor = set()

    def bad(self, st, fr, n, rule, text):
        self.problems.append((rule, fr.f.loc(n), text, st.path()))

    def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
        if key == self.selector:
            for i, a in enumerate(args):
                if a[0] == "&" and i in (self.wpos, self.rpos):
                    if st.get("pend"):
                        self.bad(st, fr, n, "every request is watched", "a request's handle is not given to select")
                    st.set("given%d" % i, a[1])
            st.set("pend", None)
            for i, a in enumerate(args):
                if a[0] == "&" and i in (self.wpos, self.rpos):
                    I.write(st, a[1], I.fresh(st, fr, n, "set%d" % i))
            st.set("selected", 1)
            return [(st, ("void",))]
        r = super().pre_call(I, st, fr, n, nd, key, q, args, obj)
        if st.get("ev"):
            for e in st.get("ev"):
                if e[0] == "post":
                    st.set("posts", st.get("posts", 0) + 1)
                    self.posts.append((e, st.copy()))
                elif e[0] == "poll":
                    st.set("polls", 1)
                elif e[0] == "cont" and e[1] == "std::erase_if" and e[2]:
                    self.bad(st, fr, n, "a request that was run is removed", "other requests are removed with it")
            st.set("ev", ())
        return r

    def post_call(self, I, st, fr, n, key, q, args, obj, val):
        super().post_call(I, st, fr, n, key, q, args, obj, val)
        st.set("ev", ())

    def set_of(self, loc):
        return loc if loc is not None and root(loc)[0] in ("v", "t", "r") else None

    def on_iterate(self, I, st, fr, n, v, b):
        if b is None or v[1] not in ("begin", "it"):
            return
        if b[0] == "f" and b[1] == THIS and b[2] in self.p.request_lists:
            if not st.get("selected"):
                if st.get("pend") and st.get("pend") != (b[2], v):
                    self.bad(st, fr, n, "every request is watched", "a request's handle is not given to select")
                st.set("pend", (b[2], v))
                st.set("seen" + b[2], 1)
            return
        if st.get("selected") and b in (st.get("given%d" % self.wpos), st.get("given%d" % self.rpos)):
            if st.get("ready"):
                self.bad(st, fr, n, "every ready request is run once", "a ready handle's request is not run")
            if st.get("ran"):
                self.bad(st, fr, n, "a request that was run is removed", "it stays in the list")
            st.set("ready", b)

    def on_container(self, I, st, fr, n, obj, name, c, v):
        if name in ("insert", "emplace", "emplace_hint") and obj is not None and c.args:
            a = c.val(len(c.args) - 1)
            L = self.handle_in(a)
            if L is not None:
                st.set("pend", None)
                fed = st.get("fed") or frozenset()
                st.set("fed", fed | {(obj, L)})
        elif name == "erase" and obj is not None and obj[0] == "f" and obj[2] in self.p.request_lists:
            a = c.args[0] if c.args[0][0] == "op" else c.val(0)
            ran = st.get("ran")
            if ran is None and len(c.args) == 1 and st.get("ready") and not st.get("gone"):
                st.set("gone", (obj[2], a[3] if len(a) > 3 else None))
                return
            if ran is None or len(c.args) != 1 or ran[0] != obj[2] or (len(a) > 3 and a[3] != ran[1]):
                self.bad(st, fr, n, "a request that was run is removed", "another request is removed")
            st.set("ran", None)
            st.set("erased", 1)
        elif obj is not None and obj[0] == "f" and obj[2] in self.p.request_lists and name in CHANGES:
            self.bad(st, fr, n, "a request that was run is removed", f"other requests are changed by {name}")

    def handle_in(self, a):
        if a[0] == "s" and a[1] == "init" and a[2][0] == "f" and a[2][1][0] == "el" and a[2][1][1][0] == "f" and \
                a[2][1][1][2] in self.p.request_lists:
            return a[2][1][1][2]
        return None

    def on_invoke(self, I, st, fr, n, fval, args):
        L = self.handle_in(fval) if fval[0] == "s" else None
        if L is not None:
            if st.get("ran"):
                self.bad(st, fr, n, "a request that was run is removed", "it stays in the list")
            if not st.get("ready"):
                self.bad(st, fr, n, "every ready request is run once", "a request is run twice or without being ready")
            else:
                self.ranfor.add(("w" if st.get("ready") == st.get("given%d" % self.wpos) else "r", L, fr.f.loc(n), tuple(st.path())))
            gone = st.get("gone")
            if gone is not None:
                if gone[0] != L or gone[1] not in (None, unaged(fval[2][1][2])):
                    self.bad(st, fr, n, "a request that was run is removed", "another request is removed")
                st.set("gone", None)
                st.set("erased", 1)
            else:
                st.set("ran", (L, fval[2][1][2]))
            st.set("ready", None)
            return [(st, I.fresh(st, fr, n, "ran"))]
        return None


def N07(p, rep, thorough):
    rep.explanation = (
        "Confinement and typestate: every function that touches the request lists is shown to run only as (part of) a task "
        "posted to the service's own sequenced runner; registering posts one task that appends one request and starts "
        "polling exactly when both lists were empty; polling inserts every request's handle into the set that select is given "
        "for that event, runs each ready request once, erases it, and posts itself again exactly when a request remains. "
        "Together: while requests remain, exactly one polling task is pending.")
    prepare(p, rep)
    sel = [f for f in net_funcs(p) if calls_sys(f, {"select"}) and len(f.params) == 3]
    rep.require(len(sel) == 1, "the function calling select was not found")
    sel = sel[0]
    wpos, rpos = selector_positions(p, rep, sel)
    # Confinement.
    touch = {}
    for f in p.funcs.values():
        for i, nd in enumerate(f.nodes):
            if nd["k"] == "MemberExpr" and nd.get("m") in p.request_lists and (nd.get("mr") or nd.get("mp") or "").startswith(SERVICE):
                touch.setdefault(f.key, (f, i))
    rep.require(len(touch) >= 4, f"only {len(touch)} functions touch the request lists")
    posted = set()
    members = [f for f in net_funcs(p) if f.record == SERVICE and f.name != "<dtor>" and f.name != "poll"]
    runner = [fl["n"] for fl in p.records[SERVICE]["fields"] if "TaskRunner" in fl["t"]]
    for f in members + [f for f in net_funcs(p) if f.record == SERVICE and f.name == "poll"]:
        if f.template if hasattr(f, "template") else False:
            continue
        rule = PollRule(p, sel.key) if f.name == "poll" else ServiceRule(p)
        if f.name == "poll":
            rule.posts, rule.wpos, rule.rpos = [], wpos, rpos
        I = Interp(p, rule)
        outs = I.run_entry(f)
        rep.absorb(I)
        evs = [e for e, s in rule.posts] if f.name == "poll" else [e for st, k, v in outs for e in rule.evs(st, "post")]
        own = ("s", "init", ("f", THIS, runner[0]))
        for e in evs:
            ok = e[1] == own or e[2] == ("o", own) or (e[1] is not None and own in subs(e[1])) or (e[2] is not None and own in subs(e[2]))
            if e[3] is not None:
                if ok:
                    posted.add(e[3][1])
                rep.check("tasks go to the service's own runner", label(f), ok, e[4], f"posted to {str(e[2])[:80]}", ())
                weak = [a for a in e[5] if a[0] == "weak" and a[1] == ("&", THIS)]
                rep.check("tasks hold the service weakly", label(f), bool(weak), e[4], "the owner of the task is not the service", ())
        if f.name == "poll":
            poll_report(p, rep, f, rule, I, outs)
    callers = {}
    for f in p.funcs.values():
        for i, nd in f.calls():
            if nd.get("f") in p.funcs:
                callers.setdefault(nd["f"], []).append((f, i))
    ok_funcs = set()

    def confined(key, seen):
        f = p.funcs[key]
        if f.name in ("<ctor>", "<dtor>") or f.name == "operator=":
            return None
        if f.is_lambda:
            rec = f.record
            if rec in posted:
                return None
            par = f.parent
            if par in p.funcs and par not in seen:
                return confined(par, seen | {key})
            q = [g for g in p.funcs.values() if rec and rec.startswith(g.key) and g.key in p.funcs and "lambda@" not in rec[len(g.key) + 2:].split("lambda@", 1)[-1]]
            for g in sorted(q, key=lambda g: -len(g.key))[:1]:
                if g.key not in seen:
                    return confined(g.key, seen | {key})
            return f"{rec or f.q} is not posted to the runner"
        cs = callers.get(key, [])
        if f.access != "private" and f.access is not None:
            return f"{f.q} can be called from any thread"
        if not cs:
            return f"{f.q} has no caller on the runner"
        for g, i in cs:
            if g.key in seen or g.key == key:
                continue
            r = confined(g.key, seen | {key})
            if r:
                return r
        return None
    for key, (f, i) in sorted(touch.items()):
        if f.record and f.record.startswith(SERVICE + "::Request"):
            continue
        why = confined(key, frozenset())
        rep.check("the request lists are used only on the service's runner", f.q.replace("fly::net::", ""), why is None, f.loc(i),
                  why or "", ())
    # Registration.
    fed = p.poll_fed
    for kind in sorted(set(p.service_kind.values())):
        want = fed.get("w" if "writ" in kind else "r")
        fs = [f for f in net_funcs(p) if f.record == SERVICE and f.name == kind and p.service_kind.get(f.key)]
        for f, st, posts, rule, I in service_tasks(p, rep, fs):
            rep.check("registering posts one task", kind, len(posts) == 1, rep.where(f), f"{len(posts)} tasks", st.path())
            for g, s2, ev in run_posted(p, rep, posts, rule, I, st):
                add = [e for e in ev if e[0] == "cont"]
                polls = [e for e in ev if e[0] == "poll"]
                ok = len(add) == 1 and add[0][1] in ("emplace_back", "push_back", "emplace", "insert") and add[0][2] == want
                rep.check("a request joins the list of its event", kind, ok, rep.where(f),
                          f"{[(e[1], e[2]) for e in add]}", s2.path())
                if len(add) == 1 and add[0][4]:
                    flat = [t for a in add[0][4] for t in subs(a)]
                    rep.check("a request holds its handle and callback", kind, any(t[:3] == ("s", "param", 0) for t in flat) and
                              ("s", "init", ("r", "param", 1)) in flat, rep.where(f), f"{str(add[0][4])[:140]}", s2.path())
                em = [s2.truth(("op", "empty", ("s", "init", ("f", THIS, v)))) for v in p.request_lists]
                rep.check("polling starts when the first request arrives", kind, bool(polls) or False in em, rep.where(f),
                          "both lists were empty and polling is not started", s2.path())
                rep.check("one polling task at a time", kind, not polls or em == [True, True], rep.where(f),
                          "polling is started although it is running", s2.path())


def selector_positions(p, rep, f):
    """Which parameter of the wrapper is watched for writing and which for reading."""
    class Sel(NetRule):
        def on_iterate(self, I, st, fr, n, v, b):
            if b is not None and v[1] in ("begin", "it") and b[0] == "r" and b[1] == "param" and not st.get("done"):
                if st.get("pend") is not None:
                    self.missing.append(fr.f.loc(n))
                st.set("pend", b[2])

        def on_write(self, I, st, fr, n, loc, val):
            b = loc
            while b[0] in ("f", "el"):
                b = b[1]
            if b != loc and b[0] == "v" and st.get("pend") is not None:
                st.set("into", (st.get("into") or frozenset()) | {(b, st.get("pend"))})
                st.set("pend", None)

        def pre_call(self, I, st, fr, n, nd, key, q, args, obj):
            if q == "select" and syscall(q, key, self.p):
                if st.get("pend") is not None:
                    self.missing.append(fr.f.loc(n))
                st.set("pend", None)
                st.set("done", 1)
                self.seen.append((tuple(args), st.get("into") or frozenset(), fr.f.loc(n), st.path()))
            if q == "std::erase_if" and args[0][0] == "&":
                pass
            return super().pre_call(I, st, fr, n, nd, key, q, args, obj)

        def post_call(self, I, st, fr, n, key, q, args, obj, val):
            if q == "std::erase_if" and args and args[0][0] == "&":
                st.set("cut", (st.get("cut") or frozenset()) | {(args[0][1], tuple(x for x in subs(content(I, st, args[1])) if x[0] == "&"))})
            NetRule.post_call(self, I, st, fr, n, key, q, args, obj, val)
            st.set("ev", ())

        def on_container(self, I, st, fr, n, obj, name, c, v):
            if name == "clear" and obj is not None:
                st.set("cleared", (st.get("cleared") or frozenset()) | {obj})
    rule = Sel(p)
    rule.missing, rule.seen = [], []
    I = Interp(p, rule)
    outs = I.run_entry(f)
    rep.absorb(I)
    rep.check("every handle given is watched", "select", not rule.missing, rep.where(f), f"skipped at {rule.missing[:2]}", ())
    into = set()
    for args, m, loc, path in rule.seen:
        into |= m
    w = r = None
    for args, m, loc, path in rule.seen:
        rd, wr = args[1], args[2]
        for b, i in into:
            if rd == ("&", b):
                rep.check("a handle is watched for one event", "select", r in (None, i), loc, "two sources feed the read set", path)
                r = i
            if wr == ("&", b):
                rep.check("a handle is watched for one event", "select", w in (None, i), loc, "two sources feed the write set", path)
                w = i
    rep.require(w is not None and r is not None and w != r, f"the handle sets of select were not identified: {w} {r} {into}")
    for st, kind, val in outs:
        if kind != "ret":
            continue
        cut = {x[0][2] for x in (st.get("cut") or ()) if x[0][0] == "r"}
        gone = {x[2] for x in (st.get("cleared") or ()) if x[0] == "r"}
        rep.check("handles that are not ready are taken out", "select", {w, r} <= cut | gone, rep.where(f),
                  f"parameters cut: {sorted(cut)}, cleared: {sorted(gone)}", st.path())
        for x in st.get("cut") or ():
            sets = {y[1] for y in x[1]} & {b for b, i in into}
            src = {i for b, i in into if b in sets}
            rep.check("readiness is read from the set of its event", "select", not sets or src == {x[0][2]}, rep.where(f),
                      f"parameter {x[0][2]} is filtered by the set of {src}", st.path())
    return w, r


def poll_report(p, rep, f, rule, I, outs):
    w = rep.where(f)
    names = ("every request is watched", "every ready request is run once", "a request that was run is removed")
    for nm in names:
        bad = [x for x in rule.problems if x[0] == nm]
        rep.check(nm, "poll", not bad, bad[0][1] if bad else w, bad[0][2] if bad else "", bad[0][3] if bad else ())
    fedw, fedr = set(), set()
    ran = 0
    for st, kind, val in outs:
        if kind != "ret":
            continue
        if st.get("ready"):
            rep.bad("every ready request is run once", "poll (end)", w, "a ready handle's request is not run", st.path())
        if st.get("ran"):
            rep.bad("a request that was run is removed", "poll (end)", w, "it stays in the list", st.path())
        rep.check("every poll asks the system", "poll", bool(st.get("selected")), w, "select is not called", st.path())
        g = {st.get("given%d" % rule.wpos): fedw, st.get("given%d" % rule.rpos): fedr}
        for s, L in st.get("fed") or ():
            if s in g:
                g[s].add(L)
            else:
                rep.bad("every request is watched", "poll (set)", w, "a set that select is not given", st.path())
        ran += 1 if st.get("erased") else 0
        left = []
        for v in p.request_lists:
            left.append(st.truth(mk_empty(I.freeze(st, ("f", THIS, v)))))
        posts = st.get("posts", 0)
        rep.check("polling goes on while requests remain", "poll", posts >= 1 or left == [True, True], w,
                  "requests may remain and no further poll is posted", st.path())
        rep.check("one polling task at a time", "poll", posts <= 1 and not (posts and left == [True, True]), w,
                  f"{posts} polls are posted", st.path())
    rep.check("each list is watched for one event", "poll", len(fedw) == 1 and len(fedr) == 1 and fedw != fedr, w,
              f"write set from {sorted(fedw)}, read set from {sorted(fedr)}", ())
    rep.require(ran >= 1, "no path of poll runs a request")
    p.poll_fed = {"w": min(fedw) if fedw else None, "r": min(fedr) if fedr else None}
    for kind, L, loc, path in rule.ranfor:
        rep.check("requests are run for their own event", L, p.poll_fed[kind] == L, loc,
                  f"a request of {L} is run for the event of {p.poll_fed[kind]}", path)
    for e, st in rule.posts[:1]:
        lam = e[3]
        for g, s2, ev in run_posted(p, rep, [e], ServiceRule(p), Interp(p, ServiceRule(p)), clear_mon(st)):
            rep.check("the task posted polls again", "poll", len([x for x in ev if x[0] == "poll"]) == 1, e[4], "it does not", s2.path())


def clear_mon(st):
    st = st.copy()
    for k in list(st.mon):
        st.set(k, None)
    return st


RULES = {"N01": N01, "N02": N02, "N03": N03, "N04": N04, "N05": N05, "N06": N06, "N07": N07}
