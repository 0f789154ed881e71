"""Shared pieces of the rules."""
from engine.interp import (Interp, Rule, State, Limit, ZERO, ONE, mk_eq, mk_lt, neg, to_bool, symbols, root, strip_type,  # noqa
                           short_q, is_const, subterms)
from engine.models import mk_empty  # noqa
from engine.load import AnalysisBroken  # noqa
from engine.report import rel  # noqa

THIS = ("r", "this")


class Trace(Rule):
    """Collects an ordered, bounded list of events per path."""
    LIMIT = 48

    def ev(self, st, *x):
        t = st.get("ev", ())
        if len(t) < self.LIMIT:
            st.set("ev", t + (x,))

    def evs(self, st, *kinds):
        return [e for e in st.get("ev", ()) if not kinds or e[0] in kinds]


def content(I, st, v):
    """The value an argument carries: read through a reference."""
    return I.freeze(st, v[1]) if v is not None and v[0] == "&" else v


def unwrap(v):
    """Strips conversions that keep the callable (std::function made from a lambda)."""
    while v is not None and v[0] == "op" and v[1] == "make" and len(v) >= 4:
        v = v[-1]
    return v


def param_locs(f):
    """The default locations/values of a function's parameters, as run_entry makes them."""
    out = []
    for i, p in enumerate(f.params):
        out.append(("r", "param", i) if p["t"].endswith("&") else None)
    return out


def fields_of(p, record, pred, bases=True):
    """(record, field) of a class and its bases whose field satisfies pred(field)."""
    out = []
    rec = p.records.get(record)
    if rec is None:
        return out
    for fl in rec.get("fields", []):
        if pred(fl):
            out.append((record, fl["n"]))
    if bases:
        for b in rec.get("bases", []):
            bn = b["n"] if isinstance(b, dict) else b
            out += fields_of(p, bn, pred)
    return out


def overrides_of(p, base, derived):
    """The methods of `derived` (functions with a body) that override a virtual of `base`."""
    out = []
    for f in p.funcs.values():
        if f.record == derived:
            for o in p.decls.get(f.key, {}).get("overrides", []):
                d = p.decls.get(o, {})
                if d.get("record") == base:
                    out.append((o, f))
    return out


def is_mutex(t):
    return strip_type(t) in ("std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex",
                             "std::shared_timed_mutex", "std::recursive_timed_mutex")


def arrow(*xs):
    return " -> ".join(str(x) for x in xs)
