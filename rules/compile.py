"""Compile-time witnesses: which programs compile, decided by the compiler's type checker alone (F01, F02)."""
import itertools
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from engine.load import REPO
from rules.common import *  # noqa

CLANG = ["clang++", "-std=c++20", "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics",
         "-fconstexpr-backtrace-limit=1", "-ftemplate-backtrace-limit=0", "-fconstexpr-steps=100000000", "-fbracket-depth=4096"]
GCC = ["g++", "-std=c++20", "-fsyntax-only", "-w", "-fmax-errors=0", "-fdiagnostics-color=never", "-fno-diagnostics-show-caret",
       "-ftemplate-backtrace-limit=0"]


class Case:
    __slots__ = ("group", "code", "ok", "why", "decl")

    def __init__(self, group, code, ok, why="", decl=False):
        self.group, self.code, self.ok, self.why, self.decl = group, code, ok, why, decl


def compile_lines(command, head, lines, decl):
    """Which of the lines have an error: {line index: first message}. None under -1 if an error belongs to no line."""
    with tempfile.TemporaryDirectory(prefix="witness") as d:
        src = os.path.join(d, "witness.cpp")
        text = head + ([] if decl else ["void witnesses() {"])
        base = len(text) + 1
        with open(src, "w", encoding="utf-8") as out:
            out.write("\n".join(text + lines + ([] if decl else ["}"])) + "\n")
        r = subprocess.run(command + ["-I" + REPO, src], capture_output=True, text=True, errors="replace", timeout=850)
    bad, cur, block = {}, None, []

    def done():
        if cur is None:
            return
        at = [int(m) for m in re.findall(r"witness\.cpp:(\d+):", "\n".join(block))]
        at = [x - base for x in at if 0 <= x - base < len(lines)]
        for x in (at or [-1]):
            bad.setdefault(x, cur)

    # gcc names the instantiations before the error, clang the notes after it.
    pre = []
    for line in r.stderr.splitlines():
        m = re.search(r"(?:error|fatal error): (.*)", line)
        if m:
            done()
            cur, block = m.group(1), pre + [line]
            pre = []
        elif command[0] == "g++" and re.search(r": (In |  required|required)|recursively required|In (static )?member|In function|in .constexpr. expansion", line):
            pre.append(line)
            if cur is not None and "expansion" in line:
                block.append(line)
        elif cur is not None:
            block.append(line)
    done()
    if r.returncode not in (0, 1):
        raise AnalysisBroken("the compiler failed: " + r.stderr[-300:])
    if r.returncode == 1 and not bad:
        raise AnalysisBroken("the compiler failed without a diagnostic: " + r.stderr[-300:])
    return bad


def decide(rep, rule, where, head, cases, command=CLANG, shard=700):
    """Every case compiles or does not, as said: cases are compiled one per line."""
    # The headers themselves have to compile: otherwise nothing is learned from a line that does not.
    b = compile_lines(command, head, [";"], False)
    if b:
        raise AnalysisBroken("the headers do not compile: " + str(list(b.values())[0])[:200])
    work = []
    for decl in (False, True):
        for ok in (True, False):
            cs = [c for c in cases if c.decl == decl and c.ok == ok]
            n = max(1, min(8, (len(cs) + shard - 1) // shard)) if len(cs) < 8 * shard else (len(cs) + shard - 1) // shard
            for i in range(n):
                part = cs[i::n]
                if part:
                    work.append((decl, part))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        results = list(ex.map(lambda w: compile_lines(command, head, [c.code for c in w[1]], w[0]), work))
    wrong = {}
    for (decl, part), bad in zip(work, results):
        for i, c in enumerate(part):
            if (i not in bad) != c.ok:
                wrong.setdefault(c.group, []).append((c, bad.get(i, "")))
        if -1 in bad and all(c.ok for c in part):
            wrong.setdefault(part[0].group, []).append((part[0], bad[-1]))
    groups = {}
    for c in cases:
        groups[c.group] = groups.get(c.group, 0) + 1
    for g, n in sorted(groups.items()):
        ws = wrong.get(g, [])
        rep.count("programs " + ("with g++" if command is GCC else "with clang++"), n)
        text = "; ".join(f"`{c.code.strip()}` " + (f"does not compile ({m[:90]})" if c.ok else f"compiles, although {c.why}") for c, m in ws[:3])
        rep.check(rule, g + (" (g++)" if command is GCC else ""), not ws, where, (f"{len(ws)} of {n}: " if ws else "") + text)


# ---------------------------------------------------------------------------------------------------------------- format strings

KINDS = {  # argument types: C++ type -> what the documentation calls it
    "int": "Integral", "unsigned long": "Integral", "short const &": "Integral", "signed char": "Integral",
    "char": "Character", "char32_t": "Character",
    "std::string": "String", "char const *": "String", "std::u16string_view": "String",
    "void *": "Pointer", "std::nullptr_t": "Pointer", "int const *": "Pointer",
    "double": "FloatingPoint", "float": "FloatingPoint", "long double": "FloatingPoint",
    "bool": "Boolean", "Plain": "User", "Parsing": "Parsing", "Derived": "Derived"}
SHORT = ["int", "char", "std::string", "void *", "double", "bool"]
TYPES = {"c": "Character", "s": "String", "p": "Pointer", "b": "Binary", "B": "Binary", "o": "Octal", "d": "Decimal", "x": "Hex",
         "X": "Hex", "a": "HexFloat", "A": "HexFloat", "e": "Scientific", "E": "Scientific", "f": "Fixed", "F": "Fixed",
         "g": "General", "G": "General"}
ALLOWED = {"Character": "cbBodxX", "String": "s", "Pointer": "p", "Integral": "cbBodxX", "FloatingPoint": "aAeEfFgG", "Boolean": "csbBodxX"}
DEFAULT = {"Character": "c", "String": "s", "Pointer": "p", "Integral": "d", "FloatingPoint": "g", "Boolean": "s"}
NUMERIC = set("bBodxXaAeEfFgG")


class Wrong(Exception):
    pass


class Grammar:
    """The documented syntax of format strings, read from the documentation of BasicFormatSpecifier and format()."""

    def __init__(self, text, kinds):
        self.s, self.i, self.kinds = text, 0, kinds
        self.auto, self.mode, self.fields = 0, None, 0

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else ""

    def take(self, c):
        if self.peek() == c and c:
            self.i += 1
            return True
        return False

    def number(self):
        j = self.i
        while self.peek() and self.peek() in "0123456789":
            self.i += 1
        return int(self.s[j:self.i]) if self.i > j else None

    def position(self):
        n = self.number()
        mode = "auto" if n is None else "manual"
        if self.mode not in (None, mode):
            raise Wrong("positions are given to some fields only")
        self.mode = mode
        if n is None:
            n, self.auto = self.auto, self.auto + 1
        if n >= len(self.kinds):
            raise Wrong("there is no such argument")
        return self.kinds[n]

    def parse(self):
        while self.i < len(self.s):
            if self.take("{"):
                if self.take("{"):
                    continue
                self.field()
            elif self.take("}"):
                if not self.take("}"):
                    raise Wrong("a closing brace is not escaped")
            else:
                self.i += 1

    def field(self):
        self.fields += 1
        kind = self.position()
        if self.take("}"):
            return
        if not self.take(":"):
            raise Wrong("a replacement field is not closed")
        if kind == "User":
            if not self.take("}"):
                raise Wrong("a type without a parser has no options")
            return
        if kind == "Parsing":  # parses an optional 'o' and the closing brace
            self.take("o")
            if not self.take("}"):
                raise Wrong("the type's parser refuses the options")
            return
        self.options(kind)

    def nested(self):
        k = self.position()
        if not self.take("}"):
            raise Wrong("a nested replacement field is not closed")
        if k != "Integral":
            raise Wrong("a width or precision is not integral")

    def options(self, kind):
        aligned = False
        if self.peek(1) and self.peek(1) in "<>^":
            if self.peek() in "{}":
                raise Wrong("a brace is used to fill")
            if ord(self.peek()) >= 0x80:
                raise Wrong("a character outside ASCII is used to fill")
            self.i += 1
        if self.peek() and self.peek() in "<>^":
            self.i += 1
            aligned = True
        sign = bool(self.peek()) and self.peek() in "+- "
        self.i += sign
        alternate = self.take("#")
        zero = self.take("0") and not aligned
        width = self.number()
        if width == 0:
            raise Wrong("the width is zero")
        if width is None and self.take("{"):
            self.nested()
        precision = self.take(".")
        if precision and self.number() is None:
            if not self.take("{"):
                raise Wrong("the precision is missing")
            self.nested()
        locale = self.take("L")
        kind_of = "FloatingPoint" if kind == "DerivedFloat" else "Integral" if kind == "Derived" else kind
        t = DEFAULT[kind_of]
        if self.peek() and self.peek() in TYPES:
            t = self.peek()
            self.i += 1
        if sign and t not in NUMERIC:
            raise Wrong("a sign is given to a presentation that is not numeric")
        if alternate and (t not in NUMERIC or t == "d"):
            raise Wrong("the alternate form is given to a presentation without one")
        if zero and t not in NUMERIC:
            raise Wrong("zero-padding is given to a presentation that is not numeric")
        if precision and kind_of not in ("String", "FloatingPoint"):
            raise Wrong("a precision is given to a type without one")
        if locale and kind_of not in ("Integral", "FloatingPoint", "Boolean"):
            raise Wrong("the locale-specific form is given to a type without one")
        if t not in ALLOWED[kind_of]:
            raise Wrong("the presentation type is not one of the argument type's")
        if not self.take("}"):
            raise Wrong("a replacement field is not closed")


def quoted(s, prefix=""):
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\?' or o < 32 or 127 <= o < 256:
            out.append(f"\\{o:03o}")
        elif o > 255:
            out.append(f"\\u{o:04x}")
        else:
            out.append(c)
    return prefix + '"' + "".join(out) + '"'


def verdict(text, args):
    g = Grammar(text, [KINDS[a] for a in args])
    try:
        g.parse()
    except Wrong as e:
        return False, str(e)
    return True, ""


CHARS = {"": "char", "L": "wchar_t", "u8": "char8_t", "u": "char16_t", "U": "char32_t"}


def witness(group, text, args, prefix=""):
    ok, why = verdict(text, args)
    types = "".join(", " + a for a in args)
    return Case(group, f"(void)fly::string::FormatString<{CHARS[prefix]}{types}>({quoted(text, prefix)});", ok, why)


FORMAT_HEAD = '''#include "fly/types/string/format.hpp"
#include "fly/types/string/string.hpp"
#include "fly/logger/logger.hpp"
#include <cstddef>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
struct Plain {};
struct Parsing {};
struct Derived {};
struct Unknown {};
template <typename CharType> struct fly::string::Formatter<Plain, CharType>
{ template <typename FormatContext> void format(Plain const &, FormatContext &) { } };
template <typename CharType> struct fly::string::Formatter<Parsing, CharType>
{
    template <typename FormatParseContext> constexpr void parse(FormatParseContext &context)
    {
        context.lexer().consume_if(FLY_CHR(CharType, 'o'));
        if (!context.lexer().consume_if(FLY_CHR(CharType, '}'))) { context.on_error("unclosed"); }
    }
    template <typename FormatContext> void format(Parsing const &, FormatContext &) { }
};
template <typename CharType> struct fly::string::Formatter<Derived, CharType> : public fly::string::Formatter<int, CharType>
{ template <typename FormatContext> void format(Derived const &, FormatContext &context) { fly::string::Formatter<int, CharType>::format(1, context); } };
extern char const *runtime_pointer;
extern char runtime_array[4];
extern std::string runtime_string;
extern std::shared_ptr<fly::logger::Logger> logger;
extern std::string out;'''.split("\n")


def option_cases(thorough):
    dims = {
        "fill": ["", "<", ">", "^", "*<", "0>", "{<", "}^", "\u00e9<", "<<"],
        "sign": ["", "+", "-", " "],
        "alt": ["", "#"],
        "zero": ["", "0"],
        "width": ["", "1", "25", "00", "{}", "{0}", "{2}", "{3}", "{", "{:}", "{x}"],
        "precision": ["", ".0", ".7", ".", ".-1", ".{}", ".{4}", ".{", ".x"],
        "locale": ["", "L"],
        "type": [""] + sorted(TYPES) + ["q", "C", "S", "D", "%", "cc"],
    }
    names = list(dims)
    seen = set()
    size = 3 if thorough else 2
    for combo in itertools.combinations(names, size):
        for values in itertools.product(*(dims[n] for n in combo)):
            at = dict(zip(combo, values))
            seen.add(tuple(at.get(n, "") for n in names))
    out = []
    for a in SHORT:
        for v in sorted(seen):
            out.append(witness("options of a replacement field: " + KINDS[a], "{:" + "".join(v) + "}", (a, "int", "double", "bool")))
    pairs = [v for v in sorted(seen) if sum(1 for x in v if x) <= (2 if thorough else 1)]
    for a in KINDS:
        if a not in SHORT:
            for v in pairs:
                out.append(witness("options of a replacement field: further types", "{:" + "".join(v) + "}", (a, "int", "char", "unsigned long")))
    # Explicit positions, and options of the width and precision taken from arguments of each type.
    for a in KINDS:
        for w in KINDS:
            out.append(witness("nested replacement fields", "{:{}}", (a, w)))
            out.append(witness("nested replacement fields", "{1:{0}}", (w, a)))
            out.append(witness("nested replacement fields", "{:.{}}", (a, w)))
            out.append(witness("nested replacement fields", "{1:7.{0}}", (w, a)))
    return out


def character_cases():
    out = []
    for a in KINDS:
        for o in range(1, 128):
            out.append(witness("presentation types: every ASCII character", "{:" + chr(o) + "}", (a,)))
    for o in list(range(1, 256)) + [0x20ac]:
        for p in CHARS:
            if o == 0x20ac and p in ("", "u8"):
                continue
            out.append(witness("fill characters: every ASCII character", "{:" + chr(o) + ">4}", ("int",), p))
    return out


def structure_cases(thorough):
    out = []
    n = 6 if thorough else 5
    for k in range(0, n + 1):
        for t in itertools.product("{}:01a", repeat=k):
            s = "".join(t)
            if k == n and s.count("{") == 0 and s.count("}") == 0:
                continue
            out.append(witness("braces, positions and text: every string", s, ("int", "double")))
    for s in ("{", "}", "{{", "}}", "{}", "{}}", "{{}", "{{}}", "{{{}}}", "{0}{0}", "{0}{}", "{}{0}", "{:d}{1}", "{1}{0}", "{2}", "{:{}}{}",
              "{0:{1}}", "{0:{}}", "{:{1}}", "{ }", "{-1}", "{0 }", "{:}", "{0:}", "{0:d}", "{:d", "{0", "{:", "{0:", "{:d}}", "{:d}}}",
              "{00}", "{01}", "{18446744073709551616}", "{18446744073709551617}", "{36893488147419103232}", "{340282366920938463463374607431768211456}"):
        for args in ((), ("int",), ("int", "int"), ("double", "int")):
            for p in CHARS:
                out.append(witness("braces, positions and text: every character type", s, args, p))
    for n in (0, 1, 2, 10, 11, 63, 64):
        out.append(witness("number of replacement fields", "{}" * n, ("int",) * n))
        out.append(witness("number of replacement fields", "{} " * (n + 1), ("int",) * n))
        out.append(witness("number of replacement fields", "{%d}" % n, ("int",) * n))
        out.append(witness("number of replacement fields", "{%d:d}" % max(n - 1, 0), ("int",) * n))
    return out


def use_cases():
    """Through the functions a user calls: what is refused is refused there as well."""
    out = []
    good = [('"{} {:x} {:s}"', "1, 2u, true"), ('"text"', ""), ('"{1:>{0}}"', "4, out"), ('"{:.3f}"', "1.5"), ('"{:s}"', '"abc"'), ('"{:p}"', "&out"), ('"{}"', "nullptr")]
    bad = [('"{:d}"', "out", "a string has no decimal presentation"), ('"{} {}"', "1", "there is no such argument"), ('"{"', "1", "a field is not closed"),
           ('"{:.3}"', "1", "an integer has no precision"), ('"}"', "", "a closing brace is not escaped"), ('"{0} {}"', "1, 2", "positions are mixed"),
           ("runtime_pointer", "1", "the format string is not a literal"), ("runtime_array", "1", "the format string is not a constant"),
           ("runtime_string", "1", "the format string is not a literal"), ("runtime_string.c_str()", "1", "the format string is not a literal")]
    calls = [("format", "(void)fly::string::format(%s%s);"), ("format_to", "fly::string::format_to(std::back_inserter(out), %s%s);")]
    for m in ("debug", "info", "warn", "error"):
        calls.append(("Logger::" + m, f"logger->{m}(%s%s);"))
        calls.append(("Logger::" + m + " with a trace", f"logger->{m}({{__FILE__, __func__, 1}}, %s%s);"))
    for m in ("LOGD", "LOGI", "LOGW", "LOGE"):
        calls.append((m, m + "(%s%s);"))
    for name, call in calls:
        for f, a in good:
            out.append(Case("calls of " + name, call % (f, ", " + a if a else ""), True))
        for f, a, why in bad:
            out.append(Case("calls of " + name, call % (f, ", " + a if a else ""), False, why))
    for p in CHARS:
        if p:
            out.append(Case("calls of format", f'(void)fly::string::format({p}"{{:d}}", 1);', True))
            out.append(Case("calls of format", f'(void)fly::string::format({p}"{{:s}}", 1);', False, "an integer has no string presentation"))
    out.append(Case("arguments that cannot be formatted", '(void)fly::string::format("{}", Unknown());', False, "the argument cannot be formatted"))
    out.append(Case("arguments that cannot be formatted", '(void)fly::string::format("{}", Plain());', True))
    out.append(Case("arguments that cannot be formatted", '(void)fly::string::format("{:o}", Parsing());', True))
    out.append(Case("arguments that cannot be formatted", '(void)fly::string::format("{:#x}", Derived());', True))
    return out


def F01(p, rep, thorough):
    rep.explanation = (
        "Compile-fail witnesses: programs with one format string each, enumerated from the documented syntax (every combination of options by "
        "pairs, or by triples when thorough, for every kind of argument; every ASCII character as presentation type and fill; every string "
        "of braces, colons, digits and text up to a length; nested fields over all pairs of argument types; the calling functions and macros), "
        "are given to the compiler's type checker, which has to accept those that follow the documentation and refuse the others. Nothing is run.")
    ctor = next((f for f in p.funcs.values() if f.q.endswith("BasicFormatString::<ctor>") and f.params), None)
    where = rep.where(ctor) if ctor else REPO + "/fly/types/string/detail/format_string.hpp"
    for f in p.funcs.values():
        if re.search(r"BasicFormat(String|Specifier|ParseContext)$", short_record(f)):
            rep.functions.add(f.key)
    cases = option_cases(thorough) + character_cases() + structure_cases(thorough) + use_cases()
    decide(rep, "a format string compiles exactly if it is valid", where, FORMAT_HEAD, cases)
    # The compiler the library is built with agrees, on a part of them.
    sample = structure_cases(False)
    part = [c for i, c in enumerate(sample) if i % (5 if thorough else 23) == 0] + use_cases()
    part += [c for i, c in enumerate(option_cases(False)) if i % (11 if thorough else 61) == 0]
    decide(rep, "a format string compiles exactly if it is valid", where, FORMAT_HEAD, part, GCC, 120)
    rep.require(len(cases) > 10000, "too few programs were enumerated")


def short_record(f):
    return re.sub(r"<.*", "", f.record or "")


# --------------------------------------------------------------------------------------------------------------- integer literals

SUFFIXES = {"_i8": ("std::int8_t", 8, True), "_i16": ("std::int16_t", 16, True), "_i32": ("std::int32_t", 32, True), "_i64": ("std::int64_t", 64, True),
            "_u8": ("std::uint8_t", 8, False), "_u16": ("std::uint16_t", 16, False), "_u32": ("std::uint32_t", 32, False),
            "_u64": ("std::uint64_t", 64, False), "_zu": ("std::size_t", 64, False)}


def spell(v):
    yield "decimal", str(v)
    yield "hexadecimal", f"0x{v:x}"
    yield "hexadecimal", f"0X{v:X}"
    yield "binary", f"0b{v:b}"
    yield "octal", f"0{v:o}"


def separated(t):
    head = 2 if t[:2].lower() in ("0x", "0b") else 0
    body = t[head:]
    return t[:head] + "'".join(body[max(0, i - 3):i] for i in range(len(body) % 3 or 3, len(body) + 3, 3) if body[max(0, i - 3):i]) if len(body) > 3 else None


def literal_cases(thorough):
    out = []
    for suf, (t, w, s) in SUFFIXES.items():
        top = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        values = set(range(0, 20)) | {10 ** k for k in range(0, 24)}
        for k in range(1, 70 if thorough else 67):
            if thorough or k in (w - 1, w, w + 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 66):
                values |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        values |= {top - 1, top, top + 1, top + 2, 2 * top, 2 * top + 3, (1 << 64) + top, (1 << 64) + 1, (1 << 128), (1 << 128) + 5, (1 << 65) + 7}
        if w == 8:
            values |= set(range(0, 520))
        for v in sorted(values):
            ok = v <= top
            for base, text in spell(v):
                g = f"{suf}: {base} literals"
                for x in (text, separated(text)):
                    if x is None or (x != text and not thorough and v % 3):
                        continue
                    c = f"static_assert({x}{suf} == {v % (1 << 64)}ull && std::is_same_v<decltype({x}{suf}), {t}>);"
                    if ok:
                        out.append(Case(g, c, True, "", True))
                    else:
                        out.append(Case(g, f"constexpr auto v{len(out)} = {x}{suf};", False, "its value does not fit", True))
        for bad in ("1.5", "1.", ".5", "1e3", "1E3", "1e", "0x1p3", "0x1.8p0", "1e-1"):
            out.append(Case(f"{suf}: not integers", f"constexpr auto v{len(out)} = {bad}{suf};", False, "it is not an integer", True))
        for bad in ("08", "09", "018", "0b2", "0b12", "0b10a", "12a", "0xg", "0x"):
            out.append(Case(f"{suf}: digits outside the base", f"constexpr auto v{len(out)} = {bad}{suf};", False, "a digit is not of its base", True))
        out.append(Case(f"{suf}: constants only", f"constexpr {t} v{len(out)} = 1{suf}; static_assert(v{len(out)} == 1);", True, "", True))
    return out


LITERAL_HEAD = '''#include "fly/types/numeric/literals.hpp"
#include <cstddef>
#include <cstdint>
#include <type_traits>
using namespace fly::literals::numeric_literals;'''.split("\n")


def F02(p, rep, thorough):
    rep.explanation = (
        "Compile-fail witnesses: literals in every base with every suffix - all around the limits of every type, at the powers of two and of ten, beyond "
        "the largest integer type, with separators, of the wrong form - are given to the compiler's type checker, which has to refuse those that do "
        "not fit or are not integers, and to evaluate the others to exactly their value and type. Nothing is run.")
    where = REPO + "/fly/types/numeric/detail/literal_parser.hpp"
    cases = literal_cases(thorough)
    decide(rep, "a literal compiles exactly if its value fits", where, LITERAL_HEAD, cases)
    part = [c for i, c in enumerate(cases) if i % (3 if thorough else 9) == 0]
    decide(rep, "a literal compiles exactly if its value fits", where, LITERAL_HEAD, part, GCC, 150)
    for f in p.funcs.values():
        if f.file.endswith("literal_parser.hpp") or f.file.endswith("numeric/literals.hpp"):
            rep.functions.add(f.key)
    rep.require(len(cases) > 3000, "too few literals were enumerated")


RULES = {"F01": F01, "F02": F02}
