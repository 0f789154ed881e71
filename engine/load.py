"""Runs the extractor over /repo's current source with the flags of the real build and loads the
result. The dump is cached under /verif/build, keyed by the content of every input."""
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from .program import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
RESOURCE = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis cannot decide: an anchor is gone or the program could not be read."""


def source_list():
    """The library's sources and flags, from the project's own files.mk (make -n)."""
    mk = """
SOURCE_ROOT := %s
SYSTEM := LINUX
ADD_REL_LIB :=
ADD_REL_INC :=
define VISIT
d := $(strip $(1))
SRC_DIRS_$$(d) :=
SRC_$$(d) :=
CXXFLAGS_$$(d) := $(2)
LDFLAGS_$$(d) :=
include $(strip $(1))/files.mk
$$(foreach s,$$(SRC_$(strip $(1))),$$(info SRC $$(s) FLAGS $$(CXXFLAGS_$(strip $(1)))))
$$(foreach s,$$(SRC_DIRS_$(strip $(1))),$$(eval $$(call VISIT,$$(s),$$(CXXFLAGS_$(strip $(1))))))
endef
$(eval $(call VISIT,$(SOURCE_ROOT)/fly,))
all: ;
""" % REPO
    r = subprocess.run(["make", "-f", "-", "-s", "--no-builtin-rules", "all"], input=mk, text=True,
                       capture_output=True, cwd="/")
    if r.returncode != 0:
        raise AnalysisBroken("files.mk could not be read: " + r.stderr[-500:])
    out = []
    for line in r.stdout.splitlines():
        m = re.match(r"SRC (\S+) FLAGS ?(.*)$", line)
        if m:
            out.append((os.path.abspath(m.group(1)), m.group(2).split()))
    if len(out) < 35:
        raise AnalysisBroken(f"only {len(out)} library sources found")
    return out


def all_inputs():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "fly")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".cpp", ".h", ".mk")):
                out.append(os.path.join(root, f))
    for root in (os.path.join(VERIF, "stubs"), os.path.join(VERIF, "extractor")):
        for f in sorted(os.listdir(root)):
            if f.endswith((".cpp", ".hpp")):
                out.append(os.path.join(root, f))
    return out


def content_key():
    h = hashlib.sha256()
    for p in all_inputs():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def headers_key():
    """Identifies everything a unit can include, and the extractor."""
    h = hashlib.sha256()
    for p in all_inputs():
        if not p.endswith(".cpp") or "/extractor/" in p:
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    h.update(REPO.encode())
    return h.hexdigest()


def ensure_extractor():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(EXTRACT):
        raise AnalysisBroken("extractor does not build: " + r.stderr[-800:])


def merge(parts):
    d = {"functions": {}, "decls": {}, "records": {}, "enums": {}, "globals": {}, "files": set()}
    for p in parts:
        for k in ("functions", "decls", "records", "enums", "globals"):
            for key, v in p[k].items():
                old = d[k].get(key)
                if old is None:
                    d[k][key] = v
                elif k == "globals" and old.get("value") is None and v.get("value") is not None:
                    d[k][key] = v
                elif k == "decls" and not old.get("overrides") and v.get("overrides"):
                    d[k][key] = v
        d["files"].update(p["files"])
    d["files"] = sorted(f for f in d["files"] if f.startswith(REPO))
    return d


def extract_all(log=None):
    ensure_extractor()
    srcs = source_list()
    stubs = [(os.path.join(VERIF, "stubs", f), []) for f in sorted(os.listdir(os.path.join(VERIF, "stubs")))
             if f.endswith(".cpp")]
    tmp = os.path.join(BUILD, "tmp-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)

    base = headers_key()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)

    def one(job):
        i, (src, flags) = job
        h = hashlib.sha256((base + src + " ".join(flags)).encode())
        with open(src, "rb") as fh:
            h.update(fh.read())
        unit = os.path.join(cache, "tu-" + h.hexdigest()[:24] + ".pickle")
        if os.path.exists(unit):
            try:
                with open(unit, "rb") as fh:
                    d = pickle.load(fh)
                os.utime(unit)
                return d
            except Exception:
                pass
        out = os.path.join(tmp, "%d.json" % i)
        cmd = [EXTRACT, "--root=" + os.path.join(REPO, "fly"), "--root=" + os.path.join(VERIF, "stubs"),
               "-o", out, src, "--", "-resource-dir", RESOURCE, "-std=c++20", "-I" + REPO, "-pthread",
               "-U_FORTIFY_SOURCE", "-w"] + [f for f in flags if f.startswith(("-D", "-I", "-U"))]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken(f"{src} could not be analysed: {r.stderr[-1500:]}")
        with open(out) as fh:
            d = json.load(fh)
        os.unlink(out)
        part = unit + ".%d.%d" % (os.getpid(), i)
        with open(part, "wb") as fh:
            pickle.dump(d, fh, protocol=4)
        os.replace(part, unit)
        return d

    try:
        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(one, enumerate(srcs + stubs)))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    d = merge(parts)
    d["units"] = [s for s, _ in srcs + stubs]
    return d


def load():
    key = content_key()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    path = os.path.join(cache, key + ".pickle")
    if os.path.exists(path):
        try:
            with open(path, "rb") as fh:
                return Program(pickle.load(fh))
        except Exception:
            pass
    d = extract_all()
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "wb") as fh:
        pickle.dump(d, fh, protocol=4)
    os.replace(tmp, path)
    # Keep the cache small.
    for pre, keep in (("tu-", 200), ("", 3)):
        olds = []
        for f in os.listdir(cache):
            if f.endswith(".pickle") and f.startswith("tu-") == bool(pre):
                try:
                    olds.append((os.path.getmtime(os.path.join(cache, f)), f))
                except OSError:
                    pass
        for _, f in sorted(olds)[:-keep]:
            try:
                os.unlink(os.path.join(cache, f))
            except OSError:
                pass
    return Program(d)
