"""Extraction driver: turns /repo's *current* working tree into one resolved program (no code is executed).

Every translation unit is parsed by tool/bsa-extract (clang libTooling) with the build's flags. Results are cached by
content hash only: the key covers the extractor, the flags, every header and the unit itself, so that any change of the
tree is seen.
"""
import hashlib, json, os, pickle, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BSA_REPO", "/repo")
MBED = "/opt/vp/missing/mbedtls3.h"


class Broken(Exception):
    """The analysis itself cannot run (anchor vanished, unit does not parse): an error exit, never a verdict."""


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "bsa-cache-%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise Broken("no writable cache directory")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tool():
    """Build the extractor if this copy of /verif has none that matches the source."""
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = sha(read(src))[:16]
    out = os.path.join(cache_dir(), "bsa-extract-" + key)
    if os.path.exists(out):
        return out, key
    with open(os.path.join(cache_dir(), "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, key
        flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
        flags = [f for f in flags if f[:2] in ("-I", "-D")]
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["clang++-18", "-O1", "-std=c++17", "-fno-rtti"] + flags + [
            src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
            "-Wl,-rpath,/usr/lib/llvm-18/lib"], capture_output=True, text=True)
        if r.returncode:
            raise Broken("extractor does not build: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out, key


SKIP_DIRS = {".git", ".build", "test", "mbedtls", "benchmarks", "docs", "docker", "configs"}


def sources():
    cpp, hdr = [], []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (root == REPO and d in SKIP_DIRS) and not d.startswith("."))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp"):
                cpp.append(p)
            elif f.endswith((".h", ".hpp")):
                hdr.append(p)
    return cpp, hdr


def flags_for(path):
    res = subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    fl = ["-xc++", "-std=c++20", "-fPIC", "-w", "-DSQLITE_ENABLE_NORMALIZE", "-I" + REPO, "-I" + REPO + "/mbedtls/include",
          "-resource-dir", res, "-DGIT_REVISION=0000000000"]
    if os.path.exists(MBED):
        fl += ["-include", MBED]
    return fl


def extract_all(verbose=False):
    """Return list of (relative file, fact file path)."""
    exe, tkey = tool()
    cpp, hdr = sources()
    if len(cpp) < 30:
        raise Broken("only %d translation units under %s" % (len(cpp), REPO))
    fl = flags_for("")
    hh = hashlib.sha256()
    for h in hdr:
        hh.update(h.encode())
        hh.update(read(h))
    base = sha(tkey, " ".join(fl), hh.hexdigest(), read(MBED) if os.path.exists(MBED) else b"")
    cd = cache_dir()
    jobs, out = [], []
    for c in cpp:
        k = sha(base, c, read(c))[:32]
        o = os.path.join(cd, "tu-" + k + ".json")
        out.append((os.path.relpath(c, REPO), o))
        if not os.path.exists(o):
            jobs.append((c, o))

    def one(j):
        c, o = j
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run([exe, REPO, tmp, c, "--"] + fl, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
            return "%s does not parse: %s" % (c, (r.stderr or "")[-1500:])
        os.rename(tmp, o)
        return None

    if jobs:
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise Broken("; ".join(errs[:3]))
    # prune old fact files
    keep = {os.path.basename(o) for _, o in out}
    olds = [f for f in os.listdir(cd) if f.startswith(("tu-", "prog-")) and f not in keep]
    if len(olds) > 1200:
        olds.sort(key=lambda f: os.path.getmtime(os.path.join(cd, f)))
        for f in olds[:len(olds) - 600]:
            try:
                os.unlink(os.path.join(cd, f))
            except OSError:
                pass
    return out


def load():
    """The merged program as a dict."""
    units = extract_all()
    from . import norm
    key = sha(read(norm.__file__), read(norm.KNOWN) if os.path.exists(norm.KNOWN) else b"", *[o for _, o in units])[:32]
    pk = os.path.join(cache_dir(), "prog-" + key + ".pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    prog = {"functions": {}, "enums": {}, "globals": {}, "records": {}, "decls": {}, "units": [u for u, _ in units]}
    import gc
    gc.disable()
    for rel, o in units:
        with open(o, "rb") as f:
            d = json.loads(f.read())
        for fn in d["functions"]:
            i = fn["id"]
            # file-static functions with equal names in different units
            if i in prog["functions"]:
                if prog["functions"][i]["file"] == fn["file"]:
                    continue
                if not fn["file"].endswith(".cpp"):
                    continue
                i = i + "@" + fn["file"]
                fn["id"] = i
            prog["functions"][i] = fn
        for e in d["enums"]:
            prog["enums"].setdefault(e["q"] or "%s:%d" % (e["file"], e["l"]), e)
        for g in d["globals"]:
            prog["globals"].setdefault(g["q"], g)
        for r in d["records"]:
            prog["records"].setdefault(r["q"], r)
        for c in d["decls"]:
            prog["decls"].setdefault(c["f"], c)
    norm.normalize(prog)
    tmp = pk + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(prog, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(tmp, pk)
    gc.enable()
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print("units %d functions %d records %d decls %d in %.1fs" % (len(p["units"]), len(p["functions"]), len(p["records"]), len(p["decls"]), time.time() - t))
