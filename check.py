#!/usr/bin/env python3
"""Builds and runs the check of one property against the working tree of /repo.

  check.py C01 [--replay FILE] [--family F] [--scale X] [--tier T] [--seed N]
  check.py --setup          build everything for the current tree
Exit 0: the property held on everything explored. Exit 1: VIOLATION printed.
Objects are cached under build/ by the hash of everything they depend on.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
H = os.path.join(V, "harness")
INC = ["-I" + os.path.join(REPO, "src"), "-I" + H]
CXX = "/usr/bin/g++"

LIB = {
    "plain": ["-O2", "-std=c++14"],
    "asan": ["-O1", "-g1", "-std=c++14", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-std=c++14", "-fsanitize=thread"],
    "mp": ["-O2", "-std=c++14", "-DBOOST_MP"],
}
LIB["memcheck"] = ["-O1", "-g1", "-std=c++14"]
LIB["asanmp"] = LIB["asan"] + ["-DBOOST_MP"]
HARN = {
    "plain": ["-O1", "-std=c++17"],
    "asan": ["-O1", "-g1", "-std=c++17", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-std=c++17", "-fsanitize=thread"],
    "mp": ["-O1", "-std=c++14", "-DBOOST_MP"],
}
HARN["memcheck"] = ["-O1", "-g1", "-std=c++17"]
HARN["asanmp"] = [f.replace("c++17", "c++14") for f in HARN["asan"]] + ["-DBOOST_MP"]
# coverage of the library leads part of the cases
for v in ("plain", "mp", "asan", "asanmp"):
    LIB[v] = LIB[v] + ["-fsanitize-coverage=trace-pc"]
    HARN[v] = HARN[v] + ["-DPBT_GUIDED"]
LINK = {"mp": ["-lquadmath"], "asanmp": ["-lquadmath"]}
# property -> variants of the library it runs on (default: plain only)
VARIANTS = {"C15": ["asan", "asanmp", "memcheck"], "C16": ["mp"], "C18": ["tsan"]}
VARIANTS.update((p, ["plain", "mp"]) for p in ("C04", "C07", "C12", "C13", "C14", "C23", "C24"))
# share of the cases run on the second variant
SHARE = {"mp": 0.3, "asanmp": 0.3, "memcheck": 0.1}
# program a variant runs under
UNDER = {"memcheck": ["valgrind", "--quiet", "--log-file=/dev/null"]}


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


def lib_sources():
    src = os.path.join(REPO, "src")
    names = []
    try:
        names = [n for n in re.findall(r"src/([\w.+-]+\.(?:cpp|cc|cxx|c))\b", open(os.path.join(REPO, "CMakeLists.txt")).read())
                 if os.path.exists(os.path.join(src, n))]
    except OSError:
        pass
    if not names:
        names = [n for n in os.listdir(src) if n.endswith(".cpp")]
    return [os.path.join(src, n) for n in sorted(set(names))]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def repo_headers():
    out = []
    for d in ("src", "pyami_src"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if not f.endswith((".o", ".so"))]
    return sorted(out)


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("cannot build %s: %s\n%s" % (what, " ".join(cmd), r.stdout[-6000:]))


def obj(src, flags, deps):
    key = digest([src] + deps, " ".join(flags))
    out = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src).rsplit(".", 1)[0], key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([CXX] + flags + INC + ["-c", src, "-o", tmp], src)
        os.replace(tmp, out)
    os.utime(out)
    return out


def link(name, objs, flags):
    key = hashlib.sha256((" ".join(objs) + " ".join(flags)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([CXX] + objs + flags + ["-o", tmp], name)
        os.replace(tmp, out)
    os.utime(out)
    return out


def prop_source(pid):
    return os.path.join(V, "props", pid.lower() + ".cpp")


def harness_headers():
    return sorted(os.path.join(H, f) for f in os.listdir(H) if f.endswith(".hpp"))


def build_all(pids, pool):
    """returns {(pid, variant): binary}"""
    hh, rh = harness_headers(), repo_headers()
    pending, jobs = {}, {}

    def want(src, flags, deps):
        k = (src, tuple(flags))
        if k not in jobs:
            jobs[k] = pool.submit(obj, src, flags, deps)
        return k

    need = {}
    for pid in pids:
        for var in VARIANTS.get(pid, ["plain"]):
            ks = []
            extra_src, extra_cflags, extra_ld = EXTRA.get(pid, (list, [], []))
            for s in extra_src():
                ks.append(want(s, EXTRA_FLAGS + extra_cflags, rh))
            # slowest first
            refvar = var if var == "tsan" else "plain"
            ks.append(want(os.path.join(H, "ref.cpp"), HARN[refvar], hh))
            ks.append(want(os.path.join(H, "pbt.cpp"), HARN[var], hh))
            ks.append(want(prop_source(pid), HARN[var] + extra_cflags, hh + rh))
            for s in lib_sources():
                ks.append(want(s, LIB[var], rh))
            fl = [f for f in HARN[var] if f.startswith("-fsanitize")]
            fl += LINK.get(var, []) + extra_ld
            need[(pid, var)] = (ks, fl, pid)
    out = {}
    for k, (ks, fl, pid) in need.items():
        objs = [jobs[x].result() for x in ks]
        out[k] = link("%s-%s" % (pid, k[1]), objs, fl + ["-lgmp"])
    return out


def pyami_sources():
    d = os.path.join(REPO, "pyami_src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


# property -> (further sources, compile flags, link flags)
EXTRA_FLAGS = ["-O0", "-std=c++14", "-fvisibility=hidden"]
EXTRA = {"C17": (pyami_sources, ["-I/usr/include/python3.12"], ["-lpython3.12"])}


def all_pids():
    return sorted(f[:-4].upper() for f in os.listdir(os.path.join(V, "props")) if re.fullmatch(r"c\d+\.cpp", f))


def prune():
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        if sum(os.path.getsize(f) for f in fs) > 3 << 30:
            fs.sort(key=os.path.getmtime)
            for f in fs[: len(fs) // 2]:
                os.remove(f)
    except OSError:
        pass


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    prune()
    setup = args[0] == "--setup"
    pids = all_pids() if setup else [args[0].upper()]
    for p in pids:
        if not os.path.exists(prop_source(p)):
            die("unknown property " + p)
    try:
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
            bins = build_all(pids, pool)
    except RuntimeError as e:
        die(str(e))
    if setup:
        return 0
    pid = pids[0]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not re.fullmatch(r"\d+", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16))
    env = dict(os.environ, LC_ALL="C")
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:second_deadlock_stack=1"
    base = ["--seed", seed, "--tier", tier, "--replay-dir", os.path.join(V, "replays"),
            "--known", os.path.join(V, "known_findings.txt")]
    rest = args[1:]
    variants = VARIANTS.get(pid, ["plain"])
    rc = 0
    parts = []
    for k, var in enumerate(variants):
        ev = os.path.join(V, "evidence", pid + (".json" if len(variants) == 1 else "." + var + ".part"))
        more = rest
        if k and var in SHARE:
            scale = float(rest[rest.index("--scale") + 1]) if "--scale" in rest else 1.0
            more = rest + ["--scale", str(scale * SHARE[var])]
        under = UNDER.get(var, [])
        if "--replay" in rest:
            under = [u for u in under if not u.startswith("--log")]
        if under and not shutil.which(under[0]):
            print("%s is not installed: %s left out" % (under[0], var))
            continue
        r = subprocess.run(under + [bins[(pid, var)]] + base + ["--evidence", ev] + more, env=env)
        parts.append((var, ev))
        if r.returncode:
            rc = r.returncode
            break
    if len(variants) > 1 and "--replay" not in rest:
        merge(pid, parts)
    return rc


def merge(pid, parts):
    total = None
    for var, ev in parts:
        if not os.path.exists(ev):
            continue
        d = json.load(open(ev))
        os.remove(ev)
        c = d["coverage"]
        c["families"] = {var + "/" + k: v for k, v in c["families"].items()}
        if total is None:
            total = d
            continue
        t = total["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "nontrivial", "fixed_inputs"):
            t[k] += c[k]
        t["samples"] += c["samples"]
        t["families"].update(c["families"])
        total["wall_s"] += d["wall_s"]
        total["violations"] += d["violations"]
    if total:
        out = os.path.join(V, "evidence", pid + ".json")
        with open(out + ".tmp", "w") as f:
            json.dump(total, f, indent=1)
        os.replace(out + ".tmp", out)


if __name__ == "__main__":
    sys.exit(main())
