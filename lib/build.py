"""Builds the program under test from /repo's working tree, content-addressed.

Every object is keyed by a hash of the compiler, the flags, the source text and
the text of every file of /repo and /verif it includes (taken from the
compiler's own dependency file), so a build is redone exactly when what the
code says changed, whatever the timestamps are.  Nothing is written in /repo.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INC = ["-I" + os.path.join(VERIF, "harness", "compat"), "-I" + os.path.join(REPO, "src"),
       "-isystem", "/usr/include/jsoncpp"]
LIBS = ["-lfst", "-ljsoncpp", "-lfmt", "-licuuc", "-licuio", "-lpthread", "-ldl"]
# -D_GLIBCXX_ASSERTIONS turns out-of-range container accesses into aborts
VARIANTS = {
    "fast": dict(cxx="g++", flags=["-O1", "-g0", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"], ld=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                                   "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                   "-fno-sanitize-recover=undefined"],
                 ld=["-fsanitize=address,undefined"]),
}
SETUP = ["fast", "fastd:fast", "cli:fast", "asan"]
# the translation unit of the command line layer is dominated by CLI11 templates;
# optimising it buys nothing
PER_FILE = {"main.cpp": ["-O0"]}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def file_hash(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def std_for(name):
    # PathHeap.cpp only compiles as C++14 with this compiler (the project's own
    # standard); the rest needs C++17 because of the installed icu/fmt headers.
    return "-std=gnu++14" if name == "PathHeap.cpp" else "-std=gnu++17"


def tracked(dep):
    dep = os.path.abspath(dep)
    return dep.startswith(REPO + "/") or dep.startswith(VERIF + "/")


def sources():
    d = os.path.join(REPO, "src")
    out = []
    for root, _dirs, files in os.walk(d):
        for f in files:
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.join(root, f))
    return sorted(out)


class BuildError(Exception):
    pass


def parse_depfile(path):
    txt = open(path).read().replace("\\\n", " ")
    _, _, rest = txt.partition(":")
    return [d for d in rest.split() if tracked(d)]


def compile_one(src, variant, extra=(), attempt=0):
    v = VARIANTS[variant]
    name = os.path.basename(src)
    flags = v["flags"] + PER_FILE.get(name, []) + list(extra)
    base = sha("v3", v["cxx"], json.dumps(flags), json.dumps(INC), os.path.abspath(src))[:24]
    odir = os.path.join(BUILD, "obj", variant)
    os.makedirs(odir, exist_ok=True)
    meta = os.path.join(odir, base + ".json")

    def key_of(deps):
        return sha(*[d + "=" + file_hash(d) for d in sorted(set(deps))])

    try:
        m = json.load(open(meta))
        obj = os.path.join(odir, m["obj"])
        if key_of(m["deps"]) == m["key"] and os.path.exists(obj):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    tmp = os.path.join(odir, "%s.%d.tmp" % (base, os.getpid()))
    last = ""
    stds = [std_for(name)]
    stds += [s for s in ("-std=gnu++17", "-std=gnu++14") if s not in stds]
    start = time.time()
    for std in stds:
        cmd = [v["cxx"], std] + flags + INC + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        last = last or p.stdout
    else:
        raise BuildError("cannot compile %s:\n%s" % (src, last[-3000:]))
    deps = parse_depfile(tmp + ".d")
    key = key_of(deps)
    if any(os.stat(d).st_mtime >= start for d in deps) and attempt < 5:
        # edited while it was being compiled: what was compiled may not be what was hashed
        return compile_one(src, variant, extra, attempt + 1)
    obj = "%s-%s.o" % (base, key[:24])
    os.replace(tmp + ".o", os.path.join(odir, obj))
    os.unlink(tmp + ".d")
    with open(meta + ".tmp", "w") as f:
        json.dump(dict(src=src, deps=deps, key=key, obj=obj), f)
    os.replace(meta + ".tmp", meta)
    for f in os.listdir(odir):
        if f.startswith(base + "-") and f != obj:
            try:
                os.unlink(os.path.join(odir, f))
            except OSError:
                pass
    return os.path.join(odir, obj)


def compile_all(srcs, variant):
    # the slowest first
    order = {"StandardComposition.cpp": 0, "fstalign.cpp": 1, "AdaptedComposition.cpp": 2, "main.cpp": 3}
    srcs = sorted(srcs, key=lambda s: order.get(os.path.basename(s), 9))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = [(s, ex.submit(compile_one, s, variant)) for s in srcs]
        return {s: f.result() for s, f in futs}


def has_main(obj):
    p = subprocess.run(["nm", "--defined-only", obj], capture_output=True, text=True)
    return any(l.split()[-2:] == ["T", "main"] for l in p.stdout.splitlines() if len(l.split()) >= 2)


def link(objs, out, variant, libs=()):
    v = VARIANTS[variant]
    stamp = out + ".key"
    key = sha(*objs, json.dumps(v["ld"]), json.dumps(list(libs)))
    try:
        if open(stamp).read() == key and os.path.exists(out):
            return out
    except OSError:
        pass
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = [v["cxx"]] + v["ld"] + objs + list(libs) + LIBS + ["-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("link failed:\n" + p.stdout[-3000:])
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def locked(fn):
    def wrap(*a, **k):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            return fn(*a, **k)
    return wrap


@locked
def build_runner(variant="fast"):
    """The fork server around the whole program."""
    runner_src = os.path.join(VERIF, "harness", "runner.cpp")
    srcs = sources()
    objs = compile_all(srcs + [runner_src], variant)
    final = []
    for s in srcs:
        o = objs[s]
        if has_main(o):
            r = o[:-2] + ".renamed.o"
            if not os.path.exists(r):
                subprocess.run(["objcopy", "--redefine-sym", "main=fstalign_main", o, r], check=True)
            o = r
        final.append(o)
    final.append(objs[runner_src])
    return link(final, os.path.join(BUILD, "runner-" + variant), variant)


@locked
def build_cli(variant="fast"):
    """The plain executable (for reproducing by hand)."""
    srcs = sources()
    objs = compile_all(srcs, variant)
    return link([objs[s] for s in srcs], os.path.join(BUILD, "fstalign-" + variant), variant)


@locked
def build_lib_harness(name, variant="fast", libs=()):
    """harness/<name>.cpp linked with the program's objects (without its main)."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    srcs = sources()
    objs = compile_all(srcs + [src], variant)
    final = [objs[src]] + [objs[s] for s in srcs if not has_main(objs[s])]
    return link(final, os.path.join(BUILD, name + "-" + variant), variant, libs)


if __name__ == "__main__":
    todo = sys.argv[1:] or ["fast"]
    if todo == ["setup"]:
        todo = SETUP
    for what in todo:
        if what in VARIANTS:
            print(build_runner(what))
        elif what.startswith("cli"):
            print(build_cli(what.partition(":")[2] or "fast"))
        else:
            n, _, v = what.partition(":")
            print(build_lib_harness(n, v or "fast"))
