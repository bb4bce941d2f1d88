"""Builds harnesses and applications from /repo's working tree.

Objects are cached in /verif/.cache, keyed by the content of the source file,
of every (non system) header it includes and of the flags, so that a change of
/repo's sources always leads to a recompilation and an unchanged file never
does, whatever the modification times are.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
CXX = "g++"
LIB = os.path.join(REPO, "lib")

COMMON = ["-std=c++17", "-w", "-fPIC", "-pipe", "-fopenmp",
          "-ftrivial-auto-var-init=pattern",
          "-DENABLE_FACTORIZATION=1", "-DENABLE_PLUGIN=1",
          "-I" + os.path.join(VERIF, "mc", "include"), "-I" + LIB]

FLAVOURS = {
    # every random draw is a choice point of the explorer
    "choice": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS",
               "-include", os.path.join(VERIF, "mc", "shim.hh")] + COMMON,
    # same, with the address and undefined behaviour sanitizers
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr",
             "-include", os.path.join(VERIF, "mc", "shim.hh")] + COMMON,
    # as choice, with every memory access reported to the controlled scheduler (mc/race.cc)
    "race": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread", "-Wno-tsan",
             "-include", os.path.join(VERIF, "mc", "shim.hh")] + COMMON,
    # the real random number generator, used for the command line tools
    "plain": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"] + COMMON,
}


PYTHON = ["-I" + sysconfig.get_paths()["include"]]


class BuildError(Exception):
    pass


def sha(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
        if k not in memo:
            with open(path, "rb") as f:
                memo[k] = hashlib.sha256(f.read()).hexdigest()
        return memo[k]
    except OSError:
        return None


def compile_one(src, flags):
    os.makedirs(os.path.join(CACHE, "man"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    tag = hashlib.sha256(json.dumps([CXX, flags, src]).encode()).hexdigest()[:32]
    man = os.path.join(CACHE, "man", tag + ".json")
    entries = []
    try:
        entries = json.load(open(man))
    except (OSError, ValueError):
        pass
    for e in entries:
        if os.path.exists(e["obj"]) and all(sha(p) == h for p, h in e["deps"].items()):
            return e["obj"], None
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(CACHE, "obj"))
    os.close(fd)
    dep = tmp + ".d"
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        return None, "%s:\n%s" % (src, r.stdout[-4000:])
    text = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = [d.replace("\\ ", " ") for d in re.findall(r"(?:\\ |\S)+", text.split(":", 1)[1])]
    deps = {os.path.abspath(d): sha(os.path.abspath(d)) for d in deps}
    key = hashlib.sha256(json.dumps([tag, sorted(deps.items())]).encode()).hexdigest()[:40]
    obj = os.path.join(CACHE, "obj", key + ".o")
    os.replace(tmp, obj)
    entries = [{"obj": obj, "deps": deps}] + entries
    for e in entries[6:]:
        if os.path.exists(e["obj"]):
            try:
                os.unlink(e["obj"])
            except OSError:
                pass
    fd, tmpm = tempfile.mkstemp(dir=os.path.join(CACHE, "man"))
    with os.fdopen(fd, "w") as f:
        json.dump(entries[:6], f)
    os.replace(tmpm, man)
    return obj, None


def makefile_sources():
    text = open(os.path.join(LIB, "Makefile.am")).read()
    return [os.path.join(LIB, s) for s in re.findall(r"(?:^|\s)((?:fast-efficient-p3|fparser|gomea)/\S+\.(?:cpp|cc))(?=\s|$)", text)]


def glob_cc(sub):
    out = []
    for d, _, fs in os.walk(os.path.join(LIB, "hnco", sub) if sub else os.path.join(LIB, "hnco")):
        for f in fs:
            if f.endswith((".cc", ".cpp")):
                out.append(os.path.join(d, f))
    return sorted(out)


def group(name):
    """Groups of library sources."""
    hn = os.path.join(LIB, "hnco")
    allcc = [s for s in glob_cc("") if not s.endswith("/python-function.cc")]
    rel = lambda s: os.path.relpath(s, hn)
    is_app = lambda s: rel(s).startswith(("app/", "multiobjective/app/"))
    is_p3 = lambda s: rel(s).startswith("algorithms/fast-efficient-p3/")
    is_gomea = lambda s: rel(s).startswith("algorithms/gomea/")
    vend = makefile_sources()
    if name == "core":
        return [s for s in allcc if not (is_app(s) or is_p3(s) or is_gomea(s))]
    if name == "app":
        return [s for s in allcc if is_app(s)]
    if name == "parser":
        return [s for s in allcc if rel(s) == "app/parser.cc"]
    if name == "p3":
        return [s for s in allcc if is_p3(s)] + [s for s in vend if "/fast-efficient-p3/" in s]
    if name == "gomea":
        return [s for s in allcc if is_gomea(s)] + [s for s in vend if "/gomea/" in s]
    if name == "fparser":
        return [s for s in vend if "/fparser/" in s]
    raise BuildError("unknown group " + name)


def build(output, flavour, groups, own, defines=(), libs=("-lboost_serialization", "-lgmpxx", "-lgmp", "-ldl"), link=(), omp=True, link_groups_whole=False):
    """Link own + groups of library sources into output. own is compiled first."""
    flags = FLAVOURS[flavour]
    jobs = []
    for s in own:
        f = flags
        if os.path.basename(s) == "race.cc":
            f = ["-O2"] + COMMON
        jobs.append((s, f + list(defines)))
    for g in groups:
        f = flags
        if g in ("p3", "gomea", "fparser"):
            f = [x for x in flags if x != "-D_GLIBCXX_ASSERTIONS"]
        if g in ("gomea", "app"):
            f = f + PYTHON
        for s in group(g):
            jobs.append((s, f))
    # heavy files first
    order = sorted(range(len(jobs)), key=lambda i: -(os.path.getsize(jobs[i][0]) + (10**7 if i < len(own) else 0)))
    objs = [None] * len(jobs)
    errors = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", os.cpu_count() or 8))) as ex:
        futs = {ex.submit(compile_one, *jobs[i]): i for i in order}
        for f in concurrent.futures.as_completed(futs):
            obj, err = f.result()
            if err:
                errors.append(err)
            objs[futs[f]] = obj
    if errors:
        raise BuildError("\n".join(errors[:5]))
    lk = hashlib.sha256(json.dumps([flavour, objs, list(libs), list(link)]).encode()).hexdigest()[:40]
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    binp = os.path.join(CACHE, "bin", lk)
    if not os.path.exists(binp):
        n = len(own)
        tmp = binp + ".%d" % os.getpid()
        arc = tmp + ".a"
        if objs[n:]:
            subprocess.run(["ar", "rcT", arc] + objs[n:], check=True, stderr=subprocess.DEVNULL)
        cmd = [CXX] + ([x for x in flags if x.startswith("-fsanitize")] if flavour != "race" else ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]) + objs[:n] \
            + ((["-Wl,--whole-archive", arc, "-Wl,--no-whole-archive"] if link_groups_whole else [arc]) if objs[n:] else []) + list(link) + list(libs) + (["-fopenmp"] if omp else []) + ["-lpthread", "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(arc):
            os.unlink(arc)
        if r.returncode:
            raise BuildError("link: " + r.stdout[-4000:])
        os.replace(tmp, binp)
    if output:
        os.makedirs(os.path.dirname(output), exist_ok=True)
        shutil.copy2(binp, output)
        return output
    return binp


if __name__ == "__main__":
    import time
    t = time.time()
    for g in sys.argv[2:]:
        t = time.time()
        try:
            jobs = group(g)
            with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
                for o, e in ex.map(lambda s: compile_one(s, FLAVOURS[sys.argv[1]] + (PYTHON if g in ('gomea', 'app') else [])), jobs):
                    if e:
                        print(e)
        finally:
            print(g, time.time() - t)
