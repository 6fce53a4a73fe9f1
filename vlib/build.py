"""Builds /repo's current working tree with instrumentation, outside /repo.

Every variant lives in /verif/build/<variant> (git-ignored) and is an
incremental ninja build, so a check always decides the current tree.
"""
import fcntl
import os
import shlex
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = "-w -include cstdint -fno-omit-frame-pointer"
CCOMMON = "-w -fno-omit-frame-pointer"
# variables that were never initialised hold a value that is no truth value,
# no valid pointer and no small number
FILL = "-ftrivial-auto-var-init=pattern"
UB = "-fsanitize=undefined -fno-sanitize=alignment"
VARIANTS = {
    # address + undefined behaviour + checked standard containers
    "asan": dict(cxx="g++", cc="gcc",
                 flags="-O1 -fsanitize=address %s %s -D_GLIBCXX_ASSERTIONS" %
                 (UB, FILL),
                 ld="-fsanitize=address,undefined"),
    # coverage-guided in-process drivers
    "fuzz": dict(cxx="clang++", cc="clang",
                 flags="-O1 -fsanitize=fuzzer-no-link,address %s "
                 "-fno-sanitize-recover=undefined %s -D_GLIBCXX_ASSERTIONS" %
                 (UB, FILL),
                 ld="-fsanitize=address,undefined"),
    # data races
    "tsan": dict(cxx="g++", cc="gcc", flags="-O1 -fsanitize=thread",
                 ld="-fsanitize=thread"),
    # no sanitizer: process-level monitors (rlimits, preloads, valgrind)
    "plain": dict(cxx="g++", cc="gcc", flags="-O1 %s -D_GLIBCXX_ASSERTIONS" % FILL,
                  ld=""),
}
TARGET_PATH = {
    "mwsd": "bin/mwsd", "mws-index": "bin/mws-index", "schemad": "bin/schemad",
    "docs2harvest": "bin/docs2harvest",
    "harvests2json": "bin/harvests2json",
    "analyze_example": "bin/analyze_example", "crawlerd": "bin/crawlerd",
}


class BuildError(Exception):
    pass


def _run(cmd, log):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f)


def build(variant, targets):
    """Builds targets; returns {target: path}. Raises BuildError."""
    v = VARIANTS[variant]
    bdir = os.path.join(BUILD_ROOT, variant)
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "verif-build.log")
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        env_flags = v["flags"]
        cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-Wno-dev",
               "-DCMAKE_BUILD_TYPE=Debug",
               "-DCMAKE_C_COMPILER=" + v["cc"],
               "-DCMAKE_CXX_COMPILER=" + v["cxx"],
               "-DCMAKE_CXX_FLAGS=%s %s" % (COMMON, env_flags),
               "-DCMAKE_C_FLAGS=%s %s" % (CCOMMON, env_flags),
               "-DCMAKE_CXX_FLAGS_DEBUG=-g1", "-DCMAKE_C_FLAGS_DEBUG=-g1",
               "-DCMAKE_EXE_LINKER_FLAGS=" + v["ld"]]
        if _run(cmd, log) != 0:
            raise BuildError("cmake failed, see %s\n%s" % (log, tail(log)))
        _localise_config(bdir)
        if targets:
            if _run(["ninja", "-C", bdir] + list(targets), log) != 0:
                raise BuildError("ninja failed, see %s\n%s" % (log, tail(log)))
    out = {}
    for t in targets:
        p = _find(bdir, t)
        if p is None:
            raise BuildError("target %s built but no binary found" % t)
        out[t] = p
    return out


def harness(variant, source, targets=("mwsd",), like="analyze_example",
            extra=()):
    """Compiles /verif/harness/<source> with the flags of the tree's own
    program `like` and links it with every library of the tree. targets are
    built first, so that the libraries exist."""
    build(variant, list(targets) + [like])
    bdir = os.path.join(BUILD_ROOT, variant)
    out = os.path.join(bdir, "harness-" + os.path.splitext(source)[0])
    src = os.path.join(VERIF, "harness", source)
    log = os.path.join(bdir, "verif-build.log")
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmds = subprocess.check_output(
            ["ninja", "-C", bdir, "-t", "commands", like]).decode()
        comp = link = None
        for line in cmds.splitlines():
            w = shlex.split(line)
            if "-c" in w and "-o" in w and w[-1].endswith(".cpp") and \
                    "/%s.dir/" % like in w[w.index("-o") + 1]:
                comp = w
            if "-o" in w and os.path.basename(w[w.index("-o") + 1]) == like:
                link = w
        if comp is None or link is None:
            raise BuildError("no commands for " + like)
        flags = []
        skip = False
        for x in comp:
            if skip:
                skip = False
            elif x in ("-o", "-MF", "-MT", "-c"):
                skip = x != "-c"
            elif x != "-MD" and x != comp[-1]:
                flags.append(x)
        libs = []
        for root, dirs, files in os.walk(bdir):
            dirs[:] = [d for d in dirs if d not in ("CMakeFiles",
                                                    "crawl-data")]
            libs += [os.path.join(root, f) for f in files
                     if f.startswith("lib") and f.endswith(".a")]
        lks = [x for x in link if x.startswith(("-l", "-L")) or
               x.endswith(".so")]
        lks += [x for x in extra if x.startswith("-l") and x not in lks]
        flags += [x for x in extra if not x.startswith("-l")]
        cmd = flags + ["-I" + REPO, "-I" + os.path.join(REPO, "src"),
                       "-I" + bdir, src, "-o", out, "-Wl,--start-group"] + \
            sorted(libs) + ["-Wl,--end-group"] + lks
        if _run_in(cmd, log, bdir) != 0:
            raise BuildError("harness %s failed, see %s\n%s" %
                             (source, log, tail(log)))
    return out


def _run_in(cmd, log, cwd):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f, cwd=cwd)


def _localise_config(bdir):
    """The crawler daemon writes below HARVESTFILES_PATH (<source>/data);
    point the generated header into the build directory instead so that
    checks never write into /repo."""
    cfg = os.path.join(bdir, "build-gen", "config.h")
    try:
        s = open(cfg).read()
    except OSError:
        return
    want = os.path.join(bdir, "crawl-data")
    os.makedirs(want, exist_ok=True)
    import re
    n = re.sub(r'(#define\s+HARVESTFILES_PATH\s+)"[^"]*"',
               lambda m: m.group(1) + '"%s"' % want, s)
    if n != s:
        open(cfg, "w").write(n)


def _find(bdir, target):
    for root, dirs, files in os.walk(bdir):
        dirs[:] = [d for d in dirs if d not in ("CMakeFiles", "crawl-data")]
        if target in files:
            p = os.path.join(root, target)
            if os.access(p, os.X_OK) and not p.endswith((".a", ".so")):
                return p
    return None


def tail(path, n=40):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
