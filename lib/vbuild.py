"""Builds the programs under test from /repo's current working tree.

Everything is compiled in /verif/build/<variant> (git-ignored) through /repo's
own CMake files plus harness/inject.cmake, so no file of /repo is touched.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD_ROOT = os.path.join(VERIF, "build")

COMMON = "-include cstdint -include utility -DNDEBUG -DQLEVER_TESTABLE_LIMITS"
VARIANTS = {
    "main": COMMON + " -O1",
    "asan": COMMON + " -O1 -g1 "
            "-fsanitize=address,undefined -fno-sanitize=vptr,alignment,null "
            "-fno-sanitize-recover=undefined -fno-omit-frame-pointer",
}


class BuildError(Exception):
    pass


def _tree_hashes():
    """Content hash of every file that takes part in the build."""
    res = {}
    for top in ("src", "test", "third_party", "CMakeLists.txt"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            res[top] = _sha(p)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in (".git", "_build")]
            if top == "third_party" and "test" in os.path.basename(d):
                continue
            for f in files:
                if f.endswith((".h", ".hpp", ".cpp", ".cc", ".c", ".txt",
                               ".cmake", ".in")):
                    fp = os.path.join(d, f)
                    try:
                        res[os.path.relpath(fp, REPO)] = _sha(fp)
                    except OSError:
                        pass
    return res


def _sha(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def build(targets, variant="main"):
    """Builds the cmake targets and returns the build directory."""
    os.makedirs(BUILD_ROOT, exist_ok=True)
    bdir = os.path.join(BUILD_ROOT, variant)
    with open(os.path.join(BUILD_ROOT, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _build_locked(bdir, list(targets), variant)
    return bdir


def _build_locked(bdir, targets, variant):
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD_ROOT, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_NOHASHDIR"] = "1"
    env.pop("CXXFLAGS", None)
    env.pop("CFLAGS", None)
    stamp = os.path.join(bdir, "verif-hashes.json")
    hashes = _tree_hashes()
    hashes["flags"] = VARIANTS[variant]
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = json.load(f)
        changed = [p for p in set(old["hashes"]) | set(hashes)
                   if old["hashes"].get(p) != hashes.get(p)]
        stale = False
        for p in changed:
            fp = os.path.join(REPO, p)
            if not os.path.exists(fp) or os.path.getmtime(fp) <= old["time"]:
                stale = True  # ninja would not notice: start from scratch
        if stale:
            shutil.rmtree(bdir)
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        if os.path.isdir(bdir):
            shutil.rmtree(bdir)
        os.makedirs(bdir)
        cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_C_COMPILER=/usr/bin/gcc",
               "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
               "-DCMAKE_PROJECT_QLever_INCLUDE=" +
               os.path.join(VERIF, "harness", "inject.cmake"),
               "-DADDITIONAL_COMPILER_FLAGS=" + VARIANTS[variant],
               "-DLOGLEVEL=ERROR"]
        if shutil.which("ccache"):
            cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
                    "-DCMAKE_C_COMPILER_LAUNCHER=ccache"]
        _run(cmd, env, os.path.join(bdir, "verif-configure.log"))
    start = time.time()
    # With no targets given to ninja everything (all tests) would be built.
    _run(["ninja", "-C", bdir] + targets, env,
         os.path.join(bdir, "verif-build.log"))
    with open(stamp, "w") as f:
        json.dump({"time": start, "hashes": hashes}, f)


def _run(cmd, env, log):
    with open(log, "wb") as f:
        r = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT,
                           cwd=BUILD_ROOT)
    if r.returncode != 0:
        with open(log, errors="replace") as f:
            tail = f.read()[-4000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd[:4]), tail))


def binary(bdir, name):
    for p in (os.path.join(bdir, name), os.path.join(bdir, "src", name),
              os.path.join(bdir, "verif", name)):
        if os.path.exists(p):
            return p
    raise BuildError("no binary " + name)


if __name__ == "__main__":
    try:
        build(sys.argv[1:] or ["IndexBuilderMain", "ServerMain"])
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
