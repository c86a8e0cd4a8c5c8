"""Builds the serving simulator from /repo's current tree (and the shims) into DIR/servesim."""
import concurrent.futures
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/serving"


def sources():
    out = []
    for d in ("core", "operators", "cli"):
        p = os.path.join(SRC, "reagent/serving", d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp") and f not in ("Main.cpp", "PytorchActionValueScorer.cpp"):
                out.append(os.path.join(p, f))
    return out


def tree_key():
    h = hashlib.blake2b(digest_size=10)
    for root in (os.path.join(SRC, "reagent/serving"), HERE):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".py")) and "/test" not in d:
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


FLAGS = ["-std=c++17", "-O1", "-w", "-fno-omit-frame-pointer", "-DRASP_OSS",
         "-I", os.path.join(HERE, "shims"), "-I", HERE, "-I", SRC, "-I", "/usr/include/eigen3"]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def build(out):
    """path of the binary"""
    os.makedirs(out, exist_ok=True)
    key = tree_key()
    exe = os.path.join(out, "servesim-" + key)
    if os.path.exists(exe):
        return exe
    for f in os.listdir(out):
        if f.startswith("servesim-"):
            os.unlink(os.path.join(out, f))
    work = os.path.join(out, "o.%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inst = ["-fsanitize=thread"]
    pch = os.path.join(work, "headers.h.pch")
    hdr = os.path.join(SRC, "reagent/serving/core/Headers.h")
    run(["clang++", *FLAGS, *inst, "-x", "c++-header", hdr, "-o", pch])
    jobs = []
    objs = []
    for s in sources():
        o = os.path.join(work, hashlib.md5(s.encode()).hexdigest() + ".o")
        objs.append(o)
        if os.path.getsize(s) == 0:
            objs.pop()
            continue
        jobs.append(["clang++", *FLAGS, *inst, "-include-pch", pch, "-c", s, "-o", o])
    o = os.path.join(work, "driver.o")
    jobs.insert(0, ["clang++", *FLAGS, *inst, "-include-pch", pch, "-c", os.path.join(HERE, "driver.cpp"), "-o", o])
    objs.append(o)
    for s in ("simrt.cpp", "taskflow.cpp"):
        o = os.path.join(work, s + ".o")
        objs.append(o)
        jobs.append(["clang++", *FLAGS, "-c", os.path.join(HERE, s), "-o", o])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    tmp = exe + ".%d" % os.getpid()
    run(["clang++", "-rdynamic", *objs, "-o", tmp, "-lboost_filesystem", "-lboost_system", "-ldl", "-lpthread"])
    os.rename(tmp, exe)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1]))
