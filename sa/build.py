"""Produces the analysed program representations from /repo's current working tree (in a scratch folder that is removed)."""
import atexit
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("SA_REPO", "/repo")
CPP = os.path.join(REPO, "cpp")
JAVA = os.path.join(REPO, "java")
_tmp = None


class BuildError(Exception):
    pass


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="sa-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def _tool(*names):
    for n in names:
        for d in ("/usr/lib/llvm-18/bin", "/usr/bin", "/usr/local/bin"):
            p = os.path.join(d, n)
            if os.path.exists(p):
                return p
    raise BuildError("tool not found: %s" % (names,))


def cpp_sources():
    return sorted(f for f in glob.glob(os.path.join(CPP, "*.cpp"))
                  if not f.endswith("Test.cpp") and not f.endswith("EcdsaOpCount.cpp"))


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def cpp_module(config="pure-cpp", ndebug=True, ubsan=False, only=None):
    """bitcode of the whole library: clang -O0 then mem2reg only, so that no source-level operation is optimised away"""
    d = tempfile.mkdtemp(prefix="cpp-", dir=tmp())
    flags = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w", "-emit-llvm", "-c"]
    if ndebug:
        flags.append("-DNDEBUG")
    if config == "x8664":
        flags.append("-DUSE_X8664_ASM_IMPL")
    if ubsan:
        flags += ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr,function,null,alignment,object-size,pointer-overflow"]
    clang = _tool("clang++", "clang++-18")
    srcs = cpp_sources()
    if only:
        srcs = [s for s in srcs if os.path.basename(s) in only]

    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".bc")
        run([clang] + flags + [s, "-o", o], cwd=CPP)
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    al = os.path.join(d, "all.bc")
    run([_tool("llvm-link", "llvm-link-18")] + objs + ["-o", al])
    out = os.path.join(d, "m2r.bc")
    run([_tool("opt", "opt-18"), "-passes=function(mem2reg)", al, "-o", out])
    return out


def asm_listing():
    """disassembly (objdump, AT&T) of the assembled AsmX8664.s"""
    d = tempfile.mkdtemp(prefix="asm-", dir=tmp())
    o = os.path.join(d, "asm.o")
    run([_tool("gcc", "cc"), "-c", os.path.join(CPP, "AsmX8664.s"), "-o", o])
    return o


def java_classes():
    d = tempfile.mkdtemp(prefix="java-", dir=tmp())
    srcs = [s for s in glob.glob(os.path.join(JAVA, "**", "*.java"), recursive=True) if not s.endswith("Test.java")]
    if not srcs:
        raise BuildError("no java sources")
    run([_tool("javac"), "-g", "-encoding", "UTF-8", "-proc:none", "-nowarn", "-d", d] + sorted(srcs))
    return d


_dem = {}


def demangle(names):
    names = [n for n in names if n not in _dem]
    if names:
        r = subprocess.run([_tool("llvm-cxxfilt", "llvm-cxxfilt-18", "c++filt")], input="\n".join(names) + "\n",
                           stdout=subprocess.PIPE, text=True)
        for n, x in zip(names, r.stdout.split("\n")):
            _dem[n] = x
    return _dem
