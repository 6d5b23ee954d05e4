"""Builds the C++ runtime of the current working tree: LLVM IR for the verifier, and a sanitized driver for replay and search."""
import os
import subprocess
from . import jbuild
from .jbuild import _cached, _files, _run, repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = ["BitStreamReader", "BitStreamWriter", "BitSizeOfCalculator", "FloatUtil", "BitFieldUtil", "BuiltInOperators", "SizeConvertUtil"]


def root():
    return os.path.join(repo(), "compiler/extensions/cpp/runtime/src")


def _inputs():
    return _files(root(), suffix=".h") + _files(root(), suffix=".cpp") + _files(os.path.join(VERIF, "cpp"))


def ir():
    """Directory with one .ll file per translation unit."""
    def make(dest):
        jobs = []
        for s in [os.path.join(root(), "zserio", x + ".cpp") for x in SOURCES] + [os.path.join(VERIF, "cpp", "harness.cpp")]:
            out = os.path.join(dest, os.path.basename(s)[:-4] + ".ll")
            jobs.append((s, subprocess.Popen(["clang++", "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-S",
                                              "-emit-llvm", "-I" + root(), s, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in jobs:
            o = p.communicate()[0]
            if p.returncode != 0:
                raise RuntimeError("clang++ %s failed:\n%s" % (s, o[-3000:]))
    return _cached("cir", _inputs(), make)


def driver():
    """The sanitized driver executable."""
    def make(dest):
        src = [os.path.join(root(), "zserio", x + ".cpp") for x in SOURCES + ["CppRuntimeException"]] + \
            [os.path.join(VERIF, "cpp", "harness.cpp"), os.path.join(VERIF, "cpp", "driver.cpp")]
        jobs = []
        objs = []
        for s in src:
            o = os.path.join(dest, os.path.basename(s)[:-4] + ".o")
            objs.append(o)
            jobs.append((s, subprocess.Popen(["clang++", "-std=c++11", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                              "-I" + root(), "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in jobs:
            t = p.communicate()[0]
            if p.returncode != 0:
                raise RuntimeError("clang++ %s failed:\n%s" % (s, t[-3000:]))
        _run(["clang++", "-fsanitize=address,undefined"] + objs + ["-o", os.path.join(dest, "driver")])
    return os.path.join(_cached("cdrv", _inputs(), make), "driver")


_MODS = {}


def modules():
    d = ir()
    if d not in _MODS:
        from . import llvm
        _MODS.clear()
        _MODS[d] = [llvm.Module(os.path.join(d, f)) for f in sorted(os.listdir(d), key=lambda x: (x != "harness.ll", x)) if f.endswith(".ll")]
    return _MODS[d]
