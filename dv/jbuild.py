"""Builds the Java parts of /repo (compiler core, Python extension, Java runtime) from the current working
tree into a git-ignored cache under /verif/out, keyed by the content of the sources. Nothing is written
below /repo."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import time


OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "out", "jb")


def repo():
    return os.environ.get("DV_REPO", "/repo")


def _files(*roots, suffix=None):
    res = []
    for r in roots:
        if os.path.isfile(r):
            res.append(r)
            continue
        for d, dirs, fs in os.walk(r):
            dirs.sort()
            for f in sorted(fs):
                if suffix is None or f.endswith(suffix):
                    res.append(os.path.join(d, f))
    return res


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, repo()).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(args, cwd=None):
    r = subprocess.run(args, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (" ".join(args[:6]), (r.stdout + r.stderr)[-3000:]))
    return r.stdout


def _cached(name, inputs, make):
    """make(dir) fills dir; returns the finished directory for this content."""
    os.makedirs(OUT, exist_ok=True)
    dest = os.path.join(OUT, "%s-%s" % (name, _digest(inputs)))
    with open(os.path.join(OUT, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            os.utime(dest)
            return dest
        old = sorted((os.path.join(OUT, d) for d in os.listdir(OUT)
                      if d.startswith(name + "-") and os.path.isdir(os.path.join(OUT, d))), key=os.path.getmtime)
        for d in old[:-3]:
            if time.time() - os.path.getmtime(d) > 1800:     # a check running now may still read it
                shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        make(dest)
        open(os.path.join(dest, ".done"), "w").close()
    return dest


def jars():
    d = os.path.join(repo(), "3rdparty/java")
    return [os.path.join(d, j) for j in ("antlr-4.7.2-complete.jar", "freemarker-2.3.28.jar", "commons-cli-1.4.jar")]


def core():
    """Directory with the compiled compiler core (classes below it)."""
    base = os.path.join(repo(), "compiler/core")
    inputs = _files(os.path.join(base, "antlr"), os.path.join(base, "src"))

    def make(dest):
        gen = os.path.join(dest, "gen", "zserio", "antlr")
        os.makedirs(gen)
        for g in ("ZserioLexer.g4", "ZserioParser.g4", "DocComment.g4"):
            # the tool puts its output below the grammar's relative path: run it on copies
            src = os.path.join(dest, "g4", g)
            os.makedirs(os.path.dirname(src), exist_ok=True)
            shutil.copy(os.path.join(base, "antlr", g), src)
        for g in ("ZserioLexer.g4", "ZserioParser.g4", "DocComment.g4"):
            _run(["java", "-cp", jars()[0], "org.antlr.v4.Tool", "-o", gen, "-lib", gen, "-package", "zserio.antlr",
                  "-no-listener", "-visitor", g], cwd=os.path.join(dest, "g4"))
        classes = os.path.join(dest, "classes")
        os.makedirs(classes)
        src = _files(os.path.join(base, "src"), gen, suffix=".java")
        with open(os.path.join(dest, "files"), "w") as f:
            f.write("\n".join(src))
        _run(["javac", "-g", "-nowarn", "-encoding", "utf8", "--release", "8", "-Xlint:-options", "-d", classes,
              "-cp", ":".join(jars()), "@" + os.path.join(dest, "files")])
    return _cached("core", inputs, make)


def extension(name):
    base = os.path.join(repo(), "compiler/extensions", name)
    c = core()
    inputs = _files(os.path.join(base, "src"), os.path.join(base, "freemarker"), os.path.join(base, "metainf"),
                    os.path.join(c, "files")) + _files(os.path.join(repo(), "compiler/core/src"),
                                                       os.path.join(repo(), "compiler/core/antlr"))
    inputs = [f for f in inputs if not f.startswith(OUT)]

    def make(dest):
        classes = os.path.join(dest, "classes")
        os.makedirs(classes)
        src = _files(os.path.join(base, "src"), suffix=".java")
        with open(os.path.join(dest, "files"), "w") as f:
            f.write("\n".join(src))
        _run(["javac", "-g", "-nowarn", "-encoding", "utf8", "--release", "8", "-Xlint:-options", "-d", classes,
              "-cp", ":".join(jars() + [os.path.join(c, "classes")]), "@" + os.path.join(dest, "files")])
        shutil.copytree(os.path.join(base, "freemarker"), os.path.join(classes, "freemarker", name))
        shutil.copytree(os.path.join(base, "metainf"), os.path.join(classes, "META-INF"))
    return _cached("ext_" + name, inputs, make)


def java_runtime():
    base = os.path.join(repo(), "compiler/extensions/java/runtime/src")
    inputs = [f for f in _files(base, suffix=".java")]

    def make(dest):
        classes = os.path.join(dest, "classes")
        os.makedirs(classes)
        with open(os.path.join(dest, "files"), "w") as f:
            f.write("\n".join(inputs))
        _run(["javac", "-g", "-nowarn", "-encoding", "utf8", "--release", "8", "-Xlint:-options", "-d", classes,
              "@" + os.path.join(dest, "files")])
    return _cached("jrt", inputs, make)


def generate_python(schema_dir, main, args=()):
    """Runs the compiler on schema_dir/main; returns the directory with the generated Python packages."""
    c = core()
    x = extension("python")
    inputs = _files(schema_dir)

    def make(dest):
        _run(["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-cp",
              ":".join([os.path.join(c, "classes"), os.path.join(x, "classes")] + jars()),
              "zserio.tools.ZserioTool", "-src", schema_dir, "-python", os.path.join(dest, "py"), *args, main])
    h = hashlib.sha256(("%s|%s|%s|%s" % (c, x, main, args)).encode()).hexdigest()[:10]
    return os.path.join(_cached("gen_%s_%s" % (os.path.splitext(main)[0].replace("/", "_"), h), inputs, make), "py")
