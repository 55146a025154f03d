"""Build the simulator's native parts and an instrumented copy of the compiled kernels from /repo's working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import time

from .paths import REPO, BUILD, PYTHON, VERIF

FLAGS = "-O1 -fsanitize-coverage=trace-pc"


def _sources():
    out = []
    kd = os.path.join(REPO, "geoana", "kernels")
    for root, dirs, files in os.walk(kd):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".cpp", ".c", ".h", ".hpp", "meson.build", ".in")) or f == "__init__.py":
                out.append(os.path.join(root, f))
    for f in ("meson.build", "meson.options", "meson_options.txt", "geoana/meson.build"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    nd = os.path.join(VERIF, "sim", "native")
    out += [os.path.join(nd, f) for f in sorted(os.listdir(nd))]
    out.append(os.path.abspath(__file__))
    return out


def key():
    h = hashlib.sha256()
    for p in _sources():
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def _run(cmd, env, log, cwd=None):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=f, env=env, cwd=cwd)
    if r.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), tail))


def ensure():
    """Return the directory with libsim.so, libsimnew.so, simalloc*.so and ext/*.so."""
    os.makedirs(BUILD, exist_ok=True)
    k = key()
    out = os.path.join(BUILD, k)
    done = os.path.join(out, "done.json")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return out
        # drop older builds: disk space is limited
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "ext"))
        log = os.path.join(out, "build.log")
        nd = os.path.join(VERIF, "sim", "native")
        env = dict(os.environ)
        for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
            env.pop(v, None)
        env["CCACHE_DISABLE"] = "1"
        env["PATH"] = os.path.dirname(PYTHON) + ":" + env.get("PATH", "")
        env.setdefault("SETUPTOOLS_SCM_PRETEND_VERSION", "0.0.0+sim")
        lib, libn = os.path.join(out, "libsim.so"), os.path.join(out, "libsimnew.so")
        _run(["gcc", "-O2", "-shared", "-fPIC", "-o", lib, os.path.join(nd, "libsim.c"), "-lpthread"], env, log)
        _run(["g++", "-O2", "-shared", "-fPIC", "-o", libn, os.path.join(nd, "libsimnew.cpp")], env, log)
        inc = sysconfig.get_paths()["include"]
        import numpy
        _run(["gcc", "-O2", "-shared", "-fPIC", "-I", inc, "-I", numpy.get_include(),
              "-o", os.path.join(out, "simalloc" + sysconfig.get_config_var("EXT_SUFFIX")),
              os.path.join(nd, "simalloc.c")], env, log)
        menv = dict(env)
        menv["CFLAGS"] = menv["CXXFLAGS"] = FLAGS
        menv["LDFLAGS"] = "-Wl,-rpath,%s -Wl,--no-as-needed %s %s" % (out, libn, lib)
        md = os.path.join(out, "meson")
        _run(["meson", "setup", md, REPO, "-Dwith_extensions=true", "-Dbuildtype=plain", "-Db_lundef=false"], menv, log)
        _run(["ninja", "-C", md], menv, log)
        n = 0
        for root, _, files in os.walk(os.path.join(md, "geoana")):
            for f in files:
                if f.endswith(".so"):
                    shutil.copy(os.path.join(root, f), os.path.join(out, "ext", f))
                    n += 1
        shutil.rmtree(md, ignore_errors=True)
        if n < 2:
            raise RuntimeError("instrumented build produced %d extension modules" % n)
        with open(done, "w") as f:
            json.dump({"key": k, "flags": FLAGS}, f)
    return out


if __name__ == "__main__":
    t = time.time()
    print(ensure(), "%.1fs" % (time.time() - t))
