"""Builds OpenDAX out of /repo's *current working tree* (the project's own CMake files, ASan,
pattern-initialised stack variables) plus the /verif driver, into /verif/.work/.

The build directory is named after a hash of the source files, so several checks on the same tree share
one build, and every change of the tree gets a new one."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))

CFLAGS = ("-Wno-error -w -g -O1 -fsanitize=address -fno-omit-frame-pointer "
          "-ftrivial-auto-var-init=pattern")


def _files():
    skip = {".git", "build", "docs", "tests"}
    for base, dirs, files in os.walk(REPO):
        if base == REPO:
            dirs[:] = [d for d in dirs if d not in skip]
        dirs.sort()
        for f in sorted(files):
            yield os.path.join(base, f)


def tree_hash():
    h = hashlib.sha256()
    extra = [os.path.join(VERIF, "driver", f) for f in sorted(os.listdir(os.path.join(VERIF, "driver")))]
    for p in list(_files()) + extra:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    h.update(CFLAGS.encode())
    return h.hexdigest()[:16]


class Build:
    def __init__(self, root):
        self.root = root
        b = os.path.join(root, "b", "src")
        self.tagserver = os.path.join(b, "server", "tagserver")
        self.libdir = os.path.join(b, "lib")
        self.libdax = os.path.join(b, "lib", "libdax.so")
        self.daxlua_so = os.path.join(b, "lib", "lua", "libdaxlua.so")
        self.master = os.path.join(b, "master", "opendax")
        m = os.path.join(b, "modules")
        self.daxc = os.path.join(m, "daxc", "daxc")
        self.modbus = os.path.join(m, "modbus", "daxmodbus")
        self.daxlua = os.path.join(m, "daxlua", "daxlua")
        self.mqtt = os.path.join(m, "mqtt", "daxmqtt")
        self.histlog = os.path.join(m, "histlog", "histlog")
        self.plugins = os.path.join(m, "histlog", "plugins")
        self.driver = os.path.join(root, "daxdrv")
        self.conc = os.path.join(root, "conc")
        self.luadrv = os.path.join(root, "luadrv")
        self.shim = os.path.join(root, "shim.so")
        self.mshim = os.path.join(root, "mshim.so")
        self.agent = os.path.join(root, "agent")


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw).returncode


class BuildError(Exception):
    pass


def build():
    if os.environ.get("VERIF_BUILD"):     # development only: a build made by the caller
        return Build(os.environ["VERIF_BUILD"])
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        root = os.path.join(WORK, "build-" + th)
        b = Build(root)
        if os.path.exists(os.path.join(root, "ok")):
            return b
        for d in os.listdir(WORK):
            if d.startswith("build-") and d != "build-" + th:
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        log = os.path.join(root, "build.log")
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX")}
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        rc = _run(["cmake", "-S", REPO, "-B", os.path.join(root, "b"), "-G", "Ninja",
                   "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_C_FLAGS=" + CFLAGS], log, env=env)
        if rc == 0:
            rc = _run(["ninja", "-C", os.path.join(root, "b"), "src/all"], log, env=env)
        if rc == 0:
            rc = _drivers(b, log, env)
        if rc != 0:
            sys.stderr.write(open(log, errors="replace").read()[-4000:])
            raise BuildError("build failed, see " + log)
        open(os.path.join(root, "ok"), "w").close()
        return b


def _drivers(b, log, env):
    inc = ["-I", os.path.join(REPO, "src"), "-I", os.path.join(b.root, "b"), "-I", os.path.join(b.root, "b", "src")]
    base = ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"] + inc
    rc = _run(base + ["-o", b.driver, os.path.join(VERIF, "driver", "daxdrv.c"),
                      "-L", b.libdir, "-L", os.path.join(b.libdir, "logger"), "-ldax", "-ldaxlog", "-lpthread",
                      "-Wl,-rpath," + b.libdir, "-Wl,-rpath," + os.path.join(b.libdir, "logger")], log, env=env)
    if rc == 0:
        rc = _run(base + ["-o", b.conc, os.path.join(VERIF, "driver", "conc.c"),
                          "-L", b.libdir, "-L", os.path.join(b.libdir, "logger"), "-ldax", "-ldaxlog", "-lpthread",
                          "-Wl,-rpath," + b.libdir, "-Wl,-rpath," + os.path.join(b.libdir, "logger")], log, env=env)
    if rc == 0:
        ld = ["-L", os.path.join(b.libdir, "lua"), "-L", b.libdir, "-L", os.path.join(b.libdir, "logger"), "-ldaxlua", "-ldax", "-ldaxlog",
              "-llua5.4", "-lpthread"] + ["-Wl,-rpath," + d for d in (os.path.join(b.libdir, "lua"), b.libdir, os.path.join(b.libdir, "logger"))]
        rc = _run(base + ["-o", b.luadrv, os.path.join(VERIF, "driver", "luadrv.c")] + ld, log, env=env)
    if rc == 0:
        rc = _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", b.shim, os.path.join(VERIF, "driver", "shim.c"), "-ldl"], log, env=env)
    if rc == 0:
        rc = _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", b.mshim, os.path.join(VERIF, "driver", "mshim.c"), "-ldl"], log, env=env)
    if rc == 0:
        rc = _run(["gcc", "-O1", "-w", "-o", b.agent, os.path.join(VERIF, "driver", "agent.c")], log, env=env)
    return rc


if __name__ == "__main__":
    print(build().root)
