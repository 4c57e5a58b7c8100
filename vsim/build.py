"""Builds the simulator from /repo's working tree in a private scratch folder."""
import os, shutil, subprocess, sys, tempfile, atexit, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")


class BootError(Exception):
    pass


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS", "ENABLE_ASAN", "ENABLE_TSAN", "CORA_SRC_DIR", "CORADEBUG"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       shell=isinstance(cmd, str))
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (cmd, r.returncode, r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def copy_tree(dst):
    """Copies the sources (no build products) of the working tree."""
    skip_ext = (".o", ".so", ".a", ".d")
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = [d for d in dirs if d not in (".git", ".deps", "test", "example", "doc", "tools", ".corapath")]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            if f.endswith(skip_ext) or (rel == "." and f == "cora"):
                continue
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            shutil.copy2(p, os.path.join(dst, rel, f))


class Build:
    def __init__(self, keep=False, opt="-O1", san="", bare=False, docs=False):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > (1 << 30) else None
        self.dir = tempfile.mkdtemp(prefix="vsim-", dir=os.environ.get("VSIM_TMP", base))
        if not keep:
            atexit.register(self.clean, os.getpid())
        self.src = os.path.join(self.dir, "cora")
        copy_tree(self.src)
        cf = "-g %s -w -fPIC -DCORA_SIM -fno-omit-frame-pointer %s" % (opt, san)
        jobs = []
        # libcora.so, init.so and the C libraries through the repository's own makefiles
        sh(["make", "CC=gcc", "CFLAGS=" + cf, "-C", "src", "libcora.so"], self.src)
        jobs.append(subprocess.Popen(["gcc", "-shared", "-o", "init.so", "-g", "-w", "-fPIC", "init.c", "-Isrc", "-I.",
                                      "-Lsrc", "-lcora"], cwd=self.src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        jobs.append(subprocess.Popen(["make", "-j8", "CC=gcc", "CFLAGS=-I%s/src %s" % (self.src, cf.replace(opt, "-O0")), "-C", "lib", "all"], cwd=self.src,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        sim = os.path.join(self.dir, "simcora")
        extra = []
        if bare:
            # the program's own main(), with the start of the runtime and the reading of a form seen by the simulator
            o = os.path.join(self.dir, "main.o")
            sh(["gcc"] + cf.split() + ["-Dmain=coraMain", "-DcoraInit=simCoraInit", "-DsexpRead=simSexpRead", "-I", "src", "-I", ".", "-c", "main.c", "-o", o], self.src)
            extra = ["-DSIM_BARE", o]
        srcs = sorted(glob.glob(os.path.join(VERIF, "sim", "*.c")))
        jobs.append(subprocess.Popen(
            ["gcc", "-g", "-O2", "-w", "-fPIC", "-rdynamic", "-DCORA_SIM", "-I", os.path.join(self.src, "src"), "-I",
             os.path.join(VERIF, "sim")] + san.split() + srcs + extra +
            ["-o", sim, "-L", os.path.join(self.src, "src"), "-Wl,-rpath," + os.path.join(self.src, "src"), "-Wl,--no-as-needed", "-lcora",
             "-ldl", "-lm"], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        if docs:
            # the wrappers of the two document parsers, with the commands of lib/Makefile and lib/md4c/Makefile
            lib = os.path.join(self.src, "lib")
            for out, srcs, l, cwd in (("json.so", ["json.c"], ["-ljansson"], lib),
                                      ("include.so", ["wrap.c", "md4c.c"], ["-I."], os.path.join(lib, "md4c"))):
                jobs.append(subprocess.Popen(["gcc", "-shared", "-o", out] + cf.split() + srcs + ["-I" + os.path.join(self.src, "src"),
                                             "-L" + os.path.join(self.src, "src"), "-lcora"] + l, cwd=cwd,
                                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        bad = []
        for j in jobs:
            o, _ = j.communicate(timeout=600)
            if j.returncode:
                bad.append("%s: %s" % (j.args, o.decode(errors="replace")[-3000:]))
        if bad:
            raise BuildError("\n".join(bad))
        self.sim = sim
        self.corapath = os.path.join(self.dir, "corapath")
        os.makedirs(os.path.join(self.corapath, "pkg"))
        os.symlink(self.src, os.path.join(self.corapath, "pkg", "cora"))
        w = os.path.join(self.corapath, "pkg", "work")
        shutil.copytree(os.path.join(VERIF, "work"), w)
        from . import gen_work
        gen_work.generate(w)
        os.makedirs(os.path.join(self.dir, "tmp"))
        # products made from .c must be newer than the .cora beside them
        for so in [os.path.join(self.src, "init.so")] + glob.glob(os.path.join(self.src, "lib", "**", "*.so"), recursive=True):
            os.utime(so)

    def env(self):
        return {"CORAPATH": self.corapath + "/", "SIM_REAL_TMP": os.path.join(self.dir, "tmp"), "LC_ALL": "C",
                "LD_LIBRARY_PATH": os.path.join(self.src, "src")}

    def warm(self, modules):
        """Compile every workload module once (real toc + gcc), so that later boots only load .so files."""
        try:
            r = subprocess.run([self.sim, self.dir] + [m for m in modules if m[0] != "@"], cwd=self.dir, env={**os.environ, **self.env()},
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired:
            raise BootError("boot timed out")
        if b"READY" not in r.stdout:
            raise BootError("boot failed rc=%d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-3000:]))

    def clean(self, pid=None):
        if pid is not None and pid != os.getpid():
            return
        d = self.dir
        if d and os.path.basename(d).startswith("vsim-") and not os.environ.get("VSIM_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
