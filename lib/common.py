"""Builds UASM from /repo's working tree, runs it, and small shared helpers."""
import hashlib, os, re, shutil, signal, subprocess, sys, tempfile, atexit, resource
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = VERIF + "/shim"
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")

_tmproot = None


def tmproot():
    """One scratch directory per run; removed at exit (by the process that made it)."""
    global _tmproot
    if _tmproot is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 1 << 30:
                base = "/tmp"
        except OSError:
            base = "/tmp"
        _tmproot = tempfile.mkdtemp(prefix="uv.", dir=base)
        me = os.getpid()

        def clean():
            if os.getpid() == me:
                shutil.rmtree(_tmproot, ignore_errors=True)
        atexit.register(clean)
    return _tmproot


KINDS = {
    # optimisation kept low: build time matters more than run time here
    "o1": (["gcc"], ["-g", "-O1"], True),
    "asan": (["gcc"], ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], True),
    "ubsan": (["gcc"], ["-g", "-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"], True),
    "msan": (["clang"], ["-g", "-O1", "-std=gnu89", "-Wno-everything", "-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"], True),
    "cov": (["gcc"], ["-g", "-O0", "--coverage"], True),
    "win": (["x86_64-w64-mingw32-gcc"], ["-O2", "-D__NT__"], False),
}


def sources():
    """The object list of the project's own gccmod.inc, plus main."""
    txt = open(REPO + "/gccmod.inc").read()
    names = re.findall(r"\$\(OUTD\)/(\w+)\.o", txt)
    return ["main"] + names


def srchash(extra=""):
    h = hashlib.sha1(extra.encode())
    for d in (REPO, REPO + "/H", SHIM):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h", ".inc")):
                h.update(f.encode())
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(kind="o1"):
    """Compile /repo's current tree out of tree; returns the path of the program."""
    cc, flags, native = KINDS[kind]
    key = srchash(kind + " ".join(flags))
    out = os.path.join(VERIF, ".build", kind + "-" + key)
    exe = out + "/uasm" + ("" if native else ".exe")
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    common = ["-c", "-fcommon", "-w", "-DNDEBUG", "-I" + REPO + "/H"]

    def one(n):
        a = cc + flags + common
        if native:
            a += ["-funsigned-char", "-include", SHIM + "/prelude.h", "-I" + SHIM]
        if n == "dbgcv":
            a += ["-funsigned-char", "-include", SHIM + "/dbgcv_prelude.h"]
        if n == "memalloc" and native:
            a += ["-include", SHIM + "/memalloc_prelude.h"]
        a += ["-o", tmp + "/" + n + ".o", REPO + "/" + n + ".c"]
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
        return p.returncode, n, p.stdout.decode("latin1")
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, n, o in ex.map(one, sources()):
            if rc:
                raise SystemExit("build of %s (%s) failed:\n%s" % (n, kind, o[-2000:]))
    objs = [tmp + "/" + n + ".o" for n in sources()]
    a = cc + flags + ["-w"] + objs
    if native:
        a += ["-DFIXED_TIME", SHIM + "/shim.c"]
    a += ["-o", tmp + "/" + os.path.basename(exe)]
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    if p.returncode:
        raise SystemExit("link (%s) failed:\n%s" % (kind, p.stdout.decode("latin1")[-2000:]))
    if kind != "cov":
        for o in objs:
            os.unlink(o)
    # keep the newest few builds only
    root = os.path.join(VERIF, ".build")
    try:
        os.rename(tmp, out)
    except OSError:      # somebody else built it meanwhile
        shutil.rmtree(tmp, ignore_errors=True)
    old = sorted((d for d in os.listdir(root) if d.startswith(kind + "-") and ".tmp" not in d),
                 key=lambda d: os.path.getmtime(os.path.join(root, d)))
    for d in old[:-3]:
        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    return exe


ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C", "TZ": "UTC",
       "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:handle_segv=0:allow_user_segv_handler=1:abort_on_error=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
       "MSAN_OPTIONS": "halt_on_error=1:handle_segv=0:allow_user_segv_handler=1:exitcode=98:handle_abort=0:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0"}


class Result:
    __slots__ = ("rc", "out", "dir", "timeout")

    def __init__(self, rc, out, d, timeout=False):
        self.rc, self.out, self.dir, self.timeout = rc, out, d, timeout

    def file(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    @property
    def text(self):
        return re.sub(r"\x1b\[[0-9;]*m", "", self.out.decode("latin1"))

    def errors(self):
        """[(file, line, severity, code, message)] as printed."""
        r = []
        for l in self.text.splitlines():
            m = re.match(r"^(?:(.*?)(?:\((\d+)\))? : )?(Fatal error|Error|Warning) A(\d+): (.*)$", l)
            if m:
                r.append((m.group(1), int(m.group(2) or 0), m.group(3), int(m.group(4)), m.group(5)))
        return r


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


class Runner:
    """Runs programs in a private scratch directory."""

    def __init__(self, exe, name="r"):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix=name, dir=tmproot())
        self.n = 0

    def clean(self):
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def write(self, files):
        for n, t in files.items():
            p = os.path.join(self.dir, n)
            if "/" in n:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("latin1"))
            os.utime(p, (1700000000, 1700000000))  # OMF line numbers name the file's time

    def asm(self, src=None, opts=("-bin",), files=None, name="t.asm", clean=True, timeout=60, env=None, exe=None, quiet=True):
        if clean:
            self.clean()
        fs = dict(files or {})
        if src is not None:
            fs[name] = src
        self.write(fs)
        args = [exe or self.exe] + (["-q"] if quiet else []) + list(opts)
        if src is not None:
            args.append(name)
        return self.run(args, timeout, env)

    def run(self, args, timeout=60, env=None, stdin=subprocess.DEVNULL):
        e = ENV if env is None else {**ENV, **env}
        try:
            p = subprocess.run(args, cwd=self.dir, stdin=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, env=e)
            return Result(p.returncode, p.stdout, self.dir)
        except subprocess.TimeoutExpired as x:
            return Result(-999, x.stdout or b"", self.dir, True)


def hexs(b):
    return b.hex() if b is not None else "None"
