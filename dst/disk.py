"""Control of the simulated disk (native/simio.c, loaded with LD_PRELOAD) and of scratch directories."""
import ctypes
import errno
import hashlib
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN, READ, WRITE, CLOSE, TRUNC, SYNC, RENAME, UNLINK, MKDIR, RMDIR, CREATE = (1 << k for k in range(11))
ANY = (1 << 12) - 1
MODIFY = WRITE | TRUNC | RENAME | UNLINK | MKDIR | RMDIR | CREATE | CLOSE | SYNC
ERRNO, SHORT, TORN, EXIT, TORNEXIT, EOF, FULL, DIE = range(1, 9)
ACTS = {"errno": ERRNO, "short": SHORT, "torn": TORN, "exit": EXIT, "tornexit": TORNEXIT, "eof": EOF, "full": FULL}
OPS = {"open": OPEN, "read": READ, "write": WRITE, "close": CLOSE, "trunc": TRUNC, "sync": SYNC, "rename": RENAME, "unlink": UNLINK,
       "mkdir": MKDIR, "rmdir": RMDIR, "create": CREATE, "any": ANY, "modify": MODIFY}
CRASHED = 77
ROOT = None
_lib = None


def preload():
    """Re-execute the interpreter with the seam in place (compiled from native/simio.c when needed)."""
    if os.environ.get("DST_SIMIO"):
        return
    src = os.path.join(HERE, "native", "simio.c")
    h = hashlib.blake2b(open(src, "rb").read(), digest_size=8).hexdigest()
    for base in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "dst-build-%d" % os.getuid())):
        so = os.path.join(base, "simio-%s.so" % h)
        try:
            if not os.path.exists(so):
                os.makedirs(base, exist_ok=True)
                tmp = "%s.%d" % (so, os.getpid())
                subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
                os.replace(tmp, so)
            break
        except OSError:
            continue
    os.environ["LD_PRELOAD"] = so
    os.environ["DST_SIMIO"] = so
    os.execv(sys.executable, [sys.executable, "-m", "dst.cli"] + sys.argv[1:])


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["DST_SIMIO"])
        _lib.simio_hash.restype = ctypes.c_ulonglong
        _lib.simio_log.restype = ctypes.c_char_p
        _lib.simio_ops.restype = ctypes.c_long
        _lib.simio_total_fired.restype = ctypes.c_long
        _lib.simio_capacity.argtypes = [ctypes.c_long]
        _lib.simio_start.argtypes = [ctypes.c_char_p]
    return _lib


def setup():
    """Scratch root shared by all runs of this process (removed by cleanup())."""
    global ROOT
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    ROOT = tempfile.mkdtemp(prefix="dst-", dir=base)
    lib()


def cleanup():
    if ROOT and os.path.basename(ROOT).startswith("dst-"):
        shutil.rmtree(ROOT, ignore_errors=True)


class Disk:
    """One simulated disk: a directory of this run."""

    def __init__(self, seed=0):
        self.dir = os.path.join(ROOT, "r%d" % os.getpid())
        os.mkdir(self.dir)
        self.L = lib()
        self.L.simio_start(self.dir.encode())
        # temporary names and directories come from the simulation
        class Names:
            def __init__(s):
                s.r = random.Random(seed)

            def __iter__(s):
                return s

            def __next__(s):
                return "".join(s.r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))
        tempfile._name_sequence = Names()
        tempfile.tempdir = os.path.join(self.dir, "tmp")
        os.mkdir(tempfile.tempdir)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def rule(self, slot, op, nth, act, err="EIO", sticky=False, arg=500):
        self.L.simio_rule(slot, OPS[op], int(nth), ACTS[act], getattr(errno, err) if isinstance(err, str) else err, int(bool(sticky)), int(arg))

    def apply(self, rules):
        for k, r in enumerate(rules):
            self.rule(k, r["op"], r["nth"], r["act"], r.get("err", "EIO"), r.get("sticky", False), r.get("arg", 500))

    def capacity(self, n):
        self.L.simio_capacity(n)

    def heal(self):
        self.L.simio_clear()

    def fired(self):
        return self.L.simio_total_fired()

    def fired_by(self, slot):
        return self.L.simio_fired(slot)

    def seen(self, slot):
        """How many operations matched this rule."""
        return self.L.simio_seen(slot)

    def ops(self):
        return self.L.simio_ops()

    def hash(self):
        return self.L.simio_hash()

    def log(self):
        return self.L.simio_log().decode("utf-8", "replace")

    def open_files(self, below=None):
        """Descriptors of this process that refer to files of the disk."""
        below = below or self.dir
        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if t.startswith(below):
                out.append(t[len(self.dir) + 1:])
        return sorted(out)

    def close(self):
        self.L.simio_stop()
        shutil.rmtree(self.dir, ignore_errors=True)
