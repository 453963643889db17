"""One simulated world = one exactly repeatable execution of the real dinero.

A world is a plain dict (JSON-able apart from bytes in file contents, which are
kept as str and encoded as UTF-8 with surrogateescape so arbitrary bytes survive):

  args      argv after "dinero"
  env       environment of the process (nothing is inherited)
  cwd       working directory inside the simulated file system
  files     {absolute path: text}
  dirs      {absolute path: mode}     (parents of files are made automatically)
  links     {absolute path: target}
  modes     {absolute path: mode}     (default 0644)
  seed      hash-key seed (getrandom)
  dirseed   seed for listing order and signal arrival
  clock     [nanoseconds since the epoch, nanoseconds per step]
  tty       [mask of fds that are terminals, columns, rows]
  chunkr    read chunk sizes (cycled), chunkw write chunk sizes
  eintr     [1 in R reads is interrupted, 1 in W writes is]
  dtunknown directory entries carry no type
  faults    [[step, sticky, kind, arg], ...]
  acts      [[step, kind, path, payload], ...]   steps of concurrent processes
  alloc     [index of the failing allocation, sticky]
  limit     [steps, cpu seconds]
  ident     seed of process number, user, host, processors, inode numbers, file times and
            owners (0: plain ones)
  heap      seed of the order in which the heap hands out its blocks and what is in them
  argv0     the name the program was called by
"""
import atexit, mmap, os, shutil, signal, struct, tempfile

HDR = struct.Struct("<10I q 4I")
EV_OFF = 4096
EV_CAP = 2 << 20
OUT_OFF = EV_OFF + EV_CAP
OUT_CAP = 4 << 20
ERR_OFF = OUT_OFF + OUT_CAP
LOG_SIZE = 8 << 20
DAY = 86400 * 10**9
DEFAULT_CLOCK = 1614556800 * 10**9  # 2021-03-01T00:00:00Z


def enc(s):
    return s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s


def qp(p):
    out = []
    for b in enc(p):
        if b <= 32 or b == 37 or b > 126:
            out.append("%%%02X" % b)
        else:
            out.append(chr(b))
    return "".join(out)


def parents(p):
    out = []
    while True:
        p = p.rsplit("/", 1)[0]
        if not p:
            return out
        out.append(p)


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ("code", "sig", "out", "err", "steps", "events_raw", "nalloc", "fired",
                 "clock_reads", "clock_end", "acts_fired", "truncated", "mutations", "flags")

    @property
    def ok(self):
        return self.code == 0 and self.sig == 0

    @property
    def hung(self):
        return bool(self.flags & 1) or self.sig in (signal.SIGXCPU, signal.SIGALRM, signal.SIGKILL)

    @property
    def status(self):
        return "signal %d" % self.sig if self.sig else "exit %d" % self.code

    def events(self):
        """[(step, op, path, ret, errno)] of the faultable operations, in order."""
        r = []
        for l in self.events_raw.split(b"\n"):
            f = l.split(b" ")
            if len(f) >= 5 and f[0].isdigit():
                try:
                    r.append((int(f[0]), f[1].decode(), b" ".join(f[2:-2]).decode("utf-8", "replace"),
                              int(f[-2]), int(f[-1].lstrip(b"e"))))
                except ValueError:
                    pass
            elif len(f) >= 4 and f[0].isdigit() and f[1] == b"readdir":
                r.append((int(f[0]), "readdir", f[2].decode("utf-8", "replace"), 1, 0))
        return r

    def mutation_log(self):
        return [l.decode("utf-8", "replace") for l in self.events_raw.split(b"\n") if l.startswith(b"!")]

    def brief(self):
        return "%s, stdout %r, stderr %r" % (self.status, self.out[:600].decode("utf-8", "replace"),
                                             self.err[-300:].decode("utf-8", "replace"))


def serialise(w):
    b = []
    a = b.append
    a(b"seed %d\n" % (w.get("seed", 1)))
    a(b"dirseed %d\n" % (w.get("dirseed", 1)))
    c = w.get("clock", [DEFAULT_CLOCK, 1000])
    a(b"clock %d %d\n" % (c[0], c[1]))
    t = w.get("tty", [0, 80, 24])
    a(b"tty %d %d %d\n" % tuple(t))
    a(("cwd %s\n" % qp(w.get("cwd", "/w"))).encode())
    for k in ("chunkr", "chunkw"):
        if w.get(k):
            a(("%s %d %s\n" % (k, len(w[k]), " ".join(map(str, w[k])))).encode())
    if w.get("eintr"):
        a(b"eintr %d %d\n" % tuple(w["eintr"]))
    if w.get("dtunknown"):
        a(b"dtunknown 1\n")
    for k in ("ident", "heap"):
        if w.get(k):
            a(("%s %d\n" % (k, w[k])).encode())
    l = w.get("limit", [400000, 4])
    a(b"limit %d %d\n" % (l[0], l[1]))
    if w.get("alloc"):
        a(b"alloc %d %d\n" % tuple(w["alloc"]))
    dirs = {}
    need = list(w.get("files", {})) + list(w.get("links", {})) + [w.get("cwd", "/w") + "/x"] + [d + "/x" for d in w.get("dirs", {})]
    for act in w.get("acts", ()):
        if act[1] in "RC":
            need.append(act[2])
    for p in need:
        for q in parents(p):
            dirs.setdefault(q, 0o755)
    dirs.update(w.get("dirs", {}))
    for p in sorted(dirs):
        a(("dir %d %s\n" % (dirs[p], qp(p))).encode())
    modes = w.get("modes", {})
    if "/dev" not in dirs:
        a(b"dir 493 /dev\nfile 438 /dev/null 0\n\n")
    for p in sorted(w.get("files", {})):
        d = enc(w["files"][p])
        a(("file %d %s %d\n" % (modes.get(p, 0o644), qp(p), len(d))).encode())
        a(d)
        a(b"\n")
    for p in sorted(w.get("links", {})):
        a(("link %s %s\n" % (qp(p), qp(w["links"][p]))).encode())
    for f in w.get("faults", ()):
        if f[2] == "E" and f[3] == 4:
            f = [f[0], 0, "E", 4]   # a signal that arrives for ever would stop any program
        a(("fault %d %d %s %d\n" % tuple(f)).encode())
    for act in w.get("acts", ()):
        step, kind, path = act[0], act[1], act[2]
        if kind in "RCW":
            d = enc(act[3])
            a(("act %d %s %s %d\n" % (step, kind, qp(path), len(d))).encode())
            a(d)
            a(b"\n")
        elif kind == "M":
            a(("act %d M %s %s\n" % (step, qp(path), qp(act[3]))).encode())
        elif kind in "TK":
            a(("act %d %s %s %d\n" % (step, kind, qp(path) if path else "-", act[3])).encode())
        else:
            a(("act %d %s %s\n" % (step, kind, qp(path))).encode())
    return b"".join(b)


class Sim:
    """Runs worlds, one at a time, in a private scratch directory."""

    def __init__(self, binary, shim):
        self.binary = binary
        self.shim = shim
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="dinero-sim-", dir=base)
        self.owner = os.getpid()
        atexit.register(self.close)
        self.world = os.path.join(self.dir, "world")
        self.log = os.path.join(self.dir, "log")
        fd = os.open(self.log, os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, LOG_SIZE)
        self.map = mmap.mmap(fd, LOG_SIZE)
        os.close(fd)
        self.null = os.open("/dev/null", os.O_RDWR)
        self.runs = 0
        self.sim_ns = 0
        self.hook = None

    def close(self):
        if self.owner == os.getpid() and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, w):
        data = serialise(w)
        with open(self.world, "wb") as f:
            f.write(data)
        self.map[0:HDR.size] = b"\0" * HDR.size
        env = {enc(k): enc(v) for k, v in w.get("env", {}).items()}
        env[b"SIMOS_WORLD"] = self.world.encode()
        env[b"SIMOS_LOG"] = self.log.encode()
        env[b"LD_PRELOAD"] = self.shim.encode()
        argv = [enc(w.get("argv0", "dinero"))] + [enc(x) for x in w["args"]]
        pid = os.posix_spawn(self.binary, argv, env, file_actions=[
            (os.POSIX_SPAWN_DUP2, self.null, 0), (os.POSIX_SPAWN_DUP2, self.null, 1),
            (os.POSIX_SPAWN_DUP2, self.null, 2)])
        _, st = os.waitpid(pid, 0)
        h = HDR.unpack(self.map[0:HDR.size])
        r = Result()
        r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        r.code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        if h[0] != 0x53494d31 or not h[1] or r.code == 250:
            raise HarnessError("simulated OS did not start: %s header %r" % (r.status, h))
        r.steps, evl, outl, errl = h[2], h[3], h[4], h[5]
        r.flags, r.nalloc, r.fired, r.clock_reads = h[6], h[7], h[8], h[9]
        r.clock_end, r.acts_fired, r.truncated, r.mutations = h[10], h[11], h[12], h[13]
        m = self.map
        r.events_raw = m[EV_OFF:EV_OFF + evl]
        r.out = m[OUT_OFF:OUT_OFF + outl]
        r.err = m[ERR_OFF:ERR_OFF + errl]
        self.runs += 1
        self.sim_ns += max(0, r.clock_end - w.get("clock", [DEFAULT_CLOCK])[0])
        if self.hook:
            self.hook(w, r)
        return r
