"""Shared machinery: building instrumented copies of /repo, running the real
server, speaking RESP to it, running TLC, writing evidence and verdicts."""
import json, mmap, os, random, re, shutil, socket, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SHIM = os.path.join(VERIF, "tools", "shim")
BASE_MS = 1_000_000_000          # the controlled clock starts here (fits TLC's integers)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))


class Inconclusive(Exception):
    """The machinery itself failed: no verdict."""


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif_")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, cwd=None, env=None, timeout=300, what="command"):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{what} timed out")
    return p


def build_instr(scr):
    out = scr.path("instr")
    if not os.path.exists(out):
        p = run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "tools", "instr"), env=go_env(), what="go build instr")
        if p.returncode:
            raise Inconclusive("building instr: " + p.stderr.decode()[-2000:])
    return out


def module_name():
    for l in open(os.path.join(REPO, "go.mod")):
        f = l.split()
        if len(f) == 2 and f[0] == "module":
            return f[1]
    raise Inconclusive("no module name")


def shim(name, dst, mod):
    s = open(os.path.join(SHIM, name)).read().replace('"gRedis/', '"%s/' % mod)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(s)


def build_server(scr, race=False):
    """The real server, with a controllable clock."""
    out = scr.path("server-race" if race else "server")
    if os.path.exists(out):
        return out
    src = scr.path("src-clock")
    if not os.path.exists(src):
        p = run([build_instr(scr), "clock", REPO, src], what="instr")
        if p.returncode:
            raise Inconclusive("instr: " + p.stderr.decode()[-2000:])
        mod = module_name()
        shim("vtime_clock.go.txt", os.path.join(src, "zzv", "vtime", "clock.go"), mod)
        shim("main_status.go.txt", os.path.join(src, "zz_status.go"), mod)
    p = run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=go_env(), what="go build server")
    if p.returncode:
        raise Inconclusive("building the instrumented server: " + p.stderr.decode()[-3000:])
    return out


def build_plain(scr):
    """The server exactly as it is in the repository."""
    out = scr.path("server-plain")
    if not os.path.exists(out):
        p = run(["go", "build", "-o", out, "."], cwd=REPO, env=go_env(), what="go build")
        if p.returncode:
            raise Inconclusive("building the server: " + p.stderr.decode()[-3000:])
    return out


def build_sched(scr):
    """The store under the controlled scheduler, with the scenario runner."""
    out = scr.path("sched")
    if os.path.exists(out):
        return out
    src = scr.path("src-sched")
    p = run([build_instr(scr), "sched", REPO, src], what="instr")
    if p.returncode:
        raise Inconclusive("instr: " + p.stderr.decode()[-2000:])
    mod = module_name()
    shim("vtime_clock.go.txt", os.path.join(src, "zzv", "vtime", "clock.go"), mod)
    shim("sched.go.txt", os.path.join(src, "zzv", "sched", "sched.go"), mod)
    shim("vsync.go.txt", os.path.join(src, "zzv", "vsync", "vsync.go"), mod)
    shim("harness.go.txt", os.path.join(src, "zz_harness.go"), mod)
    p = run(["go", "build", "-o", out, "."], cwd=src, env=go_env(), what="go build sched")
    if p.returncode:
        raise Inconclusive("building the scheduled store: " + p.stderr.decode()[-3000:])
    return out


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class ServerGone(Exception):
    pass


class Hang(Exception):
    pass


class BadReply(Exception):
    pass


class Server:
    def __init__(self, scr, binary, dbnum=16, segnum=100, args=None, wait=True, env=None, host="127.0.0.1"):
        self.dir = tempfile.mkdtemp(prefix="srv_", dir=scr.dir)
        self.clockfile = os.path.join(self.dir, "clock")
        with open(self.clockfile, "wb") as f:
            f.write(b"\0" * 4096)
        self._f = open(self.clockfile, "r+b")
        self.mm = mmap.mmap(self._f.fileno(), 4096)
        self.set_clock(BASE_MS)
        self.binary = binary
        for attempt in range(5):
            self.port = free_port()
            e = dict(os.environ, VCLOCK=self.clockfile, GOTRACEBACK="all")
            e.update(env or {})
            self.err = open(os.path.join(self.dir, "stderr"), "wb")
            self.proc = subprocess.Popen(
                [binary, "-host", host, "-port", str(self.port), "-dbnum", str(dbnum), "-segnum", str(segnum),
                 "-logdir", self.dir, "-loglevel", "error"] + (args or []),
                cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err)
            if not wait or self.wait_up():
                return
            self.stop()
        raise Inconclusive("the server does not start: " + self.stderr()[-1500:])

    def wait_up(self, timeout=20):
        end = time.time() + timeout
        while time.time() < end:
            if self.proc.poll() is not None:
                return False
            try:
                s = socket.create_connection(("127.0.0.1", self.port), timeout=1)
                s.close()
                return True
            except OSError:
                time.sleep(0.01)
        return False

    def set_clock(self, ms):
        self.mm[0:8] = struct.pack("<q", ms)

    def goroutines(self):
        """number of goroutines, freshly measured"""
        b = struct.unpack("<q", self.mm[16:24])[0]
        end = time.time() + 5
        while struct.unpack("<q", self.mm[16:24])[0] < b + 2:
            if time.time() > end or self.proc.poll() is not None:
                raise ServerGone("status goroutine silent")
            time.sleep(0.002)
        return struct.unpack("<q", self.mm[8:16])[0]

    def alive(self):
        return self.proc.poll() is None

    def stderr(self):
        self.err.flush()
        return open(os.path.join(self.dir, "stderr"), "rb").read().decode("utf8", "replace")

    def crash_text(self):
        t = self.stderr()
        m = re.search(r"(panic:|fatal error:|runtime:).*", t)
        where = re.findall(r"\n\t\S*/((?:memdb|server|resp|util|config)/\S+?:\d+)", t)
        return (m.group(0) if m else "exit status %s" % self.proc.poll()) + (" at " + where[0] if where else "")

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.err.close()

    def conn(self, timeout=20):
        return Conn(self, timeout)


def enc(args):
    out = [b"*%d\r\n" % len(args)]
    for a in args:
        if isinstance(a, str):
            a = a.encode("latin-1")
        out.append(b"$%d\r\n" % len(a))
        out.append(a)
        out.append(b"\r\n")
    return b"".join(out)


class Conn:
    def __init__(self, srv, timeout=20):
        self.srv = srv
        try:
            self.s = socket.create_connection(("127.0.0.1", srv.port), timeout=timeout)
        except OSError as e:
            if not srv.alive():
                raise ServerGone(srv.crash_text())
            raise Hang("no connection: %s" % e)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.pos = 0

    def close(self):
        self.s.close()

    def send(self, data):
        try:
            self.s.sendall(data)
        except socket.timeout:
            raise Hang("send blocked")
        except OSError as e:
            self._gone(e)

    def _gone(self, e):
        end = time.time() + 2
        while self.srv.alive() and time.time() < end:
            time.sleep(0.01)
        if not self.srv.alive():
            raise ServerGone(self.srv.crash_text())
        raise BadReply("connection closed by the server (%s)" % e)

    def _fill(self):
        try:
            d = self.s.recv(1 << 16)
        except socket.timeout:
            raise Hang("no reply")
        except OSError as e:
            self._gone(e)
        if not d:
            self._gone("EOF")
        self.buf = self.buf[self.pos:] + d
        self.pos = 0

    def _line(self):
        while True:
            i = self.buf.find(b"\r\n", self.pos)
            if i >= 0:
                l = self.buf[self.pos:i]
                self.pos = i + 2
                return l
            if len(self.buf) - self.pos > (1 << 20):
                raise BadReply("line too long")
            self._fill()

    def _take(self, n):
        while len(self.buf) - self.pos < n:
            self._fill()
        d = self.buf[self.pos:self.pos + n]
        self.pos += n
        return d

    def reply(self, nested=False):
        """one reply in the specification's notation: a list of str"""
        l = self._line()
        t, v = l[:1], l[1:]
        if t == b"+":
            return ["s", tostr(v)]
        if t == b"-":
            return ["e"]
        if t == b":":
            if not re.fullmatch(rb"-?\d+", v):
                raise BadReply("malformed integer %r" % l)
            return ["i", tostr(v)]
        if t == b"$":
            if v == b"-1":
                return ["n"]
            if not re.fullmatch(rb"\d+", v):
                raise BadReply("malformed bulk length %r" % l)
            d = self._take(int(v) + 2)
            if d[-2:] != b"\r\n":
                raise BadReply("bulk string not terminated")
            return ["b", tostr(d[:-2])]
        if t == b"*":
            if v == b"-1":
                return ["a"]
            if not re.fullmatch(rb"\d+", v) or nested:
                raise BadReply("malformed array %r" % l)
            out = ["a"]
            for _ in range(int(v)):
                r = self.reply(nested=True)
                out.append({"s": "+", "e": "-", "i": ":", "b": "$", "n": "_", "a": "*"}[r[0]] + (r[1] if len(r) > 1 else ""))
            return out
        raise BadReply("not a RESP value: %r" % l[:40])

    def cmd(self, *args):
        self.send(enc(args))
        return self.reply()


_TO = [chr(b) if 0x20 <= b <= 0x7e else chr(0x100 + b) for b in range(256)]
_FROM = {c: i for i, c in enumerate(_TO)}


def tostr(b):
    """bytes -> specification string (one character per byte)"""
    if isinstance(b, str):
        b = b.encode("latin-1")
    if b.isascii() and b.isalnum():
        return b.decode("latin-1")
    return "".join([_TO[x] for x in b])


def tobytes(s):
    return bytes(_FROM[c] for c in s)


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=8, timeout=600, heap="6g", extra=(), deque=False, cwd=None):
    """run TLC on a specification; returns its output"""
    meta = tempfile.mkdtemp(prefix="tlcmeta_")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-Dtlc2.tool.ModelChecker.BAQueue=true" if deque else "-Dx=y",
               "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module]
        try:
            p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("TLC timed out on " + module)
        out = p.stdout.decode("utf8", "replace")
        return p.returncode, out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_ok(rc, out, what):
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        tail = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic"))][-60:]
        raise Inconclusive("TLC failed on %s (rc=%s):\n%s" % (what, rc, "\n".join(tail)))


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
