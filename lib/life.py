"""C24: what a connection leaves behind.  Client behaviours are enumerated by
TLC (Scripts.tla), played against the real server, and the recorded resource
use is checked by TLC (Resources.tla); Lifecycle.tla is model checked."""
import concurrent.futures, signal as sg
from vlib import *
import resource

BIG = 200000


def scripts(maxlen):
    with tempfile.TemporaryDirectory() as d:
        cfg = os.path.join(d, "s.cfg")
        open(cfg, "w").write("INIT Init\nNEXT Next\nCONSTANT MaxLen = %d\nCHECK_DEADLOCK FALSE\n" % maxlen)
        rc, out = tlc("Scripts.tla", cfg, workers=4, heap="2g")
    tlc_ok(rc, out, "Scripts")
    r = []
    for l in out.splitlines():
        m = re.match(r'^"?SC <<(.*)>>"?$', l)
        if m:
            r.append(re.findall(r'\w+', m.group(1).replace('\\"', '"')))
    return sorted(r), tlc_stats(out)[1]


def model(leak, conns, maxsend, timeout=300):
    with tempfile.TemporaryDirectory() as d:
        cfg = os.path.join(d, "l.cfg")
        open(cfg, "w").write("SPECIFICATION Spec\nCONSTANTS Conn = {%s}\n MaxSend = %d\n Leak = \"%s\"\nINVARIANT Order\n"
                             "PROPERTIES ReleasedAfterwards Served Accepted Terminates\nCHECK_DEADLOCK FALSE\n"
                             % (", ".join("c%d" % i for i in range(conns)), maxsend, leak))
        rc, out = tlc("Lifecycle.tla", cfg, workers=8, heap="6g", timeout=timeout)
    if leak == "none":
        tlc_ok(rc, out, "Lifecycle")
    elif "violated" not in out:
        raise Inconclusive("Lifecycle does not reject the defect " + leak)
    return tlc_stats(out)


BADS = [b"*x\r\n", b"$99999999999\r\n", b"*1\r\n$-5\r\n", b"*1\r\n$3\r\nabcdef\r\n", b"\r\n", b"*1\r\n?\r\n", b"*-7\r\n", b"*3\r\n$3\r\nSETxx", b"\n"]
PARTS = [b"*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$100000\r\nxx", b"*2\r\n$3\r\nGE", b"*2\r\n$3\r\nGET\r", b"*", b"*2\r\n", b"*2\r\n$", b"$10\r\nabc", b"*1\r\n$4\r\nPING\r"]


def play(srv, script, rng):
    """one client"""
    try:
        s = socket.create_connection(("127.0.0.1", srv.port), timeout=10)
    except OSError as e:
        if not srv.alive():
            raise ServerGone(srv.crash_text())
        raise Hang("connect: %s" % e)
    s.setblocking(False)
    try:
        for a in script[:-1]:
            try:
                if a == "cmd":
                    s.send(enc(rng.choice([[b"PING"], [b"SET", b"k", b"v"], [b"GET", b"k"], [b"RPUSH", b"l", b"a"], [b"SELECT", b"3"]])) * rng.choice([1, 1, 5]))
                elif a == "bad":
                    s.send(rng.choice(BADS) + (enc([b"PING"]) if rng.random() < 0.3 else b""))
                elif a == "part":
                    s.send(rng.choice(PARTS))
                elif a == "big":
                    s.send(enc([b"SELECT", b"1"]) + enc([b"GET", b"big"]) * rng.choice([1, 20, 60]))
                elif a == "empty":
                    s.send(rng.choice([b"*0\r\n", b"*-1\r\n"]))
                elif a == "error":
                    s.send(enc(rng.choice([[b"NOSUCH"], [b"GET"], [b"SELECT", b"x"], [b"SELECT", b"99"]])))
                elif a == "take":
                    time.sleep(rng.choice([0, 0.001, 0.003]))
                    try:
                        s.recv(1 << 16)
                    except OSError:
                        pass
                elif a == "half":
                    s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            if rng.random() < 0.3:
                time.sleep(0.001)
        if script[-1] == "reset":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    finally:
        s.close()


def fds(srv):
    return len(os.listdir("/proc/%d/fd" % srv.proc.pid))


def settled(srv, g0=None, f0=None, timeout=8.0):
    """(goroutines, descriptors), once at or below the given ones or after a while"""
    end = time.time() + timeout
    last = None
    while True:
        g, f = srv.goroutines(), fds(srv)
        if g0 is not None:
            if (g <= g0 and f <= f0) or time.time() > end:
                return g, f
        else:
            if last == (g, f) and time.time() > end:
                return g, f
            last = (g, f)
        time.sleep(0.02)


class BadLife:
    def __init__(self, what, ev):
        self.what, self.exp, self.ev = what, "", ev


def alive_ask(c):
    try:
        return 1 if c.cmd(b"PING") == ["s", "PONG"] else 0
    except (Hang, BadReply):
        return 0


def check(scr, tier, seed):
    rng = random.Random("%s/life" % seed)
    binary = build_server(scr)
    cov = dict(states=0, transitions=0, connections=0, measurements=0)
    for leak, n, m in [("none", 2, 1 if tier == "quick" else 2)] + [(x, 1, 1) for x in ("noread", "early", "noclose")] + [("inline", 2, 0)]:
        t, s = model(leak, n, m, 600)
        if leak == "none":
            cov["states"] += s
            cov["transitions"] += t
    scs, st = scripts(3 if tier == "quick" else 4)
    cov["states"] += st
    cov["scripts"] = len(scs)
    rng.shuffle(scs)
    if tier == "quick":
        scs = scs[:700]
    recs, names, bad = [], [], []
    srv = Server(scr, binary, 16, 100)
    rec = []
    ran = []
    try:
        c = srv.conn(20)
        c.cmd(b"SELECT", b"1")
        c.cmd(b"SET", b"big", b"x" * BIG)
        keep = srv.conn(20)
        alive_ask(keep)
        rec.append(dict(a="open", n=2))
        for k in (["cmd", "close"], ["bad", "close"], ["part", "reset"], ["big", "take", "close"]):
            play(srv, k, rng)
        g0, f0 = settled(srv, timeout=1.0)
        rec.append(dict(a="base", g=g0, f=f0))
        i = 0
        size = 40
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            while i < len(scs):
                b = scs[i:i + size]
                seeds = [rng.getrandbits(32) for _ in b]
                rec.append(dict(a="open", n=len(b)))
                list(ex.map(lambda x: play(srv, x[0], random.Random(x[1])), zip(b, seeds)))
                rec.append(dict(a="gone", n=len(b)))
                rec.append(dict(a="reply", ok=alive_ask(keep)))
                g, f = settled(srv, g0, f0)
                rec.append(dict(a="use", g=g, f=f))
                i += size
                cov["connections"] += len(b)
                cov["measurements"] += 1
                if g > g0 or f > f0:        # which behaviour leaves something behind
                    for x in b[:25]:
                        play(srv, x, random.Random(seeds[b.index(x)]))
                        g2, f2 = settled(srv, g, f, 0.7)
                        if g2 > g or f2 > f:
                            ran.append("one more left behind by the client behaviour: " + " ".join(x))
                            break
                    break
    except ServerGone as e:
        bad.append(BadLife("the server died: %s" % e, ran + rec[-5:]))
    except (Hang, BadReply) as e:
        bad.append(BadLife("the server does not answer: %s" % e, ran + rec[-5:]))
    finally:
        srv.stop()
    recs.append(rec)
    names.append("client behaviours")
    # many at once, more than the process may have descriptors
    rec, b2 = exhaust(scr, binary)
    recs.append(rec)
    names.append("more connections than descriptors")
    bad += b2
    for how in ("nobody", "idle", "unread", "half", "load"):
        for s in (sg.SIGTERM, sg.SIGINT):
            recs.append(term(scr, binary, how, s))
            names.append("signal %s, clients: %s" % (s.name, how))
    path = scr.path("res.json")
    json.dump(recs, open(path, "w"))
    rc, out = tlc("Resources.tla", "Resources.cfg", env={"TRACE": path}, workers=1, heap="1g")
    tlc_ok(rc, out, "Resources")
    cov["states"] += tlc_stats(out)[1]
    for l in out.splitlines():
        m = re.match(r'^"?MM (\d+) (\d+) (.*?)"?$', l)
        if m:
            r = recs[int(m.group(1)) - 1]
            bad.append(BadLife("%s: %s" % (names[int(m.group(1)) - 1], m.group(3)), r[max(0, int(m.group(2)) - 4):int(m.group(2))] + ran))
    cov["records"] = len(recs)
    return cov, bad


def exhaust(scr, binary):
    wrap = os.path.join(scr.dir, "limited.sh")
    open(wrap, "w").write('#!/bin/sh\nulimit -n 48\nexec "%s" "$@"\n' % binary)
    os.chmod(wrap, 0o755)
    srv = Server(scr, wrap, 4, 10)
    rec, bad = [], []
    try:
        keep = srv.conn(10)
        alive_ask(keep)
        rec.append(dict(a="open", n=1))
        g0, f0 = settled(srv, timeout=0.5)
        rec.append(dict(a="base", g=g0, f=f0))
        for _ in range(2):
            cs = []
            for _ in range(70):
                s = socket.socket()
                s.settimeout(5)
                try:
                    s.connect(("127.0.0.1", srv.port))
                    s.sendall(enc([b"PING"]))
                except OSError:
                    pass
                cs.append(s)
            rec.append(dict(a="open", n=70))
            time.sleep(0.1)
            rec.append(dict(a="reply", ok=alive_ask(keep)))
            for s in cs:
                s.close()
            rec.append(dict(a="gone", n=70))
            g, f = settled(srv, g0, f0)
            rec.append(dict(a="use", g=g, f=f))
            c = srv.conn(10)        # and new clients are welcome again
            rec.append(dict(a="reply", ok=alive_ask(c)))
            c.close()
            settled(srv, g0, f0)
    except ServerGone as e:
        bad.append(BadLife("more connections than descriptors: the server died: %s" % e, rec[-4:]))
    except (Hang, BadReply) as e:
        bad.append(BadLife("more connections than descriptors: the server does not answer: %s" % e, rec[-4:]))
    finally:
        srv.stop()
    return rec, bad


def term(scr, binary, how, s):
    srv = Server(scr, binary, 4, 10)
    rec = []
    socks = []
    try:
        try:
            if how != "nobody":
                c = srv.conn(10)
                c.cmd(b"SET", b"big", b"x" * BIG)
                socks.append(c.s)
                for _ in range(5):
                    t = socket.create_connection(("127.0.0.1", srv.port), timeout=10)
                    socks.append(t)
                    t.setblocking(False)
                    try:
                        if how == "unread":
                            t.send(enc([b"GET", b"big"]) * 60)
                        elif how == "half":
                            t.send(b"*2\r\n$3\r\nGET\r\n$100\r\nab")
                        elif how == "load":
                            t.send(enc([b"APPEND", b"k", b"v"]) * 3000)
                    except OSError:
                        pass
                rec.append(dict(a="open", n=6))
                time.sleep(0.05 if how != "load" else 0.005)
            srv.proc.send_signal(s)
            srv.proc.wait(10)
            rec.append(dict(a="term", ok=1))
        except subprocess.TimeoutExpired:
            rec.append(dict(a="term", ok=0))
        except (Hang, BadReply, ServerGone):
            rec.append(dict(a="reply", ok=0))
    finally:
        for t in socks:
            t.close()
        srv.stop()
    return rec
