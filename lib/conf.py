"""Configurations: the server is started with them and what it does is
recorded and checked against Config.tla."""
import concurrent.futures, threading
from vlib import *
import variants, seqcheck

HOSTS = ["127.0.0.1", "127.0.0.2", "127.0.0.3", "::1", "0.0.0.0"]
BADHOST = ["localhost", "300.1.1.1", "127.0.0", "127.0.0.1.1", "abc", "127.0.0.01", ":", ":::1", "1::2::3", "g::1", "12345::1", "127.0.0.1:80", "-1"]
BADNUM = ["abc", "1.5", "12x", "99999999999999999999", "--1", "1e3"]

_plock = threading.Lock()
_given = set()


def can_listen():
    out = []
    for h in HOSTS:
        try:
            s = socket.socket(socket.AF_INET6 if ":" in h else socket.AF_INET)
            s.bind((h, 0))
            s.close()
            out.append(h)
        except OSError:
            pass
    return out


def port():
    """a port nobody uses on any address, not given out before"""
    with _plock:
        while True:
            p = random.SystemRandom().randint(11000, 32000)     # below the range used for outgoing connections
            if p in _given:
                continue
            _given.add(p)
            if free(p):
                return p


def free(p):
    s = socket.socket()
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("0.0.0.0", p))
        return True
    except OSError:
        return False
    finally:
        s.close()


def probe(h, p):
    s = socket.socket(socket.AF_INET6 if ":" in h else socket.AF_INET)
    s.settimeout(5)
    try:
        s.connect((h, p))
        return s
    except OSError:
        s.close()
        return None


def one(rng, scr, binary, can, n):
    """one configuration: start, observe, stop; returns the record"""
    d = tempfile.mkdtemp(prefix="cfg_", dir=scr.dir)
    p1, p2 = port(), port()
    plain = n == 0 and free(6379)       # nothing configured at all
    if plain:
        p1 = 6379
    hosts = [h for h in HOSTS if h in can]
    fl, ln = [], []
    where = lambda: rng.choice(["flag", "file", "both", "none", "none"])
    mode = rng.choice(["flags", "file", "file", "file"])
    defaults = {"host": "127.0.0.1", "port": "6379", "dbnum": "16", "segnum": "100"}

    def value(name, bad=False):
        if name == "host":
            return rng.choice(BADHOST) if bad else rng.choice(hosts)
        if name == "port":
            return rng.choice(BADNUM + ["-1", "65536", "70000", "-6379", "4294967297"]) if bad else str(p1)
        if name == "dbnum":
            return rng.choice(BADNUM + ["0", "-1", "-16"]) if bad else str(rng.choice([1, 2, 3, 8, 16, 17, 40, 40, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1024, 1500]))
        if name == "segnum":
            return rng.choice(BADNUM + ["0", "-1"]) if bad else str(rng.choice([1, 2, 3, 50, 100, 255, 256, 257, 1000]))
        if name == "logdir":
            return os.path.join(d, "log%d" % rng.randint(0, 1))
        return rng.choice(["info", "error", "ERROR", "debug", "Panic", "warning"])
    badone = rng.choice(["host", "port", "dbnum", "segnum"]) if rng.random() < 0.3 else None
    lines = []
    nport = None
    for name in ["host", "port", "dbnum", "segnum", "logdir", "loglevel"]:
        w = where()
        if mode == "flags" and w in ("file", "both"):
            w = "flag"
        if name == "port" and w == "none":
            w = rng.choice(["flag", "file"]) if mode == "file" else "flag"
        if name == "logdir" and w == "none":
            w = "flag"
        if name == badone:
            w = rng.choice(["flag", "file"]) if mode == "file" else "flag"
        bad = name == badone
        if w in ("flag", "both"):
            v = value(name, bad)
            if w == "both" and name == "port":
                v = str(p2)         # must not be used
            fl.append([name, v])
        if w in ("file", "both"):
            lines.append([name, value(name, bad)])
            if rng.random() < 0.1 and not bad:      # said twice, the last one counts
                lines[-1:] = [[name, value(name) if name != "port" else str(p2)], lines[-1]]
    if plain:
        mode, badone, lines, fl = "flags", None, [], [["logdir", os.path.join(d, "log")]]
    rng.shuffle(fl)
    if rng.random() < 0.5:
        # any order, but repeated settings stay in their order
        names = [l[0] for l in lines]
        order = list(range(len(lines)))
        rng.shuffle(order)
        byname = {}
        for i in order:
            byname.setdefault(names[i], []).append(i)
        for v in byname.values():
            v.sort()
        lines = [lines[byname[names[i]].pop(0)] for i in order]
    if rng.random() < 0.3:
        lines.insert(rng.randint(0, len(lines)), rng.choice([["#", "a", "comment"], [], ["unknown", "setting"], ["#host", "1.2.3.4"], ["alone"]]))
    r3 = rng.random()
    file = "none"
    text = ""
    if mode == "file":
        file = "lines"
        if badone and r3 < 0.25:
            lines.insert(rng.randint(0, len(lines)), [rng.choice(["host", "port", "dbnum", "SegNum"])])
        for i, l in enumerate(lines):
            sep = rng.choice([" ", " ", "  ", "\t", " \t "])
            w = [l[0]] + l[1:] if l else []
            if w and rng.random() < 0.4:
                w[0] = rng.choice([w[0].upper(), w[0].capitalize()]) if w[0].isalpha() else w[0]
            lines[i] = w
            text += rng.choice(["", "", " ", "\t"]) * bool(w) + sep.join(w) + rng.choice(["", "", " "]) + ("\r\n" if rng.random() < 0.1 else "\n")
        tail = rng.random()
        if tail < 0.4:
            text = text.rstrip("\r\n")
        elif tail < 0.6:
            text += "\n\n"
        if rng.random() < 0.08:
            file = "missing"
    busy = []
    holder = None
    if badone is None and file != "missing" and not plain and rng.random() < 0.06:
        eff = [v for n_, v in ([tuple(x) for x in fl] + [tuple(x) for x in lines if len(x) > 1 and x[0].lower() == "port"]) if n_.lower() == "port"]
        if eff:
            holder = socket.socket()
            holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                holder.bind(("0.0.0.0", int(eff[-1])))
                holder.listen(1)
                busy = [eff[-1]]
            except (OSError, ValueError):
                busy = []
    args = []
    for a, v in fl:
        args += ["-%s=%s" % (a, v)] if rng.random() < 0.5 or v.startswith("-") else ["-" + a, v]
    path = os.path.join(d, "gredis.conf")
    if file == "lines":
        with open(path, "w") as f:
            f.write(text)
    elif file == "missing":
        path = os.path.join(d, "nonexistent.conf") if rng.random() < 0.6 else d
    if file != "none":
        pos = rng.randint(0, 1)
        args = ["-config", path] + args if pos else args + ["-config", path]
    rec = dict(fl=fl, file=file, ln=[[tostr(x.encode()) for x in l] for l in lines] if file == "lines" else [], can=can, busy=busy, text=text, args=args,
               out="", code="", at=[], tried=[], dbs=[], sel=[])
    # several ports in one go: is any of them served?
    clock = os.path.join(d, "clock")
    with open(clock, "wb") as f:
        f.write(struct.pack("<q", BASE_MS) + b"\0" * 4088)
    err = open(os.path.join(d, "stderr"), "wb")
    proc = subprocess.Popen([binary] + args, cwd=d, env=dict(os.environ, VCLOCK=clock), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
    try:
        end = time.time() + 10
        ports = [p for p in (p1, p2)]
        up = None
        while time.time() < end and not up:
            if proc.poll() is not None:
                rec["out"], rec["code"] = "exit", str(proc.returncode)
                break
            for p in ports:
                for h in hosts:
                    if str(p) in busy and ":" not in h:
                        continue
                    s = probe(h if h != "0.0.0.0" else "127.0.0.3", p)
                    if s:
                        up = s
                        break
                if up:
                    break
            time.sleep(0.01)
        if up:
            rec["out"] = "serve"
            for p in ports:
                for h in [x for x in hosts if x != "0.0.0.0"]:
                    if str(p) in busy and ":" not in h:
                        continue
                    s = probe(h, p)
                    rec["tried"].append([h, str(p)])
                    if s:
                        rec["at"].append([h, str(p)])
                        s.close()
            c = Conn.__new__(Conn)

            class Dummy:
                def alive(self):
                    return proc.poll() is None

                def crash_text(self):
                    return "exit status %s" % proc.poll()
            c.srv, c.s, c.buf, c.pos = Dummy(), up, b"", 0
            up.settimeout(10)
            ks = [-1, 0, 1, 2, 3, 7, 8, 15, 16, 17, 39, 40, 41, 100, 127, 128, 129, 255, 256, 257, 300]
            for a, v in [tuple(x[:2]) for x in fl + lines if len(x) > 1]:
                if a.lower() == "dbnum" and re.fullmatch("[0-9]{1,5}", v):
                    ks += [int(v) - 1, int(v), int(v) + 1, rng.randint(0, int(v)), 2 * int(v)]
            for k in sorted(set(ks)):
                try:
                    r = c.cmd(b"SELECT", b"%d" % k)
                except (BadReply, ServerGone, Hang) as e:
                    rec["out"] = "exit"
                    rec["code"] = "crash: %s" % e
                    break
                rec["sel"].append(str(k))
                if r == ["s", "OK"]:
                    rec["dbs"].append(str(k))
            up.close()
        elif rec["out"] == "":
            rec["out"] = "hang"
        if rec["out"] == "exit" and rec["code"] == "2" and b"goroutine " in open(os.path.join(d, "stderr"), "rb").read():
            rec["code"] = "crash"
    finally:
        if proc.poll() is None:
            proc.kill()
        proc.wait()
        err.close()
        if holder:
            holder.close()
        shutil.rmtree(d, ignore_errors=True)
    return rec


class BadConf:
    def __init__(self, why, r):
        self.what, self.exp = "started with %s: %s" % (r["args"], why), ""
        self.ev = ["file %r" % r["text"], "observed %s %s, reachable %s, databases %s" % (r["out"], r["code"], r["at"], r["dbs"])]


def check(scr, seed, n):
    binary = build_plain(scr)
    can = can_listen()
    recs, bad, st = batch(scr, binary, seed, can, range(n))
    if bad:         # started again: only what happens again counts
        bad = batch(scr, binary, seed, can, sorted(bad))[1]
    return dict(starts=n, states=st, served=sum(1 for r in recs if r["out"] == "serve")), list(bad.values()), recs


def batch(scr, binary, seed, can, idx):
    idx = list(idx)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda i: one(random.Random("%s/conf/%d" % (seed, i)), scr, binary, can, i), idx))
    path = scr.path("conf.json")
    with open(path, "w") as f:
        json.dump([{k: v for k, v in r.items() if k not in ("text", "args")} for r in recs], f, ensure_ascii=False)
    rc, out = tlc("Config.tla", "Config.cfg", env={"TRACE": path}, workers=1, heap="2g")
    tlc_ok(rc, out, "Config")
    bad = {}
    for l in out.splitlines():
        m = re.match(r'^"?MM (\d+) (.*?)"?$', l)
        if m:
            bad[idx[int(m.group(1)) - 1]] = BadConf(m.group(2), recs[int(m.group(1)) - 1])
    st = tlc_stats(out)[1]
    if st != len(idx) + 1:
        raise Inconclusive("TLC explored %d states instead of %d" % (st, len(idx) + 1))
    return recs, bad, st
