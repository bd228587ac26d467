"""Several connections and databases (C20), large arguments (C17), any command
with any arguments (C19); recorded and checked against TraceServer.tla."""
import threading
from vlib import *
import seq, seqcheck, profiles, variants
from gen import *

SELBAD = [b"-1", b"abc", b"", b"1.0", b"99999999999999999999", b"9223372036854775807", b"-9223372036854775808", b"4294967296", b" 1", b"1 "]


class Multi:
    """events of several connections to one server, one after another"""
    def __init__(self, srv):
        self.srv, self.conns, self.ev, self.now = srv, {}, [], BASE_MS
        srv.set_clock(self.now)

    def open(self, c):
        if c in self.conns:
            self.conns[c].close()
        self.conns[c] = self.srv.conn(20)
        self.ev.append({"c": c, "t": self.now, "q": ["@open"], "r": [], "j": 0})

    def do(self, c, q):
        self.ev.append({"c": c, "t": self.now, "q": [tostr(a) for a in q], "r": None, "j": 1})
        self.ev[-1]["r"] = self.conns[c].cmd(*q)

    def pipe(self, c, qs):
        self.conns[c].send(b"".join(enc(q) for q in qs))
        for q in qs:
            self.ev.append({"c": c, "t": self.now, "q": [tostr(a) for a in q], "r": None, "j": 1})
            self.ev[-1]["r"] = self.conns[c].reply()

    def close(self):
        for c in self.conns.values():
            c.close()


def some(rng, keys):
    k = rng.choice(keys)
    return rng.choice([[b"SET", k, b"v%d" % rng.randint(0, 99)], [b"GET", k], [b"GET", k], [b"DEL", k], [b"EXISTS", k], [b"KEYS", b"*"], [b"INCR", b"n"],
                       [b"EXPIRE", k, b"%d" % rng.choice([1, 2, 5, 100])], [b"TTL", k], [b"TYPE", k], [b"RPUSH", b"l", b"x"], [b"LRANGE", b"l", b"0", b"-1"],
                       [b"RENAME", k, rng.choice(keys)], [b"PERSIST", k], [b"SETNX", k, b"nx"], [b"MGET"] + keys, [b"SADD", b"s", k], [b"SMEMBERS", b"s"],
                       [b"HSET", b"h", k, b"1"], [b"HGETALL", b"h"]])


def select(rng, n):
    x = rng.random()
    name = rng.choice([b"SELECT", b"select", b"Select"])
    if x < 0.72:
        return [name, b"%d" % rng.randrange(n)]
    if x < 0.82:
        return [name, b"%d" % rng.choice([n, n + 1, n * 2, n + 100])]
    if x < 0.95:
        return [name, rng.choice(SELBAD)]
    return [name] + [b"0"] * rng.choice([0, 2, 3])


def scenario(rng, srv, n, ev_out):
    m = Multi(srv)
    cs = ["c%d" % i for i in range(rng.randint(1, 4))]
    keys = [b"a", b"b", b"c"]
    try:
        for c in cs:
            m.open(c)
        for _ in range(rng.randint(15, 50)):
            c = rng.choice(cs)
            x = rng.random()
            if x < 0.04:
                m.open(c)
            elif x < 0.08:
                m.now += rng.choice([500, 1000, 2000])
                srv.set_clock(m.now)
            elif x < 0.35:
                m.do(c, select(rng, n))
            elif x < 0.45:
                m.pipe(c, [select(rng, n) if rng.random() < 0.4 else some(rng, keys) for _ in range(rng.randint(2, 10))])
            else:
                m.do(c, some(rng, keys))
        # everything, from a connection that has not selected anything
        m.open("z")
        m.pipe("z", [[b"GET", b"a"], [b"KEYS", b"*"]])
        for d in range(n):
            m.pipe("z", [[b"SELECT", b"%d" % d], [b"KEYS", b"*"], [b"MGET"] + keys, [b"TTL", b"a"], [b"TTL", b"b"]])
    finally:
        ev_out.append(m.ev)
        m.close()


def parallel(rng, srv, n, ev_out):
    """connections at the same time, each in databases of its own"""
    per = 2
    who = list(range(n // per))
    evs = [[] for _ in who]
    errs = []
    seeds = [rng.getrandbits(32) for _ in who]
    bar = threading.Barrier(len(who))

    def client(i):
        r = random.Random(seeds[i])
        m = Multi.__new__(Multi)
        m.srv, m.conns, m.ev, m.now = srv, {}, evs[i], BASE_MS
        try:
            m.open("c")
            m.do("c", [b"SELECT", b"%d" % (i * per)])
            bar.wait(20)
            for _ in range(12):
                qs = []
                for _ in range(25):
                    qs.append([b"SELECT", b"%d" % (i * per + r.randrange(per))] if r.random() < 0.25 else some(r, [b"a", b"b", b"c"]) if r.random() < 0.9 else [b"SELECT", r.choice(SELBAD)])
                m.pipe("c", qs)
        except (ServerGone, Hang, BadReply, threading.BrokenBarrierError) as e:
            errs.append(e)
        finally:
            m.close()
    ts = [threading.Thread(target=client, args=(i,)) for i in who]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ev_out += evs
    if errs:
        raise errs[0]


def alone_fails(scr, binary, ev, dbn, tag):
    """Is the last reply also wrong when the commands that belong to its
    database are executed on one connection?"""
    sel, byev = {}, []
    for e in ev:
        q = [a.lower() for a in e["q"]]
        if q[0] == "@open":
            sel[e["c"]] = 0
        elif q[0] == "select":
            if len(q) == 2 and re.fullmatch(r"[+-]?[0-9]{1,9}", q[1]) and 0 <= int(q[1]) < dbn:
                sel[e["c"]] = int(q[1])
        else:
            byev.append((sel.get(e["c"], 0), e))
    if ev[-1]["q"][0].lower() == "select":
        return False
    mine = [e for d, e in byev if d == byev[-1][0]]
    srv = Server(scr, binary, 1, 100)
    m = Multi(srv)
    try:
        m.open("c")
        for e in mine:
            m.now = e["t"]
            srv.set_clock(m.now)
            m.do("c", [tobytes(a) for a in e["q"]])
    except (ServerGone, Hang, BadReply):
        return False
    finally:
        m.close()
        srv.stop()
    return bool(seq.validate(scr, [m.ev], 1, tag="alone" + tag)[0])


def c20_job(a):
    scrdir, binary, seed, n, idx = a
    try:
        return c20_worker(scrdir, binary, seed, n, idx)
    except Inconclusive as e:
        return e


def c20_worker(scrdir, binary, seed, n, idx):
    rng = random.Random("%s/C20/%d" % (seed, idx))
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    cov, bad, notes = seqcheck.Cover(), [], []
    by = {}
    for t in range(n):
        dbn = rng.choice([1, 2, 3, 5, 16])
        par = rng.random() < 0.2
        if par:
            dbn = 16
        srv = Server(scr, binary, dbn, rng.choice([1, 3, 100]))
        out = []
        try:
            (parallel if par else scenario)(rng, srv, dbn, out)
            by.setdefault(dbn, []).extend(out)
        except (ServerGone, Hang, BadReply) as e:
            ev = next((x for x in out if x and x[-1]["r"] is None), out[0] if out else [])
            if any(x and x[-1]["r"] is None and x[-1]["q"][0].lower() == "select" for x in out):
                bad.append(seqcheck.Bad("%s: %s" % (type(e).__name__, e), ev, ""))
                break
            notes.append("%s: %s" % (type(e).__name__, e))
        finally:
            srv.stop()
    for dbn, traces in by.items():
        mm, uj, events, states = seq.validate(scr, traces, dbn, tag="C20_%d_%d" % (idx, dbn))
        cov.states += states
        cov.events += events
        cov.traces += len(traces)
        for s, i, exp in mm:
            if len(bad) < 3 and alone_fails(scr, binary, traces[s][:i + 1], dbn, "%d_%d_%d_%d" % (idx, dbn, s, i)):
                notes.append("also wrong with one connection and one database: " + seqcheck.show(traces[s][i])[:200])
                continue
            bad.append(seqcheck.Bad("reply not allowed by the specification (%d databases)" % dbn, traces[s][:i + 1], exp))
        for t in traces:
            for e in t:
                if e["r"]:
                    cov.judged += 1
                    cov.kinds.add(seqcheck.kind(e))
        cov.samples.append([e["c"] + ": " + seqcheck.show(e) for e in traces[0][:15]])
    return cov, bad, notes


def c20(scr, seed, chunks, per):
    binary = build_server(scr)
    return variants.merge(c20_job, [(scr.dir, binary, seed, per, i) for i in range(chunks)])


# ------------------------------------------------------------ large arguments
def large_job(a):
    scrdir, binary, seed, n, idx = a
    try:
        return large_worker(scrdir, binary, seed, n, idx)
    except Inconclusive as e:
        return e


def large_worker(scrdir, binary, seed, n, idx):
    """values are replaced by short names on both sides: the commands used
    treat them as opaque"""
    rng = random.Random("%s/large/%d" % (seed, idx))
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    cov, bad, notes = seqcheck.Cover(), [], []
    srv = Server(scr, binary, 64, 10)
    traces = []
    try:
        for t in range(n):
            blobs = []
            for i in range(rng.randint(1, 3)):
                size = rng.choice([65535, 65536, 65537, 100000, 262144, 1 << 20, (1 << 20) + 3, 5 << 20 if i == 0 else 70000])
                unit = rng.randbytes(rng.randint(1, 5000)) if rng.random() < 0.7 else rng.choice([b"\r\n", b"$3\r\nabc\r\n", b"\x00", b"*1\r\n"])
                blobs.append((unit * (size // len(unit) + 1))[:size] + b"#%d" % i)
            name = {b: "<large %d of %d bytes>" % (i, len(b)) for i, b in enumerate(blobs)}
            val = lambda: rng.choice(blobs + [b"small"])
            qs = [[b"SELECT", b"%d" % (t + 1)]]
            for _ in range(rng.randint(2, 5)):
                qs += rng.choice([lambda: [[b"SET", b"k", val()], [b"GET", b"k"]], lambda: [[b"HSET", b"h", b"f", val()], [b"HGETALL", b"h"]],
                                  lambda: [[b"RPUSH", b"l", val(), b"x", val()], [b"LRANGE", b"l", b"0", b"-1"]],
                                  lambda: [[b"MSET", b"a", val(), b"b", val()], [b"MGET", b"b", b"a"]], lambda: [[b"SADD", b"s", val(), val()], [b"SMEMBERS", b"s"]],
                                  lambda: [[b"SET", val(), b"1"], [b"KEYS", b"*"]], lambda: [[b"NOSUCHCMD", val()]],
                                  lambda: [[b"PING", val()]]])()
                qs.append([b"PING"])
            if rng.random() < 0.4:
                m = rng.choice([1500, 3000])
                qs += [[b"RPUSH", b"many"] + [b"%d" % i for i in range(m)], [b"LLEN", b"many"], [b"LRANGE", b"many", b"%d" % (m - 20), b"-1"]]
            c = srv.conn(30)
            ev = [{"c": "1", "t": BASE_MS, "q": ["@open"], "r": [], "j": 0}]
            data = b"".join(enc(q) for q in qs)
            err = []

            def feed():
                i = 0
                try:
                    while i < len(data):
                        k = rng2.choice([1, 100, 4096, 65536, 1 << 20, 1 << 22])
                        c.s.sendall(data[i:i + k])
                        i += k
                except OSError as e:
                    err.append(e)
            rng2 = random.Random(rng.getrandbits(32))
            th = threading.Thread(target=feed)
            th.start()
            try:
                back = {tostr(b): v for b, v in name.items()}
                for q in qs:
                    ev.append({"c": "1", "t": BASE_MS, "q": [name.get(a) or tostr(a) for a in q], "r": None, "j": 1})
                    r = c.reply()
                    ev[-1]["r"] = [r[0]] + [back.get(x) or (x[:1] + back[x[1:]] if x[1:] in back else x if len(x) < 2000 else "<other bytes>") for x in r[1:]]
                traces.append(ev)
            except (ServerGone, Hang, BadReply) as e:
                bad.append(seqcheck.Bad("large arguments: %s: %s" % (type(e).__name__, e), [dict(e_, r=e_["r"] or ["?"]) for e_ in ev[1:]], ""))
                c.s.close()
                th.join()
                break
            th.join()
            c.close()
    finally:
        srv.stop()
    if traces:
        mm, uj, events, states = seq.validate(scr, traces, 64, tag="large_%d" % idx)
        cov.states, cov.events, cov.traces = states, events, len(traces)
        cov.judged = events
        for s, i, exp in mm:
            bad.append(seqcheck.Bad("large arguments: reply not allowed by the specification", traces[s][:i + 1], exp))
    return cov, bad, notes


def large(scr, seed, chunks, per):
    binary = build_server(scr)
    return variants.merge(large_job, [(scr.dir, binary, seed, per, i) for i in range(chunks)], 6)


# ------------------------------------------------------------ any command at all
def fuzz_seg(rng):
    g = Gen(rng, bad=rng.choice([0.1, 0.4]), wrongtype=0.4, binary=0.25)
    s = Seg()
    t = 0
    for _ in range(rng.randint(20, 60)):
        if rng.random() < 0.05:
            t += rng.choice([1, 500, 1000, 3000])
            s.t(t)
        c = g.cmd(rng.choice(ALL))
        x = rng.random()
        if x < 0.15 and len(c) > 1:
            c[rng.randrange(1, len(c))] = rng.choice(WEIRD + BADINT + [MAXI, MINI, b"", b"0", b"-1", b"1", b"[", b"[a-", b"[^", b"*" * 30 + b"b", b"\\", b"]"])
        elif x < 0.2:
            c = c[:rng.randint(1, len(c))]
        elif x < 0.24:
            c = c + c[1:]
        if c[0].lower() == b"setrange" and len(c) > 2 and 6 < len(c[2]) < 11:
            continue            # would reserve hundreds of megabytes
        s.q(c, 0)
    return s


def fuzz_job(a):
    scrdir, binary, seed, n, idx = a
    rng = random.Random("%s/fuzz/%d" % (seed, idx))
    cov, bad, notes = seqcheck.Cover(), [], []
    try:
        base, traces, fails = seq.seq_worker((scrdir, binary, [fuzz_seg(rng) for _ in range(n)], 0, 3000, rng.choice([1, 3, 100]), 20))
    except Inconclusive as e:
        return e
    for k, ev, typ, text, again in fails:
        if again:
            bad.append(seqcheck.Bad("%s: %s" % (typ, text), ev, ""))
        else:
            notes.append("not reproduced: %s %s" % (typ, text))
    cov.traces = len(traces)
    cov.events = sum(len(t) for t in traces if t)
    return cov, bad, notes


def fuzz(scr, seed, chunks, per):
    binary = build_server(scr)
    return variants.merge(fuzz_job, [(scr.dir, binary, seed, per, i) for i in range(chunks)])
