"""Byte streams over real connections: recorded and checked against Wire.tla."""
import multiprocessing, select, threading
from vlib import *
import seqcheck
from gen import *


class Part:
    """one connection: data sent in the given pieces, judged j.
    how: half    end the sending side, read everything
         reset   read nreply replies, send the rest, tear the connection down"""
    def __init__(self, pieces, j=1, how="half", head=None, pause=0.0):
        self.pieces, self.j, self.how, self.head, self.pause = pieces, j, how, head, pause


def exchange(srv, part, timeout=15.0):
    """play one connection; returns (bytes sent, bytes received, note)"""
    try:
        s = socket.create_connection(("127.0.0.1", srv.port), timeout=timeout)
    except OSError as e:
        if not srv.alive():
            raise ServerGone(srv.crash_text())
        raise Hang("no connection: %s" % e)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    out = bytearray()
    note = None
    pieces = list(part.pieces)
    if part.how == "reset":
        # head is answered completely before the rest is sent
        n, data = part.head
        c = Conn.__new__(Conn)
        c.srv, c.s, c.buf, c.pos = srv, s, b"", 0
        raw = bytearray()
        fill = c._fill
        s.settimeout(timeout)

        def tap():
            b = len(c.buf) - c.pos
            fill()
            raw.extend(c.buf[b:])
        c._fill = tap
        try:
            c.send(data)
            for _ in range(n):
                c.reply()
            for p in pieces:
                s.sendall(p)
                if part.pause:
                    time.sleep(part.pause)
        except (BadReply, Hang, OSError) as e:
            note = str(e)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
        return data + b"".join(pieces), bytes(raw), note
    s.setblocking(False)
    end = time.time() + timeout
    slept = 0.0
    done = False
    while True:
        if time.time() > end:
            note = "timeout"
            break
        rd, wr, _ = select.select([s], [s] if not done else [], [], 0.5 if done else 0.1)
        if rd:
            try:
                d = s.recv(1 << 16)
            except BlockingIOError:
                d = None
            except OSError:
                d = b""
            if d == b"":
                break
            if d:
                out += d
                end = max(end, time.time() + timeout)
        if wr and not done:
            if not pieces:
                try:
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                done = True
                continue
            p = pieces[0]
            try:
                k = s.send(p)
            except BlockingIOError:
                continue
            except OSError:
                done = True      # the server has closed the connection
                continue
            if k == len(p):
                pieces.pop(0)
                if part.pause and pieces and slept < 0.03:
                    time.sleep(part.pause)
                    slept += part.pause
            else:
                pieces[0] = p[k:]
    s.close()
    if not srv.alive() or (note == "timeout" and not srv.alive()):
        raise ServerGone(srv.crash_text())
    return b"".join(part.pieces), bytes(out), note


def cut(rng, data, mode=None):
    """pieces of data"""
    mode = mode or rng.choice(["whole", "bytes", "few", "few", "crlf", "lines", "4096"])
    if mode == "whole" or len(data) < 2:
        return [data]
    if mode == "bytes" and len(data) < 1500:
        return [data[i:i + 1] for i in range(len(data))]
    if mode == "crlf":          # between CR and LF, and right after
        cuts = [i + 1 for i in range(len(data) - 1) if data[i:i + 2] == b"\r\n"]
        cuts = [c for c in cuts if rng.random() < 0.6][:200]
    elif mode == "lines":
        cuts = [i + 2 for i in range(len(data) - 1) if data[i:i + 2] == b"\r\n" and rng.random() < 0.8][:200]
    elif mode == "4096":
        cuts = [i + rng.randint(-2, 2) for i in range(4096, len(data), 4096)]
    else:
        cuts = [rng.randint(1, len(data) - 1) for _ in range(rng.randint(1, 8))]
    cuts = sorted({c for c in cuts if 0 < c < len(data)})
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def pause(rng):
    return rng.choice([0, 0, 0.0003, 0.001])


def play_wire(srv, parts, db):
    rec = []
    for p in parts:
        sel = enc([b"SELECT", b"%d" % db])
        if p.how == "reset":
            q = Part(p.pieces, p.j, p.how, (p.head[0] + 1, sel + p.head[1]), p.pause)
        else:
            q = Part([sel + p.pieces[0]] + p.pieces[1:] if p.pieces else [sel], p.j, p.how, None, p.pause)
        i, o, note = exchange(srv, q)
        rec.append(dict(i=i, o=o, j=p.j, note=note))
    return rec


def validate_wire(scrdir, recs, dbnum, tag):
    """{trace: (part, pos, why)} of mismatches, judged and not"""
    path = os.path.join(scrdir, "wire_%s.json" % tag)
    with open(path, "w") as f:
        json.dump([{"n": dbnum, "p": [dict(i=tostr(p["i"]), o=tostr(p["o"]), j=p["j"]) for p in r]} for r in recs], f, ensure_ascii=False)
    rc, out = tlc("Wire.tla", "Wire.cfg", env={"TRACE": path}, timeout=800, workers=1, heap="3g")
    tlc_ok(rc, out, "Wire")
    mm, uj = [], []
    for l in out.splitlines():
        m = re.match(r'^"?(MM|UJ) (\d+) (\d+) (\d+) (.*)$', l)
        if m:
            (mm if m.group(1) == "MM" else uj).append((int(m.group(2)) - 1, int(m.group(3)) - 1, int(m.group(4)), m.group(5)))
    st = tlc_stats(out)[1]
    bad = {x[0] for x in mm + uj}
    need = sum(len(r) + 1 for i, r in enumerate(recs) if i not in bad)
    if st < need:
        raise Inconclusive("TLC explored %d states of at least %d" % (st, need))
    os.unlink(path)
    return sorted(mm), sorted(uj), st


class BadWire:
    def __init__(self, what, rec, upto=None):
        self.what, self.exp = what, ""
        self.ev = []
        for n, p in enumerate(rec):
            self.ev.append("connection %d sent      %s" % (n + 1, repr(bytes(p["i"]))[:1500]))
            self.ev.append("connection %d received  %s%s" % (n + 1, repr(bytes(p["o"]))[:1500], " (%s)" % p["note"] if p.get("note") else ""))


class Observer:
    """a connection that stays open and must keep being served (judged by TraceServer)"""
    def __init__(self, srv, db):
        self.c = srv.conn(20)
        self.ev = [{"c": "1", "t": BASE_MS, "q": ["@open"], "r": [], "j": 0}]
        self.n = 0
        self.do([b"SELECT", b"%d" % db])

    def do(self, q):
        self.ev.append({"c": "1", "t": BASE_MS, "q": [tostr(a) for a in q], "r": None, "j": 1})
        self.ev[-1]["r"] = self.c.cmd(*q)

    def look(self, rng):
        self.n += 1
        k = b"o%d" % rng.randint(0, 5)
        self.do([b"SET", k, b"v%d" % self.n] if rng.random() < 0.5 else [b"GET", k])


def wire_worker(scrdir, binary, gen, seed, n, idx, tag, watch, segnum=100, dbnum=1200):
    """n traces; returns Cover, bad, notes"""
    rng = random.Random("%s/%s/%d" % (seed, tag, idx))
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    cov, bad, notes = seqcheck.Cover(), [], []
    recs = []
    t0 = time.time()
    srv = Server(scr, binary, dbnum, segnum)
    obs = None
    slow = 0
    try:
        obs = Observer(srv, dbnum - 1) if watch else None
        for t in range(n):
            parts = gen(rng)
            rec = []
            try:
                rec = play_wire(srv, parts, t + 1)
            except ServerGone as e:
                rec = [dict(i=b"".join(([p.head[1]] if p.head else []) + p.pieces), o=b"", j=p.j, note=None) for p in parts]
                bad.append(BadWire("the server died: %s" % e, rec))
                break
            slow += sum(1 for p in rec if p["note"] == "timeout")
            recs.append(rec)
            if obs:
                try:
                    if t % 25 == 7:
                        unread(srv, dbnum - 2)
                    obs.look(rng)
                except (ServerGone, Hang, BadReply) as e:
                    bad.append(BadWire("another connection is disturbed: %s %s" % (type(e).__name__, e), rec))
                    break
            if slow > 3:
                notes.append("connections that were not closed after end of input")
                break
        if not srv.alive():
            bad.append(BadWire("the server died: %s" % srv.crash_text(), recs[-1] if recs else []))
    except Hang as e:
        bad.append(BadWire("the server does not answer: %s" % e, recs[-1] if recs else []))
    finally:
        srv.stop()
    if os.environ.get("VDEBUG"):
        print("played", idx, time.time() - t0)
    if recs:
        mm, uj, st = validate_wire(scrdir, recs, dbnum, "%s_%d" % (tag, idx))
        cov.states += st
        cov.traces += len(recs)
        cov.unjudged += len(uj)
        for r in recs:
            for p in r:
                cov.events += p["o"].count(b"\r\n")
                cov.judged += 1 if p["j"] else 0
        tried = 0
        for t, p, pos, why in mm:
            if len(bad) >= 3:
                break
            content = why.startswith("reply ") and why[6:7] in ("[", "\\")
            if content:
                tried += 1
            if content and (tried > 12 or plain_fails(scr, binary, recs[t], p, pos, dbnum, tag)):
                notes.append("the same with plain names and delivery: %s" % why[:200])
                continue
            bad.append(BadWire("connection %d, from input byte %d: %s" % (p + 1, pos, why), recs[t]))
        for t, p, pos, why in uj[:3]:
            notes.append("unjudged mismatch: %s" % why[:200])
        cov.samples.append([repr(p["i"])[:300] + " -> " + repr(p["o"])[:200] for p in recs[0]])
    if obs and not bad:
        mm, uj, ev, st = seqval(scr, [obs.ev], dbnum, "%s_obs%d" % (tag, idx))
        cov.states += st
        for s, i, exp in mm:
            bad.append(seqcheck.Bad("data of another connection changed", obs.ev[:i + 1], exp))
    return cov, bad, notes


def commands(data, upto=None):
    """the complete commands at the start of data, with their end positions"""
    out, i = [], 0
    try:
        while i < len(data) and data[i:i + 1] == b"*":
            e = data.index(b"\r\n", i)
            n = int(data[i + 1:e])
            i = e + 2
            c = []
            for _ in range(max(n, 0)):
                if data[i:i + 1] != b"$":
                    return out
                e = data.index(b"\r\n", i)
                k = int(data[i + 1:e])
                if k < 0 or data[e + 2 + k:e + 4 + k] != b"\r\n":
                    return out
                c.append(data[e + 2:e + 2 + k])
                i = e + 4 + k
            if c:
                out.append((c, i))
    except ValueError:
        pass
    return out


AN = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def plain_fails(scr, binary, rec, part, pos, dbnum, tag):
    """Do the same commands, one at a time and with plain names of the same
    length instead of awkward ones, also get a reply that is not allowed?
    Then it is not the bytes or their delivery that matter.  (The empty string
    counts as awkward where its representation is what is checked.)"""
    cs = []
    for n, p in enumerate(rec[:part + 1]):
        l = commands(p["i"])
        cs.append([c for c, e in l if n < part or e < pos] + ([l[k][0] for k in range(len(l)) if (l[k - 1][1] if k else 0) == pos - 1] if n == part else []))
    used = {a for l in cs for c in l for a in c}
    new = {}

    def name(a):
        if not a and tag in ("C17", "C18"):
            return b"plainempty"
        if a.isalnum() and a.isascii() or not a or re.fullmatch(rb"[-*.0-9]+", a):
            return a
        if a not in new:
            k = 0
            while True:
                x, y = k, bytearray()
                for _ in range(len(a)):
                    y.append(AN[x % 62])
                    x //= 62
                y = bytes(y)
                if y not in used:
                    break
                k += 1
                if k > 10000:
                    return a
            used.add(y)
            new[a] = y
        return new[a]
    srv = Server(scr, binary, dbnum, 100)
    ev = []
    try:
        for l in cs:
            ev.append({"c": "1", "t": BASE_MS, "q": ["@open"], "r": [], "j": 0})
            c = srv.conn(10)
            for q in l:
                q = [q[0].lower()] + [name(a) for a in q[1:]]
                ev.append({"c": "1", "t": BASE_MS, "q": [tostr(a) for a in q], "r": None, "j": 1})
                ev[-1]["r"] = c.cmd(*q)
            c.close()
    except (ServerGone, Hang, BadReply):
        return False
    finally:
        srv.stop()
    mm, uj, e, st = seqval(scr, [ev], dbnum, "plain%d" % random.getrandbits(40))
    return bool(mm)


def seqval(scr, traces, dbnum, tag):
    import seq
    return seq.validate(scr, traces, dbnum, tag=tag)


# ------------------------------------------------------------ what is sent
SIMPLE = ["ping", "set", "get", "set", "get", "mset", "mget", "append", "strlen", "rpush", "lrange", "hset", "hget", "hgetall", "sadd", "smembers", "del", "exists", "bad"]


def anybytes(rng, maxlen=40):
    x = rng.random()
    if x < 0.25:
        return rng.choice(WEIRD + [b"", b"\r", b"\n", b"\n\r", b"\r\n\r\n", b"$-1\r\n", b"*3\r\n$3\r\nSET\r\n"])
    if x < 0.6:
        return bytes(rng.choice(b"ab\r\n\x00$*:+-01 ") for _ in range(rng.randint(0, 12)))
    if x < 0.85:
        return bytes(rng.getrandbits(8) for _ in range(rng.randint(0, maxlen)))
    return rng.choice([b"a", b"b", b"value", b"10"])


def keyname(rng, keys):
    return rng.choice(keys)


def simple(rng, keys, val):
    """a command whose effect shows exactly which bytes arrived"""
    n = rng.choice(SIMPLE)
    k = lambda: rng.choice(keys)
    p = b"l:h:s:t:".split(b":")
    if n == "ping":
        return [b"PING"] if rng.random() < 0.5 else [b"PING", val()]
    if n == "set":
        return [b"SET", k(), val()]
    if n in ("get", "strlen"):
        return [n.encode(), k()]
    if n == "mset":
        return [b"MSET"] + [x for _ in range(rng.randint(1, 4)) for x in (k(), val())]
    if n in ("mget", "del", "exists"):
        if n == "del" and rng.random() < 0.5:
            n = "mget"
        return [n.upper().encode()] + [k() for _ in range(rng.randint(1, 4))]
    if n == "append":
        return [b"APPEND", k(), val()]
    if n == "rpush":
        return [b"RPUSH", b"L" + k()] + [val() for _ in range(rng.randint(1, 5))]
    if n == "lrange":
        return [b"LRANGE", b"L" + k(), b"0", b"-1"]
    if n == "hset":
        return [b"HSET", b"H" + k()] + [x for _ in range(rng.randint(1, 3)) for x in (val(), val())]
    if n == "hget":
        return [b"HGET", b"H" + k(), val()]
    if n == "hgetall":
        return [b"HGETALL", b"H" + k()]
    if n == "sadd":
        return [b"SADD", b"S" + k()] + [val() for _ in range(rng.randint(1, 4))]
    if n == "smembers":
        return [b"SMEMBERS", b"S" + k()]
    return rng.choice([[b"NOSUCHCMD", val()], [b"GET"], [b"SET", k()], [b"LLEN", k(), val()]])


def recase(rng, q):
    n = q[0]
    x = rng.random()
    if x < 0.3:
        n = bytes(rng.choice([c, c ^ 32]) if chr(c).isalpha() and c < 128 else c for c in n)
    elif x < 0.5:
        n = n.lower()
    return [n] + q[1:]


def c17_gen(rng):
    keys = [anybytes(rng, 12) for _ in range(2)] + [b"k1", b"k2"]
    big = rng.random() < 0.12
    lens = [4085, 4090, 4094, 4095, 4096, 4097, 4100, 8190, 8192, 9000]

    def val():
        if big and rng.random() < 0.3:
            return anybytes(rng) + bytes([rng.choice(b"xyz\r\n")]) * rng.choice(lens)
        return anybytes(rng)
    cs = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 15, 40]) if not big else rng.randint(1, 8)):
        cs.append(recase(rng, simple(rng, keys, val)))
        if rng.random() < 0.3:
            cs.append(recase(rng, [b"GET", rng.choice(keys)]))
    if rng.random() < 0.03:
        many = rng.choice([40, 80, 150])
        cs.append([b"RPUSH", b"many"] + [b"%d" % i if rng.random() < 0.8 else anybytes(rng, 6) for i in range(many)])
        cs.append([b"LRANGE", b"many", b"0", b"-1"])
        cs.append([b"MSET"] + [x for i in range(many // 4) for x in (b"q%d" % i, anybytes(rng, 5))])
        cs.append([b"MGET"] + [b"q%d" % rng.randint(0, many // 4) for i in range(many)])
    data = b"".join(enc(c) for c in cs)
    parts = [Part(cut(rng, data), 1, "half", None, pause(rng))]
    if rng.random() < 0.5:
        look = b"".join(enc([b"GET", k]) + enc([b"LRANGE", b"L" + k, b"0", b"-1"]) + enc([b"HGETALL", b"H" + k]) + enc([b"SMEMBERS", b"S" + k]) for k in keys)
        parts.append(Part(cut(rng, look + enc([b"KEYS", b"*"]), rng.choice(["whole", "few"])), 1))
    return parts


def junk(rng, names=True):
    """any command at all, with bytes that could break a reply"""
    w = lambda: anybytes(rng, 10)
    return w


def c18_gen(rng):
    """all commands; names, options and values with awkward bytes.  Number and
    syntax of the replies are judged, and the content for plain reads."""
    if rng.random() < 0.45:
        keys = [anybytes(rng, 12) for _ in range(3)]
        cs = [simple(rng, keys, lambda: anybytes(rng)) for _ in range(rng.randint(3, 14))]
        for k in keys:
            cs += [[b"GET", k], [b"LRANGE", b"L" + k, b"0", b"-1"], [b"HGETALL", b"H" + k], [b"SMEMBERS", b"S" + k], [b"HKEYS", b"H" + k], [b"HVALS", b"H" + k],
                   [b"MGET", k, b"nokey", k], [b"HMGET", b"H" + k, b"", b"nofield"], [b"LINDEX", b"L" + k, b"0"], [b"TYPE", k]]
        cs.append([b"KEYS", b"*"])
        return [Part(cut(rng, b"".join(enc(c) for c in cs), "whole"), 1)]
    g = Gen(rng, bad=0.35, binary=0.4, wrongtype=0.3)
    cs = []
    for _ in range(rng.randint(4, 20)):
        n = rng.choice(ALL)
        c = g.cmd(n)
        x = rng.random()
        if x < 0.35:            # an awkward argument somewhere, also the command name
            i = rng.randrange(len(c))
            c[i] = anybytes(rng, 10) if rng.random() < 0.7 else c[i] + rng.choice([b"\r\n", b"\n", b"\r", b"\x00", b"\r\n+OK", b"\r\n:1\r\n", b"\n-ERR x"])
        elif x < 0.42:
            c = [anybytes(rng, 10) for _ in range(rng.randint(1, 4))]
        if c[0].lower() == b"select":
            continue
        if c[0].lower() == b"setrange" and len(c) > 2 and len(c[2]) > 5:
            continue
        cs.append(c)
    return [Part(cut(rng, b"".join(enc(c) for c in cs), "whole"), 2)]


BADHEAD = [b"*-2\r\n", b"*x\r\n", b"*\r\n", b"*1\n", b"*99999999999999999999\r\n", b"*1.5\r\n", b"*-\r\n", b"* 1\r\n", b"*1\r\n$-2\r\n", b"*1\r\n$x\r\n", b"*1\r\n$\r\n",
           b"*2\r\n$3\r\nGET\r\n$99999999999999999999\r\n", b"*2\r\n$3\r\nGET\r\n$536870913\r\nx", b"*1\r\n$9223372036854775807\r\nx\r\n", b"*1\r\n$9223372036854775806\r\nx\r\n",
           b"*1\r\n$4\r\nPINGxx", b"*1\r\n$4\r\nPING\n\r", b"*1\r\n$3\r\nPING\r\n", b"*1\r\n$5\r\nPING\r\n*1\r\n$4\r\nPING\r\n", b"*3\r\n$3\r\nSET\r\n$1\r\nk1\r\n$1\r\nv\r\n",
           b"\r\n", b"\n", b"x\r\n", b"$\r\n", b"*3\r\n\r\n", b"*1\r\nPING\r\n", b"*1\r\n?\r\n", b"*1\r\n\n", b"*2147483648\r\n", b"*1000000\r\n", b"*1\r\n$-1\r\n", b"$-1\r\n", b"$3\r\nabc\r\n", b"+OK\r\n", b"-x\r\n",
           b":1\r\n", b":x\r\n", b"*1\r\n:1\r\n", b"*1\r\n:x\r\n", b"*1\r\n+PING\r\n", b"*1\r\n*1\r\n$4\r\nPING\r\n", b"*2\r\n*-1\r\n", b"*1\r\n*0\r\n", b"PING\r\n", b"GET k1\r\n", b"*0\r\n", b"*-1\r\n",
           b"\x00\r\n", b"\xff" * 20 + b"\r\n", b"*1\r\n$536870912\r\nshort", b"*1073741824\r\n$1\r\nx\r\n", b"*9223372036854775807\r\n$1\r\nx\r\n", b"*1\r\n$+4\r\nPING\r\n", b"*01\r\n$4\r\nPING\r\n"]


def c19_gen(rng):
    keys = [b"k1", b"k2", b"k3"]
    val = lambda: rng.choice([b"a", b"b", b"longer value", b"\r\n", b""])
    pre = [simple(rng, keys, val) for _ in range(rng.randint(0, 5))]
    good = [enc(c) for c in pre]
    x = rng.random()
    look = b"".join(enc([b"GET", k]) + enc([b"LRANGE", b"L" + k, b"0", b"-1"]) + enc([b"HGETALL", b"H" + k]) + enc([b"SMEMBERS", b"S" + k]) for k in keys) + enc([b"KEYS", b"*"])
    seed = Part([b"".join(enc([b"SET", k, b"seed"]) for k in keys)])
    if x < 0.40:            # something malformed after good commands, more after it
        tail = rng.choice(BADHEAD)
        if rng.random() < 0.5:
            tail += b"".join(enc(c) for c in [[b"SET", b"k1", b"EVIL"], [b"DEL", b"k2"]][:rng.randint(1, 2)])
        data = b"".join(good) + tail
        mid = [Part(cut(rng, data, rng.choice(["whole", "few", "bytes"])), 1, "half", None, pause(rng))]
    elif x < 0.60:          # one valid stream, bytes changed, inserted, dropped
        data = bytearray(b"".join(good) + enc([b"SET", b"k1", b"x"]) + enc([b"RPUSH", b"L1", b"a", b"b"]))
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(data))
            y = rng.random()
            if y < 0.4:
                data[i] = rng.choice(b"*$\r\n019-+:a\x00\xff")
            elif y < 0.7:
                del data[i]
            else:
                data.insert(i, rng.choice(b"*$\r\n019-+:a\x00"))
        mid = [Part(cut(rng, bytes(data), rng.choice(["whole", "few"])), 1, "half", None, pause(rng))]
    elif x < 0.75:          # truncated at any point
        data = b"".join(good) + enc([b"MSET", b"k1", b"EVIL", b"k2", b"EVIL"])
        data = data[:rng.randint(0, len(data) - 1)]
        mid = [Part(cut(rng, data, rng.choice(["whole", "few", "bytes"])), 1, "half", None, pause(rng))]
    elif x < 0.92:          # torn down in the middle of a command
        rest = enc(rng.choice([[b"MSET", b"k1", b"EVIL", b"k2", b"EVIL"], [b"DEL", b"k1", b"k2", b"k3"], [b"SET", b"k3", b"EVIL" * 2000]]))
        rest = rest[:rng.randint(0, len(rest) - 1)]
        if rng.random() < 0.3:
            rest += rng.choice(BADHEAD[:22]) if not rest else b""
        mid = [Part(cut(rng, rest, rng.choice(["whole", "few"])) if rest else [], 1, "reset", (len(good), b"".join(good)), pause(rng))]
    else:                   # noise
        data = bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 200))) if rng.random() < 0.5 else \
            bytes(rng.choice(b"*$\r\n\r\n012-+:a") for _ in range(rng.randint(1, 60)))
        mid = [Part(cut(rng, b"".join(good) + data, rng.choice(["whole", "few"])), 1, "half", None, pause(rng))]
    return [seed] + mid + [Part([look])]


def unread(srv, db):
    """clients that ask for much and never read, then vanish"""
    c = srv.conn(20)
    c.cmd(b"SELECT", b"%d" % db)
    c.cmd(b"SET", b"big", b"x" * 300000)
    c.close()
    for how in ("close", "reset"):
        s = socket.create_connection(("127.0.0.1", srv.port))
        s.setblocking(False)
        try:
            for _ in range(200):
                s.send(enc([b"SELECT", b"%d" % db]) + enc([b"GET", b"big"]))
        except (BlockingIOError, OSError):
            pass
        if how == "reset":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()


GENS = {"C17": c17_gen, "C18": c18_gen, "C19": c19_gen}


def _job(a):
    scrdir, binary, pid, seed, n, idx = a
    try:
        return wire_worker(scrdir, binary, GENS[pid], seed, n, idx, pid, watch=pid == "C19")
    except Inconclusive as e:
        return e


def wire_check(scr, pid, seed, chunks, per, procs=7):
    binary = build_server(scr)
    cov, bad, notes = seqcheck.Cover(), [], []
    with multiprocessing.Pool(procs) as pool:
        for r in pool.imap_unordered(_job, [(scr.dir, binary, pid, seed, per, i) for i in range(chunks)]):
            if isinstance(r, Exception):
                pool.terminate()
                raise r
            cov.add(r[0])
            bad += r[1]
            notes += r[2]
            if bad:
                pool.terminate()
                break
    return cov, bad, notes
