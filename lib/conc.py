"""Concurrent conformance: scenarios of overlapping commands run on the real
store under the controlled scheduler; the histories that occur are checked by
TLC against LinCheck.tla."""
import itertools, multiprocessing, threading
from vlib import *


# ------------------------------------------------------------ replies
def parse_raw(s):
    """raw RESP (specification characters) -> specification reply"""
    b = tobytes(s)

    def one(i, nested):
        j = b.find(b"\r\n", i)
        if j < 0:
            raise BadReply("truncated")
        t, v = b[i:i + 1], b[i + 1:j]
        j += 2
        if t == b"+":
            return ["s", tostr(v)], j
        if t == b"-":
            return ["e"], j
        if t == b":":
            if not re.fullmatch(rb"-?\d+", v):
                raise BadReply("integer")
            return ["i", tostr(v)], j
        if t == b"$":
            if v == b"-1":
                return ["n"], j
            n = int(v)
            if b[j + n:j + n + 2] != b"\r\n":
                raise BadReply("bulk")
            return ["b", tostr(b[j:j + n])], j + n + 2
        if t == b"*" and not nested:
            if v == b"-1":
                return ["a"], j
            out = ["a"]
            for _ in range(int(v)):
                r, j = one(j, True)
                out.append({"s": "+", "e": "-", "i": ":", "b": "$", "n": "_"}[r[0]] + (r[1] if len(r) > 1 else ""))
            return out, j
        raise BadReply("type")
    try:
        r, j = one(0, False)
        if j != len(b):
            raise BadReply("trailing bytes")
        return r
    except (BadReply, ValueError):
        return ["malformed", s]


def to_hist(ev, nops):
    """events of the runner -> history of LinCheck"""
    q, r, e = [["PING"]] * nops, [["none"]] * nops, []
    for x in ev:
        k = x["K"]
        if k == "o":
            e.append(["o", x["Q"], parse_raw(x["R"])])
        elif k == "t":
            e.append(["t", x["T"]])
        elif k == "i":
            q[x["Op"]] = x["Q"]
            e.append(["i", x["Op"] + 1])
        else:
            r[x["Op"]] = parse_raw(x["R"])
            e.append(["r", x["Op"] + 1])
    return {"q": q, "r": r, "e": e}


def show_hist(h):
    out = []
    for e in h["e"]:
        if e[0] == "o":
            out.append("      %s -> %s" % (" ".join(e[1]), " ".join(e[2])[:120]))
        elif e[0] == "t":
            out.append("      clock %+d ms" % (e[1] - BASE_MS))
        elif e[0] == "i":
            out.append("  >%d  %s" % (e[1], " ".join(h["q"][e[1] - 1])))
        else:
            out.append("  <%d  %s" % (e[1], " ".join(h["r"][e[1] - 1])[:120]))
    return out


# ------------------------------------------------------------ running
class Runner:
    def __init__(self, binary):
        self.dir = tempfile.mkdtemp(prefix="run_", dir=os.path.dirname(binary))
        e = dict(os.environ, VHARNESS=self.dir, GOTRACEBACK="none", GOGC="200")
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        self.errs = []
        threading.Thread(target=lambda: self.errs.append(self.p.stderr.read()), daemon=True).start()
        self.ok = "PONG" in (self.line() or b"").decode()

    def line(self):
        while True:
            l = self.p.stdout.readline()
            if not l:
                return None
            i = l.find(b"@@R ")
            if i >= 0:
                return l[i + 4:]

    def run(self, sc):
        """result dict, or None if the process ended"""
        try:
            self.p.stdin.write(json.dumps(sc, ensure_ascii=False).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return None
        l = self.line()
        return json.loads(l) if l else None

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


def run_batch(job):
    """one process: scenarios -> histories -> TLC.  Returns a dict of totals."""
    scrdir, binary, scs, tag, judge_hist = job
    tot = dict(scenarios=0, runs=0, steps=0, orders=0, hist=0, states=0, trans=0, bad=[], notes=[], samples=[])
    hists, meta = [], []
    r = None
    for sc in scs:
        if r is None:
            r = Runner(binary)
            if not r.ok:
                r.stop()
                tot["notes"].append("scheduled store unusable: no PONG")
                return tot
        res = r.run(sc)
        if res is None:
            time.sleep(0.2)
            err = b"".join(r.errs).decode("utf8", "replace")
            r.stop()
            r = None
            if "stalled" in err:
                tot["notes"].append("run stalled outside the scheduler")
            elif "panic" in err or "fatal error" in err:
                m = re.search(r"(panic:|fatal error:).*", err)
                tot["bad"].append((m.group(0)[:200], sc, None, None))
            else:
                tot["notes"].append("runner ended: " + err[-200:])
            if len(tot["bad"]) + len(tot["notes"]) >= 3:
                break
            continue
        tot["scenarios"] += 1
        tot["runs"] += res["Runs"]
        tot["steps"] += res["Steps"]
        tot["orders"] += res["Orders"]
        nops = sum(len(t) for t in sc["Threads"])
        if res["Problem"]:
            tot["bad"].append(("%s %s" % (res["Problem"], res["Detail"][:300]), sc, res["Plan"], to_hist(res["Ev"] or [], nops)))
            r.stop()
            r = None
            if len(tot["bad"]) >= 3:
                break
        for h in res["Hist"] or []:
            hists.append(to_hist(h["Ev"], nops))
            meta.append((sc, h["Plan"]))
    if r:
        r.stop()
    tot["hist"] = len(hists)
    tot["samples"] = [" ; ".join(x.strip() for x in show_hist(h)) for h in hists[len(hists) // 2:][:1]]
    if judge_hist and hists:
        ok, states = lincheck(scrdir, hists, tag)
        tot["states"], tot["trans"] = states
        for i, h in enumerate(hists):
            if i + 1 not in ok:
                tot["bad"].append(("no one-at-a-time order explains this history", meta[i][0], meta[i][1], h))
                if len(tot["bad"]) > 5:
                    break
    return tot


def lincheck(scrdir, hists, tag):
    path = os.path.join(scrdir, "hist%s.json" % tag)
    with open(path, "w") as f:
        json.dump(hists, f, ensure_ascii=False)
    rc, out = tlc("LinCheck.tla", "LinCheck.cfg", env={"TRACE": path}, timeout=800, workers=1, heap="3g")
    tlc_ok(rc, out, "LinCheck")
    ok = {int(x) for x in re.findall(r'"?OK (\d+)"?', out)}
    gen, distinct = tlc_stats(out)
    os.unlink(path)
    return ok, (distinct, gen)


def run_scenarios(scr, binary, scs, procs=7, judge_hist=True):
    for i, sc in enumerate(scs):
        sc["ID"] = i + 1
    jobs = [(scr.dir, binary, scs[i::procs], str(i), judge_hist) for i in range(procs) if scs[i::procs]]
    tot = dict(scenarios=0, runs=0, steps=0, orders=0, hist=0, states=0, trans=0, bad=[], notes=[], samples=[])
    with multiprocessing.Pool(len(jobs)) as pool:
        for t in pool.imap_unordered(run_batch, jobs):
            for k, v in t.items():
                tot[k] = tot[k] + v
    return tot


# ------------------------------------------------------------ scenarios
STR = [["SET", "{k}", "x"], ["SET", "{k}", "7", "NX"], ["SET", "{k}", "y", "XX"], ["SET", "{k}", "z", "GET"], ["GET", "{k}"],
       ["SETNX", "{k}", "n"], ["APPEND", "{k}", "4"], ["APPEND", "{k}", "5"], ["STRLEN", "{k}"], ["INCR", "{k}"], ["DECR", "{k}"],
       ["INCRBY", "{k}", "10"], ["DECRBY", "{k}", "3"], ["INCRBYFLOAT", "{k}", "0.5"], ["SETRANGE", "{k}", "1", "9"],
       ["SETRANGE", "{k}", "3", "88"], ["GETRANGE", "{k}", "0", "-1"], ["SETEX", "{k}", "50", "e"], ["SET", "{k}", "q", "KEEPTTL"],
       ["SET", "{k}", "p", "EX", "60"]]
HASH = [["HSET", "{k}", "f", "1"], ["HSET", "{k}", "g", "2", "f", "3"], ["HSETNX", "{k}", "f", "4"], ["HSETNX", "{k}", "h", "5"],
        ["HMSET", "{k}", "f", "6", "g", "6"], ["HGET", "{k}", "f"], ["HMGET", "{k}", "f", "g"], ["HGETALL", "{k}"], ["HKEYS", "{k}"],
        ["HVALS", "{k}"], ["HLEN", "{k}"], ["HEXISTS", "{k}", "f"], ["HSTRLEN", "{k}", "f"], ["HDEL", "{k}", "f"],
        ["HDEL", "{k}", "f", "g"], ["HINCRBY", "{k}", "f", "1"], ["HINCRBY", "{k}", "f", "10"], ["HINCRBYFLOAT", "{k}", "f", "0.5"],
        ["HRANDFIELD", "{k}"], ["HRANDFIELD", "{k}", "2"]]
LIST = [["LPUSH", "{k}", "1"], ["RPUSH", "{k}", "2"], ["LPUSH", "{k}", "3", "4"], ["RPUSHX", "{k}", "5"], ["LPUSHX", "{k}", "6"],
        ["LPOP", "{k}"], ["RPOP", "{k}"], ["LPOP", "{k}", "2"], ["RPOP", "{k}", "2"], ["LLEN", "{k}"], ["LINDEX", "{k}", "0"],
        ["LINDEX", "{k}", "-1"], ["LRANGE", "{k}", "0", "-1"], ["LSET", "{k}", "0", "7"], ["LSET", "{k}", "-1", "8"],
        ["LINSERT", "{k}", "BEFORE", "a", "9"], ["LINSERT", "{k}", "AFTER", "b", "10"], ["LREM", "{k}", "0", "a"], ["LREM", "{k}", "-1", "b"],
        ["LTRIM", "{k}", "1", "-1"], ["LTRIM", "{k}", "5", "9"], ["LPOS", "{k}", "a"], ["LPOS", "{k}", "b", "COUNT", "0"],
        ["LMOVE", "{k}", "{k}", "LEFT", "RIGHT"]]
SET = [["SADD", "{k}", "a"], ["SADD", "{k}", "b", "c"], ["SADD", "{k}", "z"], ["SREM", "{k}", "a"], ["SREM", "{k}", "a", "b"],
       ["SCARD", "{k}"], ["SISMEMBER", "{k}", "a"], ["SMEMBERS", "{k}"], ["SPOP", "{k}"], ["SPOP", "{k}", "2"], ["SRANDMEMBER", "{k}"],
       ["SRANDMEMBER", "{k}", "2"]]
KEY = [["DEL", "{k}"], ["EXISTS", "{k}"], ["TYPE", "{k}"], ["EXPIRE", "{k}", "70"], ["EXPIRE", "{k}", "80", "NX"],
       ["EXPIRE", "{k}", "40", "LT"], ["EXPIRE", "{k}", "90", "GT"], ["EXPIRE", "{k}", "65", "XX"], ["EXPIRE", "{k}", "-1"],
       ["PERSIST", "{k}"], ["TTL", "{k}"]]
MAKE = {"str": [["SET", "{k}", "12"]], "hash": [["HSET", "{k}", "f", "1", "g", "x"], ["HSET", "{k}", "f", "1"]],
        "list": [["RPUSH", "{k}", "a", "b", "a"], ["RPUSH", "{k}", "a"]], "set": [["SADD", "{k}", "a", "b", "d"], ["SADD", "{k}", "a"]]}
FAM = {"str": STR, "hash": HASH, "list": LIST, "set": SET}
RO = set("GET GETRANGE MGET STRLEN HGET HMGET HGETALL HKEYS HVALS HLEN HEXISTS HSTRLEN HRANDFIELD LLEN LINDEX LRANGE LPOS SCARD "
         "SISMEMBER SMEMBERS SRANDMEMBER SINTER SUNION SDIFF EXISTS TYPE KEYS TTL PING".split())


def fill(t, **kw):
    return [a.format(**kw) if "{" in a else a for a in t]


def scen(rng, setup, threads, keys, segnum=None, ticks=(), single=2000, rnd=60, keep=3, maxhist=40, limit=100000):
    return dict(ID=0, Seed=rng.randrange(1 << 30), SegNum=segnum or rng.choice([1, 2, 100]), Setup=setup, Threads=threads, Ticks=list(ticks),
                Keys=keys, Single=single, Random=rnd, Keep=keep, MaxHist=maxhist, Limit=limit)


def writes(t):
    return t[0] not in RO


def c01(rng, scale):
    out = []
    # every pair of commands of one family (one of them writing), all single preemptions
    pairs = []
    for f, cmds in FAM.items():
        for a, b in itertools.combinations_with_replacement(cmds + KEY, 2):
            if a in KEY and b in KEY and f != "str":
                continue
            if writes(a) or writes(b):
                pairs.append((f, a, b))
    rng.shuffle(pairs)
    for f, a, b in pairs[:int(1400 * min(scale, 1))] if scale < 1 else pairs:
        pre = rng.choice(["none", "make", "make", "make", "ttl"])
        setup = [] if pre == "none" else [fill(rng.choice(MAKE[f]), k="k")] + ([["EXPIRE", "k", "55"]] if pre == "ttl" else [])
        th = [[fill(a, k="k")], [fill(b, k="k")]]
        rng.shuffle(th)
        out.append(scen(rng, setup, th, ["k"], single=600, rnd=30))
    # larger ones
    for _ in range(int(250 * scale)):
        f = rng.choice(list(FAM))
        pool = FAM[f] + KEY[:3] if rng.random() < 0.6 else FAM[f] + KEY + [x for x in FAM[rng.choice(list(FAM))] if writes(x)]
        ks = ["k"] if rng.random() < 0.75 else ["k", "m"]
        n = rng.choice([2, 3, 3])
        th = []
        for _ in range(n):
            th.append([fill(rng.choice(pool), k=rng.choice(ks)) for _ in range(rng.choice([1, 2, 2]) if n == 2 else rng.choice([1, 1, 2]))])
        setup = [fill(rng.choice(MAKE[f]), k=k) for k in ks if rng.random() < 0.75]
        if setup and rng.random() < 0.2:
            setup.append(["EXPIRE", "k", "55"])
        out.append(scen(rng, setup, th, ks, single=150, rnd=250, keep=2, maxhist=30))
    # counters and set-if-absent: n threads
    for op in (["INCR", "k"], ["DECRBY", "k", "2"], ["HINCRBY", "k", "f", "1"], ["SETNX", "k", "1"], ["HSETNX", "k", "f", "1"],
               ["SET", "k", "1", "NX"], ["APPEND", "k", "x"], ["RPUSH", "k", "x"], ["SADD", "k", "x"], ["LPOP", "k"], ["SPOP", "k"]):
        pre = [["RPUSH", "k", "a", "b", "c"]] if op[0] == "LPOP" else [["SADD", "k", "a", "b", "c"]] if op[0] == "SPOP" else []
        out.append(scen(rng, pre, [[op]] * 4, ["k"], single=240, rnd=300))
        out.append(scen(rng, pre, [[op, op], [op], [op]], ["k"], single=240, rnd=300))
    return out


MULTI = [["MSET", "{a}", "1", "{b}", "2"], ["MSET", "{b}", "3", "{a}", "4"], ["MSET", "{a}", "1", "{b}", "2", "{c}", "3"],
         ["MGET", "{a}", "{b}"], ["MGET", "{b}", "{a}", "{c}"], ["DEL", "{a}", "{b}"], ["DEL", "{b}", "{a}", "{c}"], ["EXISTS", "{a}", "{b}"],
         ["EXISTS", "{b}", "{a}", "{b}"], ["RENAME", "{a}", "{b}"], ["RENAME", "{b}", "{a}"]]
MLIST = [["LMOVE", "{a}", "{b}", "LEFT", "RIGHT"], ["LMOVE", "{b}", "{a}", "RIGHT", "LEFT"], ["LMOVE", "{a}", "{b}", "RIGHT", "RIGHT"]]
MSET = [["SMOVE", "{a}", "{b}", "a"], ["SMOVE", "{b}", "{a}", "d"], ["SINTER", "{a}", "{b}"], ["SUNION", "{a}", "{b}"], ["SDIFF", "{a}", "{b}"],
        ["SUNION", "{b}", "{a}", "{c}"], ["SINTERSTORE", "{c}", "{a}", "{b}"], ["SUNIONSTORE", "{a}", "{a}", "{b}"], ["SDIFFSTORE", "{b}", "{a}", "{b}"],
        ["SUNIONSTORE", "{c}", "{b}", "{a}"], ["SDIFFSTORE", "{c}", "{a}", "{b}"], ["SINTERSTORE", "{a}", "{a}", "{b}"]]


def c02(rng, scale):
    out = []
    fams = {"str": MULTI, "list": MULTI[5:] + MLIST, "set": MULTI[5:] + MSET}
    make = {"str": [["SET", "{k}", "12"], ["SET", "{k}", "5"]], "list": MAKE["list"], "set": MAKE["set"] + [["SADD", "{k}", "b", "d", "e"]]}
    seen = {"str": [["GET", "{k}"], ["SET", "{k}", "9"], ["APPEND", "{k}", "9"], ["SETNX", "{k}", "8"]],
            "list": [["LRANGE", "{k}", "0", "-1"], ["LLEN", "{k}"], ["RPUSH", "{k}", "z"], ["LPOP", "{k}"]],
            "set": [["SMEMBERS", "{k}"], ["SCARD", "{k}"], ["SADD", "{k}", "z"], ["SREM", "{k}", "a"], ["SISMEMBER", "{k}", "a"]]}
    common = [["DEL", "{k}"], ["EXISTS", "{k}"], ["TYPE", "{k}"], ["TTL", "{k}"]]
    names = [("a", "b", "c"), ("key1", "key2", "key3"), ("b", "a", "aa")]
    SEG = [1, 2, 3, 100, 100]

    def setup(f, n, p=0.8):
        s = [fill(rng.choice(make[f]), k=k) for k in n if rng.random() < p]
        if rng.random() < 0.15:
            s.append(["EXPIRE", n[rng.randrange(2)], "55"])
        return s
    todo = []
    for f, cmds in fams.items():
        for x, y in itertools.combinations_with_replacement(cmds, 2):
            if writes(x) or writes(y):
                todo.append((f, x, y))
    rng.shuffle(todo)
    for f, x, y in todo:
        n = rng.choice(names)
        kw = dict(zip("abc", n))
        th = [[fill(x, **kw)], [fill(y, **kw)]]
        rng.shuffle(th)
        out.append(scen(rng, setup(f, n, 0.85), th, list(n), segnum=rng.choice(SEG), single=900, rnd=40))
    # one multi-key command, observed or disturbed key by key
    todo = [(f, x, o1, o2) for f, cmds in fams.items() for x in cmds for o1 in seen[f] + common for o2 in seen[f] + common[:2]]
    rng.shuffle(todo)
    for f, x, o1, o2 in todo[:int(500 * scale)]:
        n = rng.choice(names)
        kw = dict(zip("abc", n))
        k1, k2 = rng.sample(n[:2], 2) if rng.random() < 0.7 else rng.sample(n, 2)
        out.append(scen(rng, setup(f, n, 0.85), [[fill(x, **kw)], [fill(o1, k=k1), fill(o2, k=k2)]], list(n), segnum=rng.choice(SEG), single=700, rnd=60))
    # many keys: each command names more of them than the other touches
    many = {"str": (["MGET"], ["EXISTS"], ["DEL"], ["MSET"]), "set": (["SUNION"], ["SINTER"], ["SDIFF"], ["EXISTS"], ["DEL"], ["SUNIONSTORE"], ["SDIFFSTORE"], ["SINTERSTORE"]),
            "list": (["EXISTS"], ["DEL"])}
    two = {"str": [x for x in MULTI if writes(x) and "{c}" not in x], "list": [["DEL", "{a}", "{b}"], ["RENAME", "{a}", "{b}"]] + MLIST,
           "set": [["DEL", "{a}", "{b}"], ["RENAME", "{a}", "{b}"]] + [x for x in MSET if writes(x) and "{c}" not in x]}
    for i in range(int(260 * scale)):
        f = rng.choice(["str", "str", "set", "set", "list"])
        n = ["k%d" % j for j in range(1, 9)]
        rng.shuffle(n)
        n = n[:rng.choice([4, 5, 6, 8])]
        x = rng.choice(many[f])
        big = x + ([y for k in n for y in (k, "n" + k)] if x == ["MSET"] else n)
        a, b = rng.sample(n, 2)
        if x[0].endswith("STORE"):
            a, b = rng.sample(n[1:], 2)
        small = [fill(rng.choice(two[f]), a=a, b=b)] if rng.random() < 0.6 else [fill(rng.choice(seen[f] + common), k=a), fill(rng.choice(seen[f] + common), k=b)]
        if rng.random() < 0.25:
            y = rng.choice(many[f])
            sub = rng.sample(n, 3)
            small = [y + ([z for k in sub for z in (k, "o" + k)] if y == ["MSET"] else sub)]
        th = [[big], small]
        rng.shuffle(th)
        out.append(scen(rng, setup(f, n, 0.9), th, n, segnum=rng.choice([2, 3, 5, 16, 100, 100, 100]), single=700, rnd=60))
    for _ in range(int(250 * scale)):
        f = rng.choice(list(fams))
        n = rng.choice(names)
        th = []
        for i in range(rng.choice([2, 3, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                p = list(n)
                rng.shuffle(p)
                if rng.random() < 0.1:
                    p[1] = p[0]
                ops.append(fill(rng.choice(fams[f]), **dict(zip("abc", p))) if i == 0 or rng.random() < 0.6
                           else fill(rng.choice(seen[f] + common), k=p[0]))
            th.append(ops)
        out.append(scen(rng, setup(f, n), th, list(n), segnum=rng.choice(SEG), single=150, rnd=250, keep=2, maxhist=30))
    return out


REFUSED = [["SET", "{k}", "1", "EX"], ["SET", "{k}", "1", "NX", "XX"], ["SET", "{k}", "1", "EX", "x"], ["SET", "{k}", "1", "BOGUS"],
           ["SET", "{k}", "1", "GET"], ["SETEX", "{k}", "x", "1"], ["GETRANGE", "{k}", "a", "b"], ["SETRANGE", "{k}", "-1", "x"],
           ["SETRANGE", "{k}", "x", "x"], ["INCRBY", "{k}", "x"], ["INCRBYFLOAT", "{k}", "x"], ["HINCRBY", "{k}", "f", "x"],
           ["HINCRBYFLOAT", "{k}", "f", "x"], ["HSET", "{k}", "f"], ["LPOP", "{k}", "x"], ["LPOP", "{k}", "0"], ["LSET", "{k}", "99", "x"],
           ["LSET", "{k}", "x", "x"], ["LINSERT", "{k}", "AROUND", "a", "b"], ["LINSERT", "{k}", "BEFORE", "nosuch", "b"], ["LTRIM", "{k}", "x", "0"],
           ["LREM", "{k}", "x", "a"], ["LPOS", "{k}", "a", "RANK", "0"], ["LPOS", "{k}", "a", "BOGUS", "1"], ["LMOVE", "{k}", "{m}", "UP", "LEFT"],
           ["LMOVE", "{k}", "{m}", "LEFT", "DOWN"], ["SPOP", "{k}", "x"], ["SPOP", "{k}", "-1"], ["SRANDMEMBER", "{k}", "x"], ["SMOVE", "{k}", "{m}"],
           ["SMOVE", "{k}", "{m}", "nosuch"], ["MSET", "{k}", "1", "{m}"], ["MSET", "{k}"], ["RENAME", "{k}"], ["RENAME", "nosuch", "{k}"], ["EXPIRE", "{k}", "x"],
           ["EXPIRE", "{k}", "9", "BOGUS"], ["EXPIRE", "nosuch", "9"], ["PERSIST", "nosuch"], ["HRANDFIELD", "{k}", "x"], ["LRANGE", "{k}", "x", "1"],
           ["LINDEX", "{k}", "x"], ["GET"], ["DEL"], ["NOSUCHCMD", "{k}"], ["SINTER"], ["SINTERSTORE", "{k}"], ["KEYS"], ["LPUSHX", "nosuch", "1"],
           ["HDEL", "{k}", "nosuch"], ["SREM", "{k}", "nosuch"], ["HSETNX", "{k}", "f", "1"], ["SETNX", "{k}", "1"], ["SET", "{k}", "1", "NX"], ["SET", "{k}", "1", "XX"],
           ["MGET"], ["EXISTS"], ["TYPE"], ["TTL"], ["SADD", "{k}"], ["RPUSH", "{k}"], ["HMGET", "{k}"], ["LMOVE", "nosuch", "{k}", "LEFT", "LEFT"]]

PAIRCMD = [["MSET", "{k}", "1", "{m}", "2"], ["MGET", "{k}", "{m}"], ["DEL", "{k}", "{m}"], ["EXISTS", "{k}", "{m}"], ["RENAME", "{k}", "{m}"],
           ["LMOVE", "{k}", "{m}", "LEFT", "RIGHT"], ["SMOVE", "{k}", "{m}", "a"], ["SINTER", "{k}", "{m}"], ["SUNION", "{k}", "{m}"], ["SDIFF", "{k}", "{m}"],
           ["SINTERSTORE", "{k}", "{m}", "{k}"], ["SUNIONSTORE", "{k}", "{m}", "{m}"], ["SDIFFSTORE", "{m}", "{k}", "{m}"], ["SINTERSTORE", "{k}", "{m}", "{n}"],
           ["SUNIONSTORE", "{n}", "{m}", "{k}"], ["MGET", "{n}", "{m}", "{k}", "{n}"], ["DEL", "{m}", "{n}", "{k}", "{m}"], ["MSET", "{n}", "1", "{k}", "2", "{n}", "3"]]

# keys chosen so that stripes collide and sort differently for various numbers of segments
C03KEYS = [["a", "b", "c"], ["k1", "k2", "k3"], ["foo", "bar", "baz"], ["x", "yy", "zzz"], ["", "0", "@"]]
ALLSINGLE = STR + HASH + LIST + SET + KEY


def anytype(rng, k):
    return fill(rng.choice(rng.choice(list(MAKE.values()))), k=k)


def c03(rng, scale):
    out = []
    # every single command form, alone and repeated, on every type: it returns and leaves nothing locked
    for t in REFUSED + ALLSINGLE + PAIRCMD + MULTI + MLIST + MSET:
        for f in (None, "str", "hash", "list", "set"):
            ks = rng.choice(C03KEYS)
            kw = dict(k=ks[0], m=ks[1], n=ks[2], a=ks[0], b=ks[1], c=ks[2])
            if rng.random() < 0.35:       # the same key throughout
                kw = {x: ks[0] for x in kw}
            setup = [fill(rng.choice(MAKE[f]), k=k) for k in ks if rng.random() < 0.8] if f else []
            q = fill(t, **kw)
            out.append(scen(rng, setup, [[q, q], [fill(rng.choice(PAIRCMD), k=ks[1], m=ks[0], n=ks[2])]], ks,
                            segnum=rng.choice([1, 2, 3, 7, 100]), single=60, rnd=15, keep=1, maxhist=2))
    # opposite orders, shared and repeated keys
    for x, y in itertools.product(PAIRCMD, PAIRCMD):
        for seg in ([1, 100] if scale < 2 else [1, 2, 3, 7, 100]):
            ks = list(rng.choice(C03KEYS))
            p = list(ks)
            rng.shuffle(p)
            setup = [anytype(rng, k) for k in ks] if rng.random() < 0.5 else [fill(MAKE[rng.choice(["list", "set"])][0], k=k) for k in ks]
            th = [[fill(x, k=ks[0], m=ks[1], n=ks[2])], [fill(y, k=ks[1], m=ks[0], n=ks[2])]]
            if rng.random() < 0.5:
                th.append([fill(rng.choice(PAIRCMD), k=p[0], m=p[1], n=p[2])])
            out.append(scen(rng, setup, th, ks, segnum=seg if rng.random() < 0.6 else rng.choice([2, 3, 5, 16]), single=150, rnd=60, keep=1, maxhist=2))
    # anything at all
    for _ in range(int(300 * scale)):
        ks = list(rng.choice(C03KEYS))
        setup = [anytype(rng, k) for k in ks if rng.random() < 0.8]
        ticks = []
        if rng.random() < 0.3:
            setup += [["EXPIRE", k, "1"] for k in ks]
            ticks = [1000, 1000]
        th = []
        for _ in range(rng.choice([2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 2])):
                p = [rng.choice(ks) for _ in range(3)]
                ops.append(fill(rng.choice(rng.choice([REFUSED, ALLSINGLE, PAIRCMD, PAIRCMD, [["KEYS", "*"]]])), k=p[0], m=p[1], n=p[2]))
            th.append(ops)
        out.append(scen(rng, setup, th, ks, segnum=rng.choice([1, 1, 2, 3, 100]), ticks=ticks, single=100, rnd=150, keep=1, maxhist=2))
    return out


# commands that give a key a new life
FRESH = {"str": [["SET", "{k}", "new"], ["SETEX", "{k}", "100", "new"], ["SET", "{k}", "new", "EX", "100"], ["SETNX", "{k}", "new"], ["MSET", "{k}", "new", "o", "new"],
                 ["APPEND", "{k}", "new"], ["INCR", "{k}"], ["SETRANGE", "{k}", "0", "new"], ["SET", "{k}", "new", "NX"], ["SET", "{k}", "new", "GET"],
                 ["SET", "{k}", "new", "KEEPTTL"], ["INCRBYFLOAT", "{k}", "1"]],
         "hash": [["HSET", "{k}", "f", "new"], ["HSETNX", "{k}", "f", "new"], ["HINCRBY", "{k}", "f", "3"], ["HMSET", "{k}", "f", "new"], ["HDEL", "{k}", "f"]],
         "list": [["RPUSH", "{k}", "new"], ["LPUSH", "{k}", "new"], ["LPUSHX", "{k}", "new"], ["LMOVE", "src", "{k}", "LEFT", "LEFT"], ["LPOP", "{k}"], ["LMOVE", "{k}", "src", "LEFT", "LEFT"]],
         "set": [["SADD", "{k}", "new"], ["SMOVE", "srcs", "{k}", "a"], ["SUNIONSTORE", "{k}", "srcs"], ["SPOP", "{k}"], ["SINTERSTORE", "{k}", "srcs", "srcs"]]}
FRESHALL = [["RENAME", "o", "{k}"], ["RENAME", "{k}", "o"], ["PERSIST", "{k}"], ["EXPIRE", "{k}", "100"], ["DEL", "{k}"], ["EXPIRE", "{k}", "100", "GT"]]
TOUCH = {"str": [["GET", "{k}"], ["STRLEN", "{k}"], ["MGET", "{k}", "o"], ["GETRANGE", "{k}", "0", "-1"]], "hash": [["HGETALL", "{k}"], ["HLEN", "{k}"], ["HGET", "{k}", "f"]],
         "list": [["LRANGE", "{k}", "0", "-1"], ["LLEN", "{k}"]], "set": [["SMEMBERS", "{k}"], ["SCARD", "{k}"], ["SINTER", "{k}", "srcs"]]}
TOUCHALL = [["EXISTS", "{k}"], ["TYPE", "{k}"], ["TTL", "{k}"], ["KEYS", "*"], ["EXISTS", "{k}", "o"]]


def c22(rng, scale):
    out = []
    todo = []
    for f in FRESH:
        for w in FRESH[f] + FRESHALL:
            for x in TOUCH[f] + TOUCHALL + FRESH[f] + FRESHALL:
                todo.append((f, w, x))
    rng.shuffle(todo)
    for f, w, x in todo if scale >= 1 else todo[:int(len(todo) * scale)]:
        mk = rng.choice(MAKE[f])
        when = rng.choice(["expired", "expired", "running", "running", "shared"])
        setup = [fill(mk, k="k"), ["EXPIRE", "k", "1"]] if f != "str" or rng.random() < 0.5 else [["SET", "k", "12", "EX", "1"]]
        if any("src" in a for a in w + x):
            setup += [["RPUSH", "src", "a", "b"], ["SADD", "srcs", "a", "b"]]
        if any(a == "o" for a in w + x) and rng.random() < 0.7:
            setup += [["SET", "o", "5"]]
        ticks = []
        if when == "expired":
            setup += [["@tick", "1000"], ["@tick", "1000"]]
        else:
            ticks = [1000, 1000]
        th = [[fill(w, k="k")], [fill(x, k="k")]]
        if when == "shared":
            th[1].append(fill(rng.choice(TOUCH[f] + TOUCHALL), k="k"))
        rng.shuffle(th)
        ks = ["k"] + [z for z in ("o", "src", "srcs") if any(z in q for q in setup + th[0] + th[1])]
        out.append(scen(rng, setup, th, ks, segnum=rng.choice([1, 2, 100]), ticks=ticks, single=500, rnd=120, keep=2, maxhist=24))
    for _ in range(int(200 * scale)):
        f = rng.choice(list(FRESH))
        setup = [fill(rng.choice(MAKE[f]), k="k"), ["EXPIRE", "k", "1"], ["SET", "o", "5"]]
        if rng.random() < 0.4:
            setup.append(["EXPIRE", "o", rng.choice(["0", "1", "2"])])
        if f in ("list", "set"):
            setup += [["RPUSH", "src", "a", "b"], ["SADD", "srcs", "a", "b"]]
        ticks = [1000, 1000]
        if rng.random() < 0.5:
            setup += [["@tick", "1000"], ["@tick", "1000"]]
            ticks = rng.choice([[], [1000]])
        th = [[fill(rng.choice(FRESH[f] + FRESHALL + TOUCH[f] + TOUCHALL), k="k") for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 3, 3]))]
        out.append(scen(rng, setup, th, ["k", "o"] + (["src", "srcs"] if f in ("list", "set") else []), segnum=rng.choice([1, 2, 100]), ticks=ticks,
                        single=200, rnd=250, keep=2, maxhist=24))
    return out


def c23(rng, scale):
    out = []
    W = [["SET", "{k}", "1"], ["DEL", "{k}"], ["RPUSH", "{k}", "1"], ["HSET", "{k}", "f", "1"], ["SADD", "{k}", "1"], ["MSET", "{k}", "1", "{m}", "2"],
         ["DEL", "{k}", "{m}"], ["RENAME", "{k}", "{m}"], ["RENAME", "{m}", "{k}"], ["SETNX", "{k}", "1"], ["EXPIRE", "{k}", "-1"], ["EXPIRE", "{k}", "1"], ["GET", "{k}"],
         ["SETEX", "{k}", "1", "x"], ["INCR", "{k}"], ["LPOP", "{k}"], ["SPOP", "{k}"], ["HDEL", "{k}", "f"], ["APPEND", "{k}", "x"], ["PERSIST", "{k}"], ["EXISTS", "{k}"], ["TTL", "{k}"]]
    P = ["*", "*", "*", "k*", "?1", "[km]*", "k[1-3]", "nothing", "m?", "k1"]
    allk = ["k1", "k2", "k3", "m1", "m2", "other", "q"]
    for i in range(int(700 * scale)):
        ks = rng.sample(allk, rng.choice([1, 2, 3, 5]))
        setup = []
        for k in ks:
            if rng.random() < 0.75:
                setup.append(anytype(rng, k))
                if rng.random() < 0.35:
                    setup.append(["EXPIRE", k, rng.choice(["0", "1", "2", "50"])])
        ticks = []
        if rng.random() < 0.5:
            n = rng.choice([1, 2])
            if rng.random() < 0.5:
                setup += [["@tick", "1000"]] * n
                ticks = [1000] * rng.choice([0, 0, 1])
            else:
                ticks = [1000] * n
        th = [[["KEYS", rng.choice(P)]] + ([["KEYS", "*"]] if rng.random() < 0.15 else [])]
        for _ in range(rng.choice([1, 1, 2, 2])):
            th.append([fill(rng.choice(W), k=rng.choice(ks + allk[:2]), m=rng.choice(ks + allk[:3])) for _ in range(rng.choice([1, 2, 2, 3]))])
        if rng.random() < 0.15:
            th.append([["KEYS", rng.choice(P)]])
        rng.shuffle(th)
        used = sorted(set(ks) | set(allk[:3]))
        out.append(scen(rng, setup, th, used, segnum=rng.choice([1, 2, 3, 8]), ticks=ticks, single=250, rnd=200, keep=2, maxhist=24))
    return out
