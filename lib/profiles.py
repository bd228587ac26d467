"""Per-property input histories for the sequential conformance checks.

A profile makes segments (inputs only).  Which replies are judged for the
property is marked per step; what the replies have to be is decided by TLC on
the recorded execution."""
import random
from gen import *

OTHER = {"string": [b"SET", b"v"], "list": [b"RPUSH", b"a", b"b"], "hash": [b"HSET", b"f1", b"v"], "set": [b"SADD", b"a", b"b"]}


def mk(t, k, g=None):
    """a command that creates a value of type t under k"""
    r = g.r if g else None
    if t == "string":
        return [b"SET", k, g.val() if g else b"v"]
    if t == "list":
        return [b"RPUSH", k] + ([g.val() for _ in range(r.randint(1, 4))] if g else [b"a", b"b"])
    if t == "hash":
        return [b"HSET", k] + ([x for _ in range(r.randint(1, 3)) for x in (g.field(), g.val())] if g else [b"f1", b"v"])
    return [b"SADD", k] + ([g.val() for _ in range(r.randint(1, 4))] if g else [b"a", b"b"])


TYPES = ["string", "list", "hash", "set"]


def look(k, t=None):
    """reads that reveal key k, by what is expected of it"""
    if t == "string":
        return [[b"GET", k], [b"STRLEN", k]]
    if t == "list":
        return [[b"LRANGE", k, b"0", b"-1"], [b"LLEN", k], [b"LINDEX", k, b"-1"]]
    if t == "hash":
        return [[b"HGETALL", k], [b"HLEN", k]]
    if t == "set":
        return [[b"SMEMBERS", k], [b"SCARD", k]]
    return observe(k, 2)


def history(rng, main, side, judged, types, n=(8, 30), ticks=0.0, sidep=0.12, lookp=0.4, keep_type=None, endlook=True, lookj=1, **kw):
    g = Gen(rng, **kw)
    s = Seg()
    t = 0
    for _ in range(rng.randint(*n)):
        if ticks and rng.random() < ticks:
            t += rng.choice([1, 300, 700, 1000, 1000, 1500, 2000, 3000, 5000])
            s.t(t)
        name = rng.choice(side) if side and rng.random() < sidep else rng.choice(main)
        c = g.cmd(name)
        s.q(c, 1 if name in judged else 0)
        if rng.random() < lookp and len(c) > 1:
            k = c[1] if rng.random() < 0.8 else rng.choice(g.keys)
            if len(k) <= 400:
                o = look(k, keep_type)
                s.q(rng.choice(o), lookj)
    if endlook:
        for k in g.keys:
            for o in look(k, keep_type):
                s.q(o, lookj)
        s.q([b"KEYS", b"*"], lookj)
    return s


def c04(rng):
    return history(rng, STR, ["del", "lpush", "hset", "sadd", "expire", "persist", "incr", "rename"], set(STR), TYPES,
                   ticks=0.08, keep_type="string", big=0.01 if rng.random() < 0.2 else 0.0, binary=0.15)


def c05(rng):
    g = Gen(rng, binary=0.02)
    s = Seg()
    ks = g.keys[:2]
    for _ in range(rng.randint(4, 20)):
        k = rng.choice(ks)
        x = rng.random()
        f = rng.choice([b"f1", b"f2"])
        if x < 0.25:
            v = g.num() if rng.random() < 0.75 else rng.choice(BADINT + DYADIC + BADFLOAT)
            s.q(rng.choice([[b"SET", k, v], [b"HSET", k, f, v], [b"DEL", k], [b"SET", k, v, b"EX", b"100"]]), 0)
        elif x < 0.3:
            s.q(g.cmd(rng.choice(["lpush", "sadd", "append", "setrange", "hdel"])), 0)
        else:
            n = rng.choice(CNT)
            a = [n.encode(), k] + ([f] if n[0] == "h" else [])
            if n in ("incrbyfloat", "hincrbyfloat"):
                a.append(rng.choice(DYADIC) if rng.random() < 0.9 else rng.choice(BADFLOAT))
            elif n not in ("incr", "decr"):
                a.append(g.num() if rng.random() < 0.92 else rng.choice(BADINT))
            if rng.random() < 0.04:
                a = a[:-1] if rng.random() < 0.5 else a + [b"1"]
            s.q(g.opts(n, a[1:]))
        if rng.random() < 0.6:
            s.q(rng.choice([[b"GET", k], [b"HGET", k, f], [b"STRLEN", k], [b"HGETALL", k]]))
    for k in ks:
        for o in ([b"GET", k], [b"HGETALL", k], [b"TTL", k], [b"TYPE", k]):
            s.q(o)
    return s


def c06(rng):
    kw = {}
    return history(rng, HASH, ["del", "set", "lpush", "sadd", "expire", "hincrby", "rename"], set(HASH), TYPES, ticks=0.04,
                   keep_type="hash", sidep=0.08, n=(8, 40), **kw)


def c07(rng):
    if rng.random() < 0.08:
        return c07_long(rng)
    return history(rng, LIST, ["del", "set", "sadd", "hset", "expire", "rename"], set(LIST), TYPES, ticks=0.03, keep_type="list",
                   sidep=0.06, wrongtype=0.05, n=(8, 40))


def c07_long(rng):
    """long lists: indexes far from both ends"""
    s = Seg()
    n = rng.choice([17, 40, 64, 100, 129])
    k = b"l"
    s.q([b"RPUSH", k] + [b"e%d" % (i % rng.choice([7, n])) for i in range(n)])
    for _ in range(14):
        i, j = rng.randint(-n - 3, n + 3), rng.randint(-n - 3, n + 3)
        v = b"e%d" % rng.randint(0, n)
        s.q(rng.choice([[b"LINDEX", k, b"%d" % i], [b"LRANGE", k, b"%d" % i, b"%d" % j], [b"LSET", k, b"%d" % i, v],
                        [b"LINSERT", k, b"BEFORE", v, b"x"], [b"LINSERT", k, b"AFTER", v, b"y"], [b"LREM", k, b"%d" % rng.randint(-3, 3), v],
                        [b"LPOS", k, v, b"RANK", b"%d" % rng.choice([-3, -2, -1, 1, 2, 3]), b"COUNT", b"0"],
                        [b"LPOS", k, v, b"MAXLEN", b"%d" % rng.randint(0, n)], [b"LPOP", k, b"%d" % rng.randint(1, 5)],
                        [b"RPOP", k, b"%d" % rng.randint(1, 5)], [b"LTRIM", k, b"%d" % rng.randint(0, 4), b"%d" % -rng.randint(1, 5)],
                        [b"LMOVE", k, rng.choice([k, b"m"]), rng.choice([b"LEFT", b"RIGHT"]), rng.choice([b"LEFT", b"RIGHT"])]]))
        if rng.random() < 0.3:
            s.q([b"LLEN", k])
    for o in look(k, "list") + look(b"m", "list"):
        s.q(o)
    return s


def c08(rng):
    if rng.random() < 0.03:
        s = Seg()
        n = rng.choice([40, 120])
        for k in (b"s1", b"s2", b"s3"):
            s.q([b"SADD", k] + [b"m%d" % rng.randint(0, n) for _ in range(n)])
        for c in (b"SINTER", b"SUNION", b"SDIFF"):
            s.q([c, b"s1", b"s2", b"s3"])
            s.q([c + b"STORE", b"d", b"s2", b"s1"])
            s.q([b"SMEMBERS", b"d"])
        return s
    return history(rng, SET, ["del", "set", "lpush", "hset", "expire", "rename", "spop"], set(SET), TYPES, ticks=0.05, keep_type="set",
                   sidep=0.1, n=(8, 30))


def c09(rng):
    g = Gen(rng)
    s = Seg()
    ks = g.keys[:2]
    big = rng.random() < 0.05
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(ks)
        x = rng.random()
        pool = WEIRD[:4] + [b"", b"a", b"b", b"c", b"d", b"e"]
        ms = [rng.choice(pool) for _ in range(rng.randint(1, 6))] if not big else [b"m%d" % i for i in range(60)]
        if x < 0.35:
            s.q([b"SADD", k] + ms, 0)
        elif x < 0.6:
            s.q([b"HSET", k] + [y for m in ms for y in (m, rng.choice(pool))], 0)
        elif x < 0.68:
            s.q(rng.choice([[b"DEL", k], [b"SREM", k, rng.choice(pool)], [b"HDEL", k, rng.choice(pool)], [b"SET", k, b"x"], [b"LPUSH", k, b"a"]]), 0)
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([b"SPOP", b"SRANDMEMBER", b"SRANDMEMBER", b"HRANDFIELD", b"HRANDFIELD"])
            a = [n, k]
            if rng.random() < 0.75:
                a.append(g.i(-8, 8) if rng.random() < 0.85 else rng.choice([b"0", b"1", b"-1", b"100", b"-40"]))
                if a[-1] in (MINI, MAXI, b"-9223372036854775807", b"9223372036854775806", b"-1000", b"1000", b"4294967296", b"-4294967297"):
                    a[-1] = rng.choice([b"1000", b"-25", b"4294967296", MAXI])
                if n == b"HRANDFIELD" and rng.random() < 0.5:
                    a.append(rng.choice([b"WITHVALUES", b"withvalues"]))
            s.q(a)
            s.q(rng.choice([[b"SMEMBERS", k], [b"SCARD", k], [b"HGETALL", k], [b"TYPE", k], [b"EXISTS", k]]))
    for k in ks:
        for o in observe(k, 0):
            s.q(o)
    return s


def c10(rng):
    g = Gen(rng, bad=0.03)
    s = Seg()
    t = 0
    for _ in range(rng.randint(5, 16)):
        if rng.random() < 0.08:
            t += rng.choice([500, 1000, 2000, 4000])
            s.t(t)
        x = rng.random()
        if x < 0.45:
            c = g.cmd(rng.choice(KEYC))
            s.q(c)
        elif x < 0.65:
            c = mk(rng.choice(TYPES), rng.choice(g.keys), g)
            s.q(c, 0)
        else:
            c = g.cmd(rng.choice(ALL))
            s.q(c, 0)
        kc = c[0].lower().decode("latin-1") in KEYC
        for k in g.keys:
            if k in c[1:]:
                for o in observe(k, 0):
                    s.q(o, 1 if kc else 0)
        for k in g.keys:
            if k not in c[1:]:
                s.q(rng.choice([[b"TYPE", k], [b"EXISTS", k], [b"TTL", k], [b"GET", k], [b"LRANGE", k, b"0", b"-1"], [b"HGETALL", k], [b"SMEMBERS", k]]))
        if rng.random() < 0.5:
            s.q([b"KEYS", b"*"])
    for k in g.keys:
        for o in observe(k, 0):
            s.q(o)
    s.q([b"KEYS", b"*"])
    s.q([b"EXISTS"] + g.keys + g.keys[:1])
    return s


def c11(rng):
    s = Seg()
    alpha = rng.choice([b"ab", b"abc", b"abc", b"ab*", b"ab?", b"a[]", b"a-b", b"a^b", b"ab\\", b"ab\xff\x00"])
    ks = set()
    for _ in range(rng.randint(4, 14)):
        ks.add(bytes(rng.choice(alpha) for _ in range(rng.randint(0, 5))))
    if rng.random() < 0.05:
        ks.add(b"a" * 40)
    for k in sorted(ks):
        s.q(rng.choice([mk(t, k) for t in TYPES]), 0)
    for _ in range(rng.randint(8, 20)):
        p = []
        for _ in range(rng.randint(0, 7)):
            x = rng.random()
            c = bytes([rng.choice(alpha)])
            d = bytes([rng.choice(b"abc")])
            if x < 0.3:
                p.append(c)
            elif x < 0.5:
                p.append(b"?")
            elif x < 0.72:
                p.append(b"*")
            elif x < 0.97:
                lo, hi = sorted(rng.choice(b"abcd") for _ in range(2))
                body = rng.choice([d, d + b"c", bytes([lo]) + b"-" + bytes([hi]), bytes([lo]) + b"-" + bytes([hi]) + b"d", b"z" + bytes([lo]) + b"-" + bytes([hi]),
                                   b"a?", b"*", b"a-bc-d"])
                p.append(b"[" + (b"^" if rng.random() < 0.35 else b"") + body + b"]")
            else:
                p.append(rng.choice([b"[", b"[a", b"[a-", b"[^", b"]", b"[]", b"[^]", b"-", b"^"]))
        s.q([b"KEYS", b"".join(p)])
    return s


def ttl_set(g, k):
    """commands that give k a time to live"""
    r = g.r
    x = r.random()
    sec = b"%d" % r.randint(1, 5)
    if x < 0.3:
        return [[b"SET", k, g.val()] + g.ttlopt()]
    if x < 0.45:
        return [[b"SETEX", k, sec, g.val()]]
    return [mk(r.choice(TYPES), k, g), [b"EXPIRE", k, sec]]


VIS = lambda k: [[b"TTL", k], [b"EXISTS", k], [b"TYPE", k], [b"GET", k], [b"LLEN", k], [b"SCARD", k], [b"HLEN", k]]


def c12(rng):
    g = Gen(rng, keys=[b"k1", b"k2"], bad=0.03)
    s = Seg()
    t = rng.choice([0, 0, 1, 500, 999])
    s.t(t)
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(g.keys)
        x = rng.random()
        if x < 0.3:
            for c in ttl_set(g, k):
                s.q(c)
        elif x < 0.6:
            s.q(g.cmd(rng.choice(["expire", "expire", "persist", "ttl", "setex"])))
        elif x < 0.8:
            t += rng.choice([1, 499, 500, 999, 1000, 1001, 2000, 3000, 100000, 3600000])
            s.t(t)
        elif x < 0.9:
            s.q(g.cmd(rng.choice(ALL)), 0)
        for _ in range(rng.randint(1, 3)):
            s.q(rng.choice(VIS(rng.choice(g.keys))))
        if rng.random() < 0.2:
            s.q([b"KEYS", b"*"])
    # walk over the deadlines
    for _ in range(4):
        t += rng.choice([500, 1000, 1000, 2000])
        s.t(t)
        for k in g.keys:
            s.q(rng.choice(VIS(k)))
            s.q([b"TTL", k])
    return s


ENDERS = ["del", "lpop", "rpop", "lrem", "ltrim", "lmove", "srem", "spop", "smove", "hdel", "sinterstore", "sunionstore", "sdiffstore",
          "rename", "set", "mset", "setex", "setnx"]
INPLACE = ["append", "setrange", "incr", "decr", "incrby", "decrby", "incrbyfloat", "lpush", "rpush", "lpushx", "rpushx", "linsert", "lset",
           "hset", "hmset", "hsetnx", "hincrby", "hincrbyfloat", "sadd"]


def c13(rng):
    g = Gen(rng, keys=rng.sample([b"k1", b"k2", b"k3"], 2), bad=0.02, binary=0.02)
    s = Seg()
    t = 0
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(g.keys)
        ty = rng.choice(TYPES)
        g.guess[k] = ty
        s.q([b"DEL", k], 0)
        # a small value, so that removals empty it
        s.q({"string": [b"SET", k, rng.choice([b"5", b"x"])], "list": [b"RPUSH", k, b"a"], "hash": [b"HSET", k, b"f1", b"1"], "set": [b"SADD", k, b"a"]}[ty], 0)
        if rng.random() < 0.85:
            s.q(rng.choice([[b"EXPIRE", k, b"%d" % rng.randint(2, 9)], [b"EXPIRE", k, b"100"]]), 0)
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.15:
                t += rng.choice([1000, 3000, 6000])
                s.t(t)
            kk = k
            n = rng.choice(ENDERS if rng.random() < 0.55 else INPLACE)
            c = g.cmd(n)
            s.q(c, 0)
            for q in g.keys:
                s.q([b"TTL", q])
            if rng.random() < 0.4:
                s.q([b"TYPE", rng.choice(g.keys)])
        # recreate, then see whether an old deadline strikes
        if rng.random() < 0.6:
            s.q(mk(rng.choice(TYPES), k, g), 0)
            s.q([b"TTL", k])
        if rng.random() < 0.4:
            t += rng.choice([4000, 10000, 101000])
            s.t(t)
            for q in g.keys:
                s.q([b"EXISTS", q])
                s.q([b"TTL", q])
    t += 200000
    s.t(t)
    for q in g.keys:
        s.q([b"EXISTS", q])
        s.q([b"TYPE", q])
    return s


def c14(rng, n=None):
    """a command on keys whose deadline has passed; the twin has the keys missing"""
    g = Gen(rng, keys=rng.sample([b"k1", b"k2", b"k3"], rng.randint(2, 3)), bad=0.08, wrongtype=0.3)
    exp, live = [], []
    for k in g.keys:
        (exp if rng.random() < 0.6 else live).append(k)
    if not exp:
        exp.append(live.pop())
    a, b = Seg("expired"), Seg("missing")
    tys = {k: rng.choice(TYPES) for k in g.keys}
    for k in g.keys:
        c = mk(tys[k], k, g)
        a.q(c, 0)
        if k in exp:
            a.q([b"EXPIRE", k, b"%d" % rng.randint(1, 3)], 0)
        else:
            b.q(c, 0)
            if rng.random() < 0.3:
                for s in (a, b):
                    s.q([b"EXPIRE", k, b"50"], 0)
    name = n or rng.choice(ALL)
    c = g.cmd(name)
    if rng.random() < 0.7 and len(c) > 1 and name not in ("keys", "ping"):
        c[1] = rng.choice(exp)
    seq = [c]
    for _ in range(rng.randint(0, 2)):
        seq.append(g.cmd(rng.choice(ALL)))
    for s in (a, b):
        s.t(rng_t := 7000)
        for x in seq:
            s.q(x)
        for k in g.keys:
            for o in observe(k, 0):
                s.q(o)
        s.q([b"KEYS", b"*"])
    return a, b


def c15(rng):
    g = Gen(rng, bad=0.0, wrongtype=0.0)
    g.keys = rng.sample([b"k1", b"k2", b"k3", b"k4"], 3)
    s = Seg()
    tys = {}
    for k in g.keys:
        if rng.random() < 0.8:
            tys[k] = rng.choice(TYPES)
            s.q(mk(tys[k], k, g), 0)
            if rng.random() < 0.3:
                s.q([b"EXPIRE", k, b"100"], 0)
    for k in g.keys:
        for o in observe(k, 1):
            s.q(o, 0)
    for _ in range(rng.randint(2, 6)):
        s.mark()
        x = rng.random()
        if x < 0.35:       # wrong type: anything goes on any key
            g.wrongtype = 1.0
            g.guess = {}
            c = g.cmd(rng.choice(ALL))
        elif x < 0.65:     # malformed arguments
            g.wrongtype, g.bad = 0.3, 0.7
            g.guess = dict(tys)
            c = g.cmd(rng.choice(ALL))
        elif x < 0.75:
            c = [rng.choice([b"FOO", b"", b"GETT", b"set\x00", b"\r\n", b"se", b"HGETAL", b"flushall", b"getset"])] + [rng.choice(g.keys) for _ in range(rng.randint(0, 3))]
        else:
            g.bad = 0.1
            c = g.cmd(rng.choice(sorted(READONLY)))
        g.bad = 0.0
        s.q(c, 2)
        ext = [k for k in (b"k1", b"k2", b"k3", b"k4") if k in c or k in g.keys]
        for k in ext:
            for o in [[b"TYPE", k], [b"TTL", k]] + (look(k, tys.get(k)) if rng.random() < 0.6 else []):
                s.q(o, 3)
        s.q([b"KEYS", b"*"], 3)
        for k in g.keys:
            for o in observe(k, 1):
                s.q(o, 3)
    return s


REMOVERS = {"list": ["lpop", "rpop", "lrem", "ltrim", "lmove"], "set": ["srem", "spop", "smove", "sdiffstore", "sinterstore", "sunionstore"], "hash": ["hdel"]}


def c16(rng):
    g = Gen(rng, keys=rng.sample([b"k1", b"k2", b"k3"], 2), bad=0.02, binary=0.03, wrongtype=0.02)
    g.vals = [b"a", b"b"]
    s = Seg()
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(g.keys)
        t = rng.choice(["list", "set", "hash"])
        if rng.random() < 0.4:
            s.q({"list": [b"RPUSH", k] + [rng.choice(g.vals) for _ in range(rng.randint(1, 2))],
                 "set": [b"SADD", k] + [rng.choice(g.vals) for _ in range(rng.randint(1, 2))],
                 "hash": [b"HSET", k, rng.choice([b"f1", b"f2"]), b"1"]}[t], 1)
            g.guess.setdefault(k, t)
        else:
            n = rng.choice(REMOVERS[g.guess.get(k, t)] if g.guess.get(k, t) in REMOVERS else REMOVERS[t])
            c = g.cmd(n)
            s.q(c, 0)
        for q in g.keys:
            s.q(rng.choice([[b"EXISTS", q], [b"TYPE", q], [b"TTL", q]]))
        if rng.random() < 0.5:
            s.q([b"KEYS", b"*"])
        if rng.random() < 0.15:
            q = rng.choice(g.keys)
            ty = rng.choice(TYPES)
            s.q(mk(ty, q), 1)
            g.guess.pop(q, None)
    for q in g.keys:
        for o in observe(q, 1):
            s.q(o)
    s.q([b"KEYS", b"*"])
    return s


PROFILES = {"C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
            "C15": c15, "C16": c16}
