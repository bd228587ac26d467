"""Random command histories (inputs only: what the replies must be is decided
by the TLA+ specification when the recorded execution is checked)."""
import random

STR = "set get getrange setrange mget mset setex setnx strlen append".split()
CNT = "incr decr incrby decrby incrbyfloat hincrby hincrbyfloat".split()
HASH = "hset hmset hsetnx hget hmget hgetall hkeys hvals hlen hexists hstrlen hdel".split()
LIST = "lpush rpush lpushx rpushx lpop rpop llen lindex lrange lset linsert lrem ltrim lpos lmove".split()
SET = "sadd srem scard sismember smembers smove sinter sunion sdiff sinterstore sunionstore sdiffstore".split()
RAND = "spop srandmember hrandfield".split()
KEYC = "del exists type keys rename".split()
TTLC = "expire persist ttl".split()
ALL = STR + CNT + HASH + LIST + SET + RAND + KEYC + TTLC + ["ping"]
READONLY = set("ping get getrange mget strlen hget hmget hgetall hkeys hvals hlen hexists hstrlen hrandfield llen lindex "
               "lrange lpos scard sismember smembers srandmember sinter sunion sdiff exists type keys ttl".split())
CREATES = {"set": "string", "setrange": "string", "mset": "string", "setex": "string", "setnx": "string", "append": "string",
           "incr": "string", "decr": "string", "incrby": "string", "decrby": "string", "incrbyfloat": "string",
           "hset": "hash", "hmset": "hash", "hsetnx": "hash", "hincrby": "hash", "hincrbyfloat": "hash",
           "lpush": "list", "rpush": "list", "sadd": "set"}
TYPE_OF = {}
for _n in STR + ["incr", "decr", "incrby", "decrby", "incrbyfloat"]:
    TYPE_OF[_n] = "string"
for _n in HASH + ["hincrby", "hincrbyfloat", "hrandfield"]:
    TYPE_OF[_n] = "hash"
for _n in LIST:
    TYPE_OF[_n] = "list"
for _n in SET + ["spop", "srandmember"]:
    TYPE_OF[_n] = "set"

MAXI, MINI = b"9223372036854775807", b"-9223372036854775808"
BADINT = [b"abc", b"", b"1.5", b" 1", b"1 ", b"9223372036854775808", b"-9223372036854775809", b"0x10", b"1e3", b"--1", b"+", b"-",
          b"99999999999999999999999"]
DYADIC = [b"0.5", b"-0.5", b"0.125", b"10.25", b"3", b"-7", b"100", b"2.75", b"-1.375", b"0", b"1.0", b"+2.5", b"5.50",
          b"1000000", b"123456789.125", b"99999999999.5", b"1e3", b"25e-2", b"-2e1", b"0.0", b"10000000000000", b"-0.25", b"7.0"]
BADFLOAT = [b"abc", b"nan", b"inf", b"-inf", b"", b"1.2.3", b"1e400", b"--1", b" 1"]
WEIRD = [b"\r\n", b"\x00", b"\xff\xfe", b"$5\r\nhello\r\n", b"a\nb", b"*1\r\n", b" ", b"\"q\"", b"\\", b"+OK", b"-ERR", b"_", b"$", b":1"]


class Gen:
    def __init__(self, rng, keys=None, bad=0.06, wrongtype=0.1, binary=0.1, small=True, big=0.0, case=0.15):
        self.r = rng
        self.bad, self.wrongtype, self.binary, self.big, self.case = bad, wrongtype, binary, big, case
        self.keys = keys or self.some_keys()
        self.guess = {}
        self.vals = [b"a", b"b", b"c"] if small else [bytes([97 + i]) for i in range(8)]

    def some_keys(self):
        r = self.r
        pool = [b"k1", b"k2", b"k3", b"k4", b"key:5", b"K1", b"user", b"z"]
        if r.random() < 0.15:
            pool += [b"", b"a b", b"\r\n", b"k\x00", b"x" * 300, b"\xc3\xa9", b"*", b"k?"]
        return r.sample(pool, r.randint(2, 4))

    def key(self, t=None, avoid=None):
        r = self.r
        ks = self.keys
        if t is not None and r.random() > self.wrongtype:
            good = [k for k in ks if self.guess.get(k, t) == t]
            if good:
                ks = good
        return r.choice(ks)

    def val(self):
        r = self.r
        x = r.random()
        if x < self.big:
            n = r.choice([200, 1000, 4094, 4095, 4096, 4097, 5000, 9000])
            return bytes(r.getrandbits(8) for _ in range(8)) + bytes([r.choice(b"abcdefgh")]) * n
        if x < self.big + self.binary:
            return r.choice(WEIRD + [b""])
        if x < self.big + self.binary + 0.1:
            return b"".join(r.choice(self.vals) for _ in range(r.randint(2, 9)))
        return r.choice(self.vals)

    def num(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return b"%d" % r.randint(-20, 120)
        if x < 0.75:
            return r.choice([MAXI, MINI, b"9223372036854775806", b"-9223372036854775807", b"4611686018427387904",
                             b"-4611686018427387905", b"1000000000000", b"-4294967296", b"2147483648", b"99999999", b"100000000"])
        if x < 0.85:
            return b"%d" % r.randint(-2**63, 2**63 - 1)
        return r.choice([b"0", b"1", b"-1", b"+5", b"007", b"-0", b"00"])

    def i(self, lo=-6, hi=6):
        r = self.r
        x = r.random()
        if x < self.bad:
            return r.choice(BADINT)
        if x < self.bad + 0.05:
            return r.choice([MAXI, MINI, b"9223372036854775806", b"-9223372036854775807", b"1000", b"-1000", b"4294967296", b"-4294967297"])
        if x < self.bad + 0.07:
            return r.choice([b"+2", b"01", b"-0"])
        return b"%d" % r.randint(lo, hi)

    def secs(self):
        r = self.r
        x = r.random()
        if x < self.bad:
            return r.choice(BADINT)
        if x < 0.70:
            return b"%d" % r.randint(1, 8)
        if x < 0.85:
            return r.choice([b"0", b"-1", b"-5", b"100", b"3600"])
        return r.choice([MAXI, MINI, b"9223372036853775807", b"9223372036853775808", b"4294967296", b"2147483647", b"1000000000000", b"31536000"])

    def msecs(self):
        r = self.r
        x = r.random()
        if x < self.bad:
            return r.choice(BADINT)
        if x < 0.75:
            return b"%d" % r.randint(1, 4000)
        if x < 0.85:
            return r.choice([b"0", b"-1", b"-2500", b"1000", b"999", b"1001"])
        return r.choice([MAXI, MINI, b"9223372035854775807", b"9223372035854775808", b"4294967296000", b"10000000000"])

    def ttlopt(self, now=1_000_000):
        r = self.r
        w = r.choice([b"EX", b"PX", b"EXAT", b"PXAT", b"KEEPTTL"])
        if w == b"KEEPTTL":
            return [w]
        if w == b"EX":
            return [w, self.secs()]
        if w == b"PX":
            return [w, self.msecs()]
        if r.random() < self.bad:
            return [w, r.choice(BADINT)]
        x = r.random()
        if w == b"EXAT":
            v = now + r.randint(-2, 8) if x < 0.85 else r.choice([0, -1, 5000000000, 2**63 - 1, -2**63])
        else:
            v = now * 1000 + r.randint(-2500, 7000) if x < 0.85 else r.choice([0, -1, 5000000000000, 2**63 - 1, -2**63, 999])
        return [w, b"%d" % v]

    def pat(self):
        r = self.r
        k = r.choice(self.keys)
        x = r.random()
        if x < 0.3:
            return b"*"
        out = []
        for ch in k:
            y = r.random()
            b = bytes([ch])
            if y < 0.5:
                out.append(b)
            elif y < 0.65:
                out.append(b"?")
            elif y < 0.8:
                out.append(b"*")
            elif y < 0.9 and 0x30 <= ch <= 0x7a:
                out.append(r.choice([b"[" + b + b"x]", b"[^" + b + b"]", b"[^q]", b"[0-z]", b"[" + b + b"-" + b + b"]"]))
            elif y < 0.95:
                pass
            else:
                out.append(b + b"*")
        return b"".join(out)

    def opts(self, n, args):
        """recapitalise the command name"""
        r = self.r
        if r.random() < self.case:
            n = "".join(c.upper() if r.random() < 0.5 else c for c in n)
        return [n.encode()] + args

    def cmd(self, n):
        r = self.r
        a = self.args(n)
        if r.random() < self.bad:           # wrong number of arguments
            x = r.random()
            if x < 0.5 and a:
                a = a[:r.randint(0, len(a) - 1)]
            elif x < 0.9:
                a = a + [self.val() for _ in range(r.randint(1, 2))]
            else:
                a = []
        c = self.opts(n, a)
        if n in CREATES and len(a) > 1:
            if n == "mset":
                for k in a[::2]:
                    self.guess[k] = "string"
            elif n in ("set", "setex"):
                self.guess[a[0]] = "string"
            else:
                self.guess.setdefault(a[0], CREATES[n])
        elif n.endswith("store") and a:
            self.guess[a[0]] = "set"
        elif n == "del":
            for k in a:
                self.guess.pop(k, None)
        elif n == "rename" and len(a) == 2 and a[0] in self.guess:
            self.guess[a[1]] = self.guess.pop(a[0])
        elif n in ("lmove", "smove") and len(a) > 1:
            self.guess.setdefault(a[1], TYPE_OF[n])
        return c

    def args(self, n):
        r = self.r
        t = TYPE_OF.get(n)
        k = self.key(t) if t else r.choice(self.keys)
        v = self.val
        many = lambda lo, hi, f: [f() for _ in range(r.randint(lo, hi))]
        if n == "ping":
            return many(0, 1, v)
        if n == "set":
            a = [k, v() if r.random() < 0.8 else self.num()]
            if r.random() < 0.55:
                o = []
                if r.random() < 0.35:
                    o.append([r.choice([b"NX", b"XX"])])
                if r.random() < 0.25:
                    o.append([b"GET"])
                if r.random() < 0.5:
                    o.append(self.ttlopt())
                if r.random() < self.bad:
                    o.append(r.choice([[b"XX"], [b"NX"], [b"foo"], [b"EX"], [b"PX"], [b"EX", b"10"], [b"KEEPTTL"], [b""]]))
                r.shuffle(o)
                for x in o:
                    a += [y.lower() if r.random() < 0.5 else y for y in x]
            return a
        if n in ("get", "strlen", "incr", "decr", "hgetall", "hkeys", "hvals", "hlen", "llen", "scard", "smembers", "type", "persist", "ttl"):
            return [k]
        if n == "getrange":
            return [k, self.i(-9, 9), self.i(-9, 9)]
        if n == "setrange":
            return [k, self.i(0, 12) if r.random() < 0.9 else self.i(-3, 40), v()]
        if n == "mget":
            return many(1, 4, lambda: self.key("string"))
        if n == "mset":
            return [x for _ in range(r.randint(1, 3)) for x in (self.key(), v())]
        if n == "setex":
            return [k, self.secs(), v()]
        if n in ("setnx", "append"):
            return [k, v()]
        if n in ("incrby", "decrby"):
            return [k, self.num() if r.random() > self.bad else r.choice(BADINT)]
        if n == "incrbyfloat":
            return [k, r.choice(DYADIC) if r.random() > self.bad else r.choice(BADFLOAT)]
        if n == "hincrbyfloat":
            return [k, self.field(), r.choice(DYADIC) if r.random() > self.bad else r.choice(BADFLOAT)]
        if n == "hincrby":
            return [k, self.field(), self.num() if r.random() > self.bad else r.choice(BADINT)]
        if n in ("hset", "hmset"):
            return [k] + [x for _ in range(r.randint(1, 3)) for x in (self.field(), v())]
        if n == "hsetnx":
            return [k, self.field(), v()]
        if n in ("hget", "hexists", "hstrlen"):
            return [k, self.field()]
        if n in ("hmget", "hdel"):
            return [k] + many(1, 4, self.field)
        if n in ("lpush", "rpush", "lpushx", "rpushx"):
            if r.random() < 0.03:
                return [k] + many(20, 60, v)
            return [k] + many(1, 4, v)
        if n in ("lpop", "rpop", "spop"):
            return [k] if r.random() < 0.6 else [k, self.i(-1, 4)]
        if n == "lindex":
            return [k, self.i(-8, 8)]
        if n in ("lrange", "ltrim"):
            return [k, self.i(-8, 8), self.i(-8, 8)] if n == "lrange" or r.random() < 0.6 else [k, self.i(-9, 2), self.i(-3, 9)]
        if n == "lset":
            return [k, self.i(-6, 6), v()]
        if n == "linsert":
            return [k, r.choice([b"BEFORE", b"AFTER", b"before", b"after", b"Before"]) if r.random() > self.bad else b"middle", v(), v()]
        if n == "lrem":
            return [k, self.i(-3, 3), v()]
        if n == "lpos":
            o = []
            if r.random() < 0.6:
                o.append([b"RANK", self.i(-4, 4)])
            if r.random() < 0.6:
                o.append([b"COUNT", self.i(0, 4)])
            if r.random() < 0.5:
                o.append([b"MAXLEN", self.i(0, 7)])
            if r.random() < self.bad:
                o.append(r.choice([[b"FOO", b"1"], [b"RANK", b"0"], [b"COUNT", b"-1"], [b"MAXLEN", b"-1"], [b"RANK"]]))
            r.shuffle(o)
            return [k, v()] + [y.lower() if r.random() < 0.3 else y for x in o for y in x]
        if n == "lmove":
            d = lambda: r.choice([b"LEFT", b"RIGHT", b"left", b"Right"]) if r.random() > self.bad else b"up"
            return [k, self.key("list"), d(), d()]
        if n in ("sadd", "srem"):
            if r.random() < 0.02:
                return [k] + many(20, 60, lambda: b"m%d" % r.randint(0, 99))
            return [k] + many(1, 4, v)
        if n == "sismember":
            return [k, v()]
        if n == "smove":
            return [k, self.key("set"), v()]
        if n in ("sinter", "sunion", "sdiff"):
            return many(1, 4, lambda: self.key("set"))
        if n in ("sinterstore", "sunionstore", "sdiffstore"):
            return [self.key()] + many(1, 4, lambda: self.key("set"))
        if n == "srandmember":
            return [k] if r.random() < 0.4 else [k, self.i(-5, 5)]
        if n == "hrandfield":
            return [k] if r.random() < 0.3 else [k, self.i(-5, 5)] if r.random() < 0.5 else \
                [k, self.i(-5, 5), b"WITHVALUES" if r.random() > self.bad else b"withvalue"]
        if n in ("del", "exists"):
            return many(1, 4, self.key)
        if n == "keys":
            return [self.pat()]
        if n == "rename":
            return [self.key(), self.key()]
        if n == "expire":
            return [k, self.secs()] + ([] if r.random() < 0.4 else
                    [r.choice([b"NX", b"XX", b"GT", b"LT", b"gt", b"lt", b"nx", b"xx"]) if r.random() > self.bad else b"foo"])
        raise KeyError(n)

    def field(self):
        r = self.r
        if r.random() < 0.08:
            return r.choice(WEIRD + [b""])
        return r.choice([b"f1", b"f2", b"f3", b"g"])


def observe(k, back=4):
    """commands that reveal everything about one key"""
    o = [[b"TYPE", k], [b"TTL", k], [b"EXISTS", k], [b"GET", k], [b"LRANGE", k, b"0", b"-1"], [b"HGETALL", k], [b"SMEMBERS", k], [b"LLEN", k]]
    o += [[b"LINDEX", k, b"%d" % -i] for i in range(1, back + 1)]
    return o


class Seg:
    """One recorded execution: steps ('q', args, judged) or ('t', ms)."""
    def __init__(self, note=""):
        self.steps = []
        self.note = note

    def q(self, args, j=1):
        self.steps.append(("q", args, j))

    def t(self, ms):
        self.steps.append(("t", ms))

    def mark(self):
        self.steps.append(("m",))
