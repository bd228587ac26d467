"""The real server (built with the race detector) under real concurrency:
crashes, hangs and unsynchronised map accesses; and short histories of
overlapping commands over TCP, checked against LinCheck."""
import threading
from vlib import *
import conc

MAPFRAME = re.compile(r"runtime\.(map|internal/runtime/maps)|internal/runtime/maps\.")


def races(text):
    """[(is_map_access, where)] of the race reports that involve the repository's code"""
    out = []
    for rep in text.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("==================")[0]
        acc = re.split(r"\n\s*\n", rep)[:2]
        where = []
        ismap = False
        for a in acc:
            fr = re.findall(r"\n  (\S+)\(.*?\)\n\s+(\S+):(\d+)", a)
            if fr and MAPFRAME.search(fr[0][0]):
                ismap = True
            for f, p, l in fr:
                m = re.search(r"/src-clock/(\S+)", p)
                if m:
                    where.append(m.group(1) + ":" + l)
                    break
        if len(where) == 2:
            out.append((ismap, " / ".join(sorted(where))))
    return out


def hammer(scr, binary, rng, pool, keys, conns=8, secs=5.0, segnum=3, tick=False, batch=120, extra=()):
    """returns (commands executed, problem or None, map races, other races)"""
    srv = Server(scr, binary, 16, segnum, env={"GORACE": "halt_on_error=0 history_size=3"})
    stop = time.time() + secs
    problem, count, lock = [], [0], threading.Lock()

    def client(seed):
        r = random.Random(seed)
        try:
            c = srv.conn(60)
            while time.time() < stop and not problem:
                qs = []
                for _ in range(batch):
                    t = r.choice(pool)
                    kw = {x: r.choice(keys) for x in "kmnabc"}
                    qs.append(conc.fill(t, **kw))
                c.send(b"".join(enc(q) for q in qs))
                for q in qs:
                    c.reply()
                with lock:
                    count[0] += len(qs)
            c.close()
        except ServerGone as e:
            problem.append("crash: %s" % e)
        except Hang as e:
            problem.append("hang: a command got no reply within 60 s")
        except BadReply as e:
            if srv.alive():
                problem.append("bad reply: %s" % e)
            else:
                problem.append("crash: " + srv.crash_text())
    ths = [threading.Thread(target=client, args=(rng.random(),), daemon=True) for _ in range(conns)]
    for t in ths:
        t.start()
    now = BASE_MS
    while any(t.is_alive() for t in ths) and time.time() < stop + 75:
        time.sleep(0.02)
        if tick:
            now += 200
            srv.set_clock(now)
    if not srv.alive() and not problem:
        problem.append("crash: " + srv.crash_text())
    text = srv.stderr()
    srv.stop()
    rs = races(text)
    return count[0], (problem[0] if problem else None), sorted({w for m, w in rs if m}), sorted({w for m, w in rs if not m})


# -------------------------------------------------------------- TCP histories
def tcp_histories(scr, binary, rng, scs, segnum=3, dbnum=2000):
    """run the scenarios' commands over real connections, all threads at once; returns histories"""
    srv = Server(scr, binary, dbnum, segnum)
    out = []
    ctl = srv.conn()
    conns = [srv.conn() for _ in range(4)]
    db = 0
    try:
        for sc in scs:
            if sc["Ticks"] or any(q[0] == "@tick" for q in sc["Setup"]):
                continue
            db += 1
            if db >= dbnum:
                break
            ths = sc["Threads"][:4]
            e = []
            for c in [ctl] + conns[:len(ths)]:
                c.cmd("SELECT", str(db))
            for q in sc["Setup"]:
                e.append(["o", q, ctl.cmd(*[tobytes(a) for a in q])])
            ops = [q for t in ths for q in t]
            reps = [None] * len(ops)
            log = []
            first = 0
            gate = threading.Barrier(len(ths))

            def client(c, first, qs):
                gate.wait()
                for i, q in enumerate(qs):
                    data = enc([tobytes(a) for a in q])
                    log.append(("i", first + i))
                    c.send(data)
                    r = c.reply()
                    log.append(("r", first + i))
                    reps[first + i] = r
            tl, errs = [], []

            def guard(*a):
                try:
                    client(*a)
                except Exception as x:
                    errs.append(x)
            for c, qs in zip(conns, ths):
                tl.append(threading.Thread(target=guard, args=(c, first, qs)))
                first += len(qs)
            for t in tl:
                t.start()
            for t in tl:
                t.join()
            if errs:
                raise errs[0]
            e += [[k, n + 1] for k, n in log]
            for k in sc["Keys"]:
                for q in (["TYPE", k], ["GET", k], ["LRANGE", k, "0", "-1"], ["HGETALL", k], ["SMEMBERS", k], ["TTL", k]):
                    e.append(["o", q, ctl.cmd(*[tobytes(a) for a in q])])
            out.append({"q": ops, "r": reps, "e": e})
    finally:
        srv.stop()
    return out
