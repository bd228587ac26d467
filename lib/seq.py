"""Sequential conformance: run histories on the real server, record the
replies, let TLC decide whether the recorded execution is a behaviour of the
specification (spec/TraceServer.tla)."""
import json, multiprocessing, os, re, time
from vlib import *

CHUNK = 60        # segments pipelined together


def play(srv, conn, db, seg):
    """run one segment in database db; returns its events"""
    ev = [{"c": "1", "t": BASE_MS, "q": ["@open"], "r": [], "j": 0}]
    now = BASE_MS
    srv.set_clock(now)
    pend = []

    def flush():
        if not pend:
            return
        # keep what is in flight well below the socket buffers
        i = 0
        while i < len(pend):
            size, j = 0, i
            while j < len(pend) and j - i < 64 and (size < 20000 or j == i):
                size += sum(len(a) for a in pend[j][0]) + 40 if pend[j] else 0
                j += 1
            conn.send(b"".join(enc(p[0]) for p in pend[i:j] if p))
            for p in pend[i:j]:
                if p is None:
                    ev.append({"c": "1", "t": now, "q": ["@mark"], "r": [], "j": 0})
                    continue
                ev.append({"c": "1", "t": now, "q": [tostr(a) for a in p[0]], "r": None, "j": p[1]})
                ev[-1]["r"] = conn.reply()
            i = j
        pend.clear()

    try:
        pend.append(([b"SELECT", b"%d" % db], 0))
        for s in seg.steps:
            if s[0] == "q":
                pend.append((s[1], s[2]))
            elif s[0] == "m":
                pend.append(None)
            else:
                flush()
                now = BASE_MS + s[1]
                srv.set_clock(now)
        flush()
    except (ServerGone, Hang, BadReply) as e:
        ev = [x for x in ev]
        return ev, e
    return ev, None


def seq_worker(a):
    scrdir, binary, segs, base, dbnum, segnum, timeout = a
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    out, fails = [], []
    srv = conn = None
    db = 0
    try:
        for n, seg in enumerate(segs):
            if srv is None or db >= dbnum - 1 or not srv.alive():
                if srv:
                    srv.stop()
                srv = Server(scr, binary, dbnum, segnum)
                conn = srv.conn(timeout)
                db = 0
            db += 1
            ev, e = play(srv, conn, db, seg)
            if e is not None:
                # reproduce on a server of its own before believing it
                srv.stop()
                srv = Server(scr, binary, 16, segnum)
                conn = srv.conn(timeout)
                ev2, e2 = play(srv, conn, 1, seg)
                fails.append((base + n, ev2 if e2 is not None else ev, type(e).__name__, str(e2 if e2 is not None else e), e2 is not None))
                srv.stop()
                srv = None
                out.append(None)
                if len(fails) >= 3:
                    break
                continue
            out.append(ev)
    finally:
        if srv:
            srv.stop()
    return base, out, fails


def record(scr, binary, segs, workers=6, segnums=(1, 3, 100), dbnum=3000, timeout=20):
    """record all segments; returns (traces, failures)"""
    workers = max(1, min(workers, len(segs) // 20 + 1))
    size = (len(segs) + workers - 1) // workers
    jobs = [(scr.dir, binary, segs[i * size:(i + 1) * size], i * size, dbnum, segnums[i % len(segnums)], timeout)
            for i in range(workers) if segs[i * size:(i + 1) * size]]
    traces = [None] * len(segs)
    fails = []
    with multiprocessing.Pool(len(jobs)) as pool:
        for base, out, f in pool.imap_unordered(seq_worker, jobs):
            for n, ev in enumerate(out):
                traces[base + n] = ev
            fails += f
    return traces, fails, dbnum


def validate(scr, traces, dbnum, spec="TraceServer", timeout=800, tag="", workers=1):
    """let TLC check the traces; returns (mismatches, unjudged, events, states)"""
    idx = [i for i, t in enumerate(traces) if t]
    path = scr.path("traces%s.json" % tag)
    with open(path, "w") as f:
        json.dump([{"n": dbnum, "ev": traces[i]} for i in idx], f, ensure_ascii=False)
    rc, out = tlc(spec + ".tla", spec + ".cfg", env={"TRACE": path}, timeout=timeout, workers=workers, heap="2g")
    tlc_ok(rc, out, spec)
    mm, uj = [], []
    for l in out.splitlines():
        m = re.match(r'^"?(MM|UJ) (\d+) (\d+) (.*)$', l)
        if m:
            (mm if m.group(1) == "MM" else uj).append((idx[int(m.group(2)) - 1], int(m.group(3)) - 1, m.group(4)))
    gen, distinct = tlc_stats(out)
    bad = {s for s, _, _ in mm + uj}
    need = sum(len(traces[i]) + 1 for i in idx if i not in bad)
    if distinct < need:
        raise Inconclusive("TLC explored %d states of at least %d" % (distinct, need))
    os.unlink(path)
    return sorted(mm), sorted(uj), sum(len(traces[i]) for i in idx), distinct
