"""Deadlock freedom from recorded lock programs (LockProgs.tla)."""
import itertools, multiprocessing, random
from vlib import *
import conc

CMDS = conc.REFUSED + conc.ALLSINGLE + conc.PAIRCMD + conc.MULTI + conc.MLIST + conc.MSET + [["KEYS", "*"]]
KINDS = [None, "str", "hash", "list", "set", "mixed", "expired"]


def recordings(rng, segnum, kind, ks):
    """a scenario of the harness that records every command form"""
    setup = []
    if kind == "mixed":
        setup = [conc.anytype(rng, k) for k in ks]
    elif kind == "expired":
        setup = [conc.anytype(rng, k) for k in ks] + [["EXPIRE", k, "1"] for k in ks] + [["@tick", "1000"], ["@tick", "1000"]]
    elif kind:
        setup = [conc.fill(rng.choice(conc.MAKE[kind]), k=k) for k in ks]
    rec = []
    for t in CMDS:
        orders = [ks, ks[::-1]] if any("{" in a for a in t[2:]) else [ks]
        for o in orders:
            q = conc.fill(t, k=o[0], m=o[1], n=o[2], a=o[0], b=o[1], c=o[2])
            if q not in rec:
                rec.append(q)
    return dict(ID=0, Seed=1, SegNum=segnum, Setup=setup, Threads=[], Keys=ks, Record=rec)


def peel(progs):
    """Removes locks that every command releases right after taking them: their holder can always go on, so whoever waits for
    them does too.  Repeated until none is left."""
    while True:
        nested = {x[0] for p in progs for i, x in enumerate(p) if x[1] in (0, 2) and (i + 1 == len(p) or p[i + 1] != (x[0], x[1] + 1))}
        new = [tuple(x for x in p if x[0] in nested) for p in progs]
        if new == progs:
            return progs
        progs = new


def segments(p):
    """The stretches of a lock program between the points where it holds nothing.  A deadlock only depends on the stretch each
    command is in; a stretch that is one read lock and its release cannot take part in one."""
    out, cur, held = [], [], 0
    for l, o in p:
        cur.append((l, o))
        held += 1 if o in (0, 2) else -1
        if held == 0:
            if [x[1] for x in cur] != [2, 3]:
                out.append(tuple(cur))
            cur = []
    if cur:
        out.append(tuple(cur))
    return out


def one(job):
    scrdir, binary, seed, segnum, kind, ks, ntrip = job
    rng = random.Random(seed)
    sc = recordings(rng, segnum, kind, ks)
    tot = dict(states=0, trans=0, programs=0, combos=0, commands=0, bad=[], notes=[], samples=[])
    r = conc.Runner(binary)
    try:
        res = r.run(sc) if r.ok else None
    finally:
        r.stop()
    if res is None:
        tot["notes"].append("lock programs could not be recorded")
        return tot
    if res["Problem"]:
        sc = dict(sc, Record=sc["Record"][-1:] if "in " not in res["Detail"] else [res["Detail"].rsplit(" in ", 1)[-1]])
        tot["bad"].append(("%s %s" % (res["Problem"], res["Detail"][:300]), sc, None, None))
        return tot
    by = {}
    raw = [tuple(tuple(x) for x in p) for p in res["Progs"]]
    peeled = peel(raw)
    # the peeled programs in depth, and the full ones two at a time
    full = sorted({g for p in raw for g in segments(p)}, key=len)
    for q, p in zip(sc["Record"], peeled):
        for g in segments(p):
            if g not in by or len(q) < len(by[g]):
                by[g] = q
    progs = sorted(by, key=lambda g: (-len(g), g))
    tot["commands"] = len(sc["Record"])
    tot["programs"] = len(progs)
    combos = []
    for k in (2, 3, 4):
        if k == 4 and not ntrip:
            break
        c = list(itertools.combinations_with_replacement(range(1, len(progs) + 1), k))
        rng.shuffle(c)
        combos += c[:3000 if k < 4 else ntrip]
    for g in full:
        if g not in by:
            by[g] = next(q for q, p in zip(sc["Record"], raw) if g in segments(p))
            progs.append(g)
    c = [(i, j) for i in range(1, len(progs) + 1) for j in range(i, len(progs) + 1)]
    rng.shuffle(c)
    combos += c[:600 if not ntrip else 4000]
    tot["combos"] = len(combos)
    if not combos:
        return tot
    path = os.path.join(scrdir, "progs_%s_%d_%s.json" % (kind, segnum, "".join(map(tostrhex, ks))))
    with open(path, "w") as f:
        json.dump(dict(progs=[[list(x) for x in p] for p in progs], combos=[list(c) for c in combos]), f)
    rc, out = tlc("LockProgs.tla", "LockProgs.cfg", env={"TRACE": path}, timeout=800, workers=1, heap="3g")
    os.unlink(path)
    tlc_ok(rc, out, "LockProgs")
    tot["trans"], tot["states"] = tlc_stats(out)
    found = sorted({(m, int(c)) for m, c in re.findall(r'"?(DL|LK) (\d+)"?', out)}, key=lambda x: (len(combos[x[1] - 1]), x))
    tot["samples"].append("%s with %d segments: %s" % (by[progs[-1]], segnum, list(progs[-1])))
    for m, c in found[:4]:
        cmds = [by[progs[i - 1]] for i in combos[c - 1]]
        # confirm on the real code, under the controlled scheduler
        sc2 = conc.scen(rng, sc["Setup"], [[q] for q in cmds], ks, segnum=segnum, single=4000, rnd=3000, keep=1, maxhist=2)
        r = conc.Runner(binary)
        try:
            res = r.run(sc2) if r.ok else None
        finally:
            r.stop()
        if res is not None and res["Problem"]:
            tot["bad"].append(("%s %s (predicted by LockProgs.tla)" % (res["Problem"], res["Detail"][:300]), sc2, res["Plan"], None))
        else:
            tot["notes"].append("%s predicted for %s (%d segments), not reproduced" % (m, cmds, segnum))
    return tot


def tostrhex(k):
    return tobytes(k).hex() + "_"


def check(scr, binary, rng, tier):
    jobs = []
    q = tier == "quick"
    for segnum in ([1, 2, 100] if q else [1, 2, 3, 5, 7, 16, 100]):
        for kind in KINDS:
            for ks in ([rng.choice(conc.C03KEYS)] if q else conc.C03KEYS):
                jobs.append((scr.dir, binary, rng.randrange(1 << 30), segnum, kind, list(ks), 0 if q else 3000))
    tot = dict(states=0, trans=0, programs=0, combos=0, commands=0, bad=[], notes=[], samples=[])
    with multiprocessing.Pool(7) as pool:
        for t in pool.imap_unordered(one, jobs):
            for k, v in t.items():
                tot[k] = tot[k] + v
    return tot
