"""The same history in several variants that must not make a difference.
A mismatch of one variant counts where another variant conforms."""
import multiprocessing
from vlib import *
import seq, seqcheck
from gen import *


def run_variants(scrdir, binary, groups, tag, dbnum=3000):
    """groups: lists of (Seg, segnum); returns Cover, bad, notes"""
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    cov, bad, notes = seqcheck.Cover(), [], []
    order = {}
    for gi, g in enumerate(groups):
        for vi, (s, segnum) in enumerate(g):
            order.setdefault(segnum, []).append((gi, vi, s))
    traces, keys = [], []
    failed = {}
    for segnum, l in order.items():
        base, tr, fails = seq.seq_worker((scrdir, binary, [x[2] for x in l], 0, dbnum, segnum, 20))
        tr += [None] * (len(l) - len(tr))
        for n, ev, typ, text, again in fails:
            if again:
                failed[l[n][:2]] = (len(ev) - 1, "%s: %s" % (typ, text), ev)
            else:
                notes.append("not reproduced: %s %s" % (typ, text))
        for x, t in zip(l, tr):
            keys.append(x[:2])
            traces.append(t)
    if not any(traces):
        return cov, bad, notes + [str(x[1]) for x in failed.values()][:3]
    mm, uj, events, states = seq.validate(scr, traces, dbnum, tag=tag, workers=1)
    cov.states, cov.events = states, events
    for s, i, exp in mm + uj:
        failed[keys[s]] = (i, "reply not allowed by the specification", traces[s][:i + 1], exp)
    for gi, g in enumerate(groups):
        f = {vi: failed[(gi, vi)] for vi in range(len(g)) if (gi, vi) in failed}
        if not f:
            continue
        first = {vi: f[vi][0] if vi in f else 10 ** 9 for vi in range(len(g))}
        far = max(first.values())
        for vi, x in f.items():
            if x[0] < far:
                bad.append(seqcheck.Bad("%s (while another variant of the same history conforms)" % x[1], x[2], x[3] if len(x) > 3 else ""))
            else:
                notes.append("all variants alike: %s" % x[1])
    for t in traces:
        if t:
            cov.traces += 1
            for e in t[1:]:
                cov.judged += 1
                cov.kinds.add(seqcheck.kind(e))
    cov.samples.append([seqcheck.show(e) for e in traces[0][:12]] if traces[0] else [])
    return cov, bad, notes


OPTPOS = {"set": lambda i, n: i >= 3, "expire": lambda i, n: i == 3, "linsert": lambda i, n: i == 2, "lmove": lambda i, n: i >= 3,
          "lpos": lambda i, n: i >= 3, "hrandfield": lambda i, n: i == 3}


def recase(q, f):
    n = q[0].decode("latin-1").lower()
    p = OPTPOS.get(n, lambda i, n: False)
    return [bytes(f(c) if chr(c).isalpha() and c < 128 else c for c in a) if i == 0 or p(i, len(q)) else a for i, a in enumerate(q)]


UP = lambda c: c & ~32
LOW = lambda c: c | 32


def case_group(rng):
    g = Gen(rng, bad=0.03, case=0)
    names = [n for n in ALL if n not in ("spop",)] + ["set", "set", "expire", "linsert", "lmove", "lpos", "hrandfield"] * 3
    cs = []
    for _ in range(rng.randint(12, 30)):
        cs.append(g.cmd(rng.choice(names)))
    for k in g.keys:
        cs += observe(k, 0)
    out = []
    for f in (UP, LOW, lambda c: rng.choice([c, c ^ 32])):
        s = Seg()
        for q in cs:
            s.q(recase(q, f))
        out.append((s, 100))
    return out


def seg_group(rng):
    g = Gen(rng, keys=[b"k%d" % i for i in range(rng.randint(3, 12))], bad=0.02, case=0)
    s = Seg()
    t = 0
    names = [n for n in ALL if n not in ("spop",)] + ["keys", "mset", "mget", "del", "exists", "rename", "sinterstore", "sunionstore", "smove", "lmove"] * 2
    for _ in range(rng.randint(15, 40)):
        if rng.random() < 0.08:
            t += rng.choice([500, 1000, 2000])
            s.t(t)
        s.q(g.cmd(rng.choice(names)))
    for k in g.keys:
        for o in observe(k, 0):
            s.q(o)
    s.q([b"KEYS", b"*"])
    return [(s, n) for n in (1, 2, rng.choice([3, 5, 7, 16]), 100, 1009)]


MAKE = {"C17": case_group, "C21": seg_group}


def _job(a):
    scrdir, binary, pid, seed, n, idx = a
    rng = random.Random("%s/%s/var/%d" % (seed, pid, idx))
    try:
        return run_variants(scrdir, binary, [MAKE[pid](rng) for _ in range(n)], "%s_var%d" % (pid, idx))
    except Inconclusive as e:
        return e


def check(scr, pid, seed, chunks, per, procs=7):
    binary = build_server(scr)
    return merge(_job, [(scr.dir, binary, pid, seed, per, i) for i in range(chunks)], procs)


def merge(fn, jobs, procs=7):
    cov, bad, notes = seqcheck.Cover(), [], []
    with multiprocessing.Pool(min(procs, len(jobs))) as pool:
        for r in pool.imap_unordered(fn, jobs):
            if isinstance(r, Exception):
                pool.terminate()
                raise r
            cov.add(r[0])
            bad += r[1]
            notes += r[2]
            if bad:
                pool.terminate()
                break
    return cov, bad, notes
