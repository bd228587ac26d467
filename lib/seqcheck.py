"""Sequential conformance checks (C04-C16 and parts of others)."""
import concurrent.futures, multiprocessing
from seq import *
import profiles
from gen import Seg


class Cover:
    """what a check has covered, merged over processes"""
    def __init__(self):
        self.traces = self.events = self.states = self.unjudged = self.judged = 0
        self.kinds = set()
        self.samples = []

    def add(self, o):
        self.traces += o.traces
        self.events += o.events
        self.states += o.states
        self.unjudged += o.unjudged
        self.judged += o.judged
        self.kinds |= o.kinds
        self.samples = (self.samples + o.samples)[:3]


def kind(e):
    """a coarse class of an event: command, argument shape, reply shape"""
    q = e["q"]
    return (q[0].lower(), len(q), e["r"][0], min(len(e["r"]), 5))


def show(e):
    return " ".join(repr(tobytes(a))[1:] for a in e["q"]) + " -> " + (" ".join(e["r"])[:200] if e["r"] else "?") + " @%d" % (e["t"] - BASE_MS)


class Bad:
    """one violation: events up to and including the offending one"""
    def __init__(self, what, ev, exp):
        self.what, self.ev, self.exp = what, ev, exp


def run_segs(scrdir, binary, segs, segnum, tag, twins=False, dbnum=3000, tlc_workers=1):
    """play segs on a real server and validate; returns (Cover, [Bad], notes)"""
    scr = Scratch.__new__(Scratch)
    scr.dir = scrdir
    base, traces, fails = seq_worker((scrdir, binary, segs, 0, dbnum, segnum, 20))
    traces += [None] * (len(segs) - len(traces))
    cov, bad, notes = Cover(), [], []
    for n, ev, typ, text, again in fails:
        if not again:
            notes.append("not reproduced: %s %s" % (typ, text))
            continue
        last = ev[-1]
        if last["j"] and last["r"] is None:
            last = dict(last, r=None)
            bad.append(Bad("%s: %s" % (typ, text), ev, ""))
        else:
            notes.append("unjudged %s: %s" % (typ, text))
    if any(traces):
        mm, uj, events, states = validate(scr, traces, dbnum, tag=tag, workers=tlc_workers)
        if twins:      # segment 2i is judged only where its twin 2i+1 conforms
            tw = {s for s, _, _ in mm + uj if s % 2 == 1}
            keep = []
            for m in mm:
                if m[0] % 2 == 1 or m[0] + 1 in tw:
                    notes.append("also without expiry")
                else:
                    keep.append(m)
            mm = keep
        for s, i, exp in mm:
            bad.append(Bad("reply not allowed by the specification", traces[s][:i + 1], exp))
        cov.events, cov.states, cov.unjudged = events, states, len(uj)
        for t in traces:
            if t:
                cov.traces += 1
                for e in t:
                    if e["j"]:
                        cov.judged += 1
                        cov.kinds.add(kind(e))
        for t in traces[:1]:
            if t:
                cov.samples.append([show(e) for e in t[:25]])
        for s, i, exp in uj[:3]:
            notes.append("unjudged mismatch: %s, specified %s" % (show(traces[s][i]), exp))
    return cov, bad, notes


def _job(a):
    scrdir, binary, pid, seed, n, idx, segnum = a
    try:
        segs = make(pid, seed, n, idx)
        return run_segs(scrdir, binary, segs, segnum, "%s_%d" % (pid, idx), twins=(pid == "C14"))
    except Inconclusive as e:
        return e


def make(pid, seed, n, idx):
    rng = random.Random("%s/%s/%d" % (seed, pid, idx))
    if pid == "C14":
        out = []
        for i in range(n // 2):
            name = profiles.ALL[(i + idx * 7) % len(profiles.ALL)]
            out += list(profiles.c14(rng, name))
        return out
    return [profiles.PROFILES[pid](rng) for _ in range(n)]


def random_check(scr, pid, seed, chunks, per_chunk, procs=7, stop_early=True):
    """chunks of random histories, each recorded and validated in its own process"""
    binary = build_server(scr)
    jobs = [(scr.dir, binary, pid, seed, per_chunk, i, (1, 3, 100, 7)[i % 4]) for i in range(chunks)]
    cov, bad, notes = Cover(), [], []
    with multiprocessing.Pool(procs) as pool:
        for r in pool.imap_unordered(_job, jobs):
            if isinstance(r, Exception):
                pool.terminate()
                raise r
            cov.add(r[0])
            bad += r[1]
            notes += r[2]
            if bad and stop_early:
                pool.terminate()
                break
    return cov, bad, notes
