"""The checks, one per property, and how their outcome is reported."""
import json, os
from vlib import *
import conc, conf, hammer, life, locks, multi, net, seqcheck, variants

EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class Outcome:
    def __init__(self, level):
        self.level = level
        self.coverage = {}
        self.bad = []           # seqcheck.Bad or similar (what, ev, exp)
        self.notes = []
        self.assumptions = []


def sequential(scr, pid, tier, seed):
    o = Outcome("model_checking")
    chunks, per = (14, 350) if tier == "quick" else (280, 400)
    cov, bad, notes = seqcheck.random_check(scr, pid, seed, chunks, per)
    o.bad += bad
    o.notes += notes
    o.coverage = dict(states=cov.states, transitions=cov.events, traces_validated_against_impl=cov.traces,
                      judged_replies=cov.judged, reply_classes=len(cov.kinds), unjudged_mismatches=cov.unjudged, samples=cov.samples)
    return o


class BadHist:
    def __init__(self, what, sc, plan, h):
        self.what, self.exp = what, ""
        self.ev = ["scenario " + json.dumps(sc, ensure_ascii=False), "plan " + json.dumps(plan)] + (conc.show_hist(h) if h else [])
        self.replay = dict(scenario=sc, plan=plan)


SAID = {"C01": "concurrent single-key commands", "C02": "multi-key commands", "C03": "completion", "C22": "expiry", "C23": "KEYS"}


def concurrent(scr, pid, tier, seed):
    o = Outcome("model_checking")
    rng = random.Random(seed * 1000003 + int(pid[1:]))
    rounds, scale = (1, 1.0) if tier == "quick" else (8, 2.0)
    cov = dict(scenarios=0, runs=0, steps=0, orders=0, hist=0, states=0, trans=0)
    samples = []
    try:
        binary = build_sched(scr)
    except Inconclusive as e:
        binary = None
        o.notes.append("controlled scheduler not usable: " + str(e)[:300])
    for _ in range(rounds if binary else 0):
        scs = getattr(conc, pid.lower())(rng, scale)
        t = conc.run_scenarios(scr, binary, scs, judge_hist=pid != "C03")
        for k in cov:
            cov[k] += t[k]
        samples = (samples + t["samples"])[:3]
        o.notes += t["notes"]
        o.bad += [BadHist(*b) for b in t["bad"]]
        if o.bad:
            break
    extra = {}
    if pid == "C03" and binary and not o.bad:
        t = locks.check(scr, binary, rng, tier)
        cov["states"] += t["states"]
        cov["trans"] += t["trans"]
        o.notes += t["notes"]
        o.bad += [BadHist(*b) for b in t["bad"]]
        samples = samples[:2] + t["samples"][:2]
        extra = dict(lock_programs_recorded=t["commands"], distinct_lock_programs=t["programs"], lock_program_combinations=t["combos"])
    # the real server
    race = build_server(scr, race=True)
    pool = {"C01": conc.ALLSINGLE, "C02": conc.ALLSINGLE + conc.PAIRCMD * 3, "C03": conc.ALLSINGLE + conc.PAIRCMD * 3 + conc.REFUSED,
            "C22": conc.ALLSINGLE + [["EXPIRE", "{k}", "1"], ["EXPIRE", "{k}", "0"], ["SETEX", "{k}", "1", "x"]] * 8, "C23": conc.ALLSINGLE + conc.PAIRCMD + [["KEYS", "*"]] * 12}[pid]
    ncmd = 0
    for segnum in [] if o.bad else [3] if tier == "quick" else [1, 2, 3, 100]:
        n, problem, maps, other = hammer.hammer(scr, race, rng, pool, ["k", "m", "n", "x", "y1"], secs=5 if tier == "quick" else 25, segnum=segnum, tick=pid in ("C22", "C23", "C03"))
        ncmd += n
        if problem:
            o.bad.append(BadHist("real server under load: " + problem, dict(pool=pid, segnum=segnum), None, None))
        for m in maps[:2]:
            o.bad.append(BadHist("unsynchronised access to a map: " + m, dict(pool=pid, segnum=segnum), None, None))
        o.notes += ["data race: " + x for x in other]
    tcp = 0
    if pid in ("C01", "C02") and not o.bad:
        scs = getattr(conc, pid.lower())(rng, 0.5 if tier == "quick" else 3)
        try:
            hs = hammer.tcp_histories(scr, race, rng, scs)
            ok, st = conc.lincheck(scr.dir, hs, "tcp")
            tcp = len(hs)
            cov["states"] += st[0]
            cov["trans"] += st[1]
            for i, h in enumerate(hs):
                if i + 1 not in ok:
                    o.bad.append(BadHist("no one-at-a-time order explains this history of the real server", {}, None, h))
                    break
        except (ServerGone, Hang, BadReply) as e:
            o.bad.append(BadHist("real server: %s %s" % (type(e).__name__, e), {}, None, None))
    o.coverage = dict(states=cov["states"], transitions=cov["trans"], traces_validated_against_impl=cov["hist"] + tcp if pid != "C03" else cov["runs"], scenarios=cov["scenarios"],
                      schedules_executed=cov["runs"], scheduling_points=cov["steps"], distinct_event_orders=cov["orders"], histories_checked=cov["hist"],
                      tcp_histories=tcp, commands_under_race_detector=ncmd, **extra, samples=samples)
    return o


def network(scr, pid, tier, seed):
    o = Outcome("model_checking")
    q = tier == "quick"
    total = seqcheck.Cover()
    extra = {}

    def part(name, f, *a):
        if o.bad:
            return
        t0 = time.time()
        cov, bad, notes = f(*a)
        total.add(cov)
        o.bad += bad
        o.notes += notes
        extra["%s_traces" % name] = cov.traces
        extra["%s_s" % name] = str(round(time.time() - t0, 1))
    if pid in ("C17", "C18", "C19"):
        part("streams", net.wire_check, scr, pid, seed, *((14, 150) if q else (200, 250)))
    if pid == "C17":
        part("letter_case", variants.check, scr, pid, seed, *((7, 50) if q else (70, 80)))
        part("large", multi.large, scr, seed, *((6, 3) if q else (36, 8)))
    if pid == "C19":
        part("any_command", multi.fuzz, scr, seed, *((28, 400) if q else (400, 1000)))
    if pid == "C20":
        part("connections", multi.c20, scr, seed, *((14, 25) if q else (140, 60)))
    if pid == "C21":
        t0 = time.time()
        cov, bad, recs = conf.check(scr, seed, 400 if q else 6000)
        o.bad += bad
        total.states += cov["states"]
        total.events += cov["starts"]
        extra.update(starts=cov["starts"], starts_that_served=cov["served"], config_s=str(round(time.time() - t0, 1)))
        total.samples.append([str(r["args"]) + " " + repr(r["text"]) for r in recs[:5]])
        part("segment_numbers", variants.check, scr, pid, seed, *((7, 40) if q else (70, 60)))
    o.coverage = dict(states=total.states, transitions=total.events, traces_validated_against_impl=total.traces + extra.get("starts", 0), unjudged_mismatches=total.unjudged,
                      **extra, samples=total.samples)
    return o


def lifecycle(scr, pid, tier, seed):
    o = Outcome("model_checking")
    cov, bad = life.check(scr, tier, seed)
    o.bad = bad
    o.coverage = dict(cov, traces_validated_against_impl=cov["records"])
    return o


RUN = {p: sequential for p in "C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16".split()}


RUN.update({p: concurrent for p in SAID})
RUN.update({p: network for p in "C17 C18 C19 C20 C21".split()})
RUN["C24"] = lifecycle


def run(scr, pid, tier, seed):
    return RUN[pid](scr, pid, tier, seed)


def report(pid, tier, seed, o, wall):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level=o.level, coverage=o.coverage, assumptions=o.assumptions, wall_s=round(wall, 2),
             violations=len(o.bad))
    if o.notes:
        e["coverage"]["notes"] = sorted(set(o.notes))[:10]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    for n in sorted(set(o.notes))[:10]:
        print("note:", n[:300])
    print("%s %s: %s (%.1f s)" % (pid, tier, ", ".join("%s=%s" % (k, v) for k, v in o.coverage.items() if isinstance(v, (int, str))), wall))
    if not o.bad:
        return 0
    o.bad.sort(key=lambda b: (len(b.ev), str(b.ev[-1:])))
    for n, b in enumerate(o.bad[:3]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, what=b.what, expected=b.exp, events=b.ev, replay=getattr(b, "replay", None)), f, indent=1, ensure_ascii=False)
        print("%s: %s%s" % (pid, b.what, (", specified: " + b.exp) if b.exp else ""))
        for x in b.ev[-30 if not isinstance(b.ev[-1], dict) else -12:]:
            print("   ", seqcheck.show(x) if isinstance(x, dict) and "q" in x else x)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    print(open(path).read())
    return 0
