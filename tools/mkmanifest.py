#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
SEQ = "C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16".split()
checks = []
def c(pid, tech, level, note):
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level=level, level_note=note))
for p in SEQ:
    c(p, "TLA+ specification checked with TLC; TLC trace validation of executions recorded from the real server", "model_checking",
      "Every reply of recorded executions of the real server (controlled clock) is checked by TLC to be a behaviour of the TLA+ specification; the histories are sampled, the oracle is complete.")
LIN = ("TLA+ specification (LinCheck.tla over Store.tla) checked with TLC: histories recorded from the real code under a controlled scheduler, "
       "and from the real server over TCP, are checked by TLC to have a legal one-at-a-time order")
LINN = ("Schedules (all single preemptions plus random ones) of enumerated and sampled command combinations run on the real store; "
        "TLC decides each history exactly; the set of histories is sampled.")
for p in ("C01", "C02", "C22", "C23"):
    c(p, LIN, "model_checking", LINN)
c("C03", "TLA+ model of lock programs recorded from the real commands (LockProgs.tla), explored by TLC in every interleaving of every pair and triple; predicted deadlocks "
  "are confirmed on, and schedules are executed on, the real code under a controlled scheduler", "model_checking",
  "Exhaustive over interleavings of the recorded lock programs; the recorded command forms and executed schedules are a bounded set.")
W = "TLA+ specification of the wire protocol over the store (Wire.tla, Resp.tla, Store.tla); TLC validates byte streams recorded from the real server"
c("C17", W + "; letter-case variants of one history compared through the specification", "model_checking", "Sampled streams and segmentations, complete oracle.")
c("C18", W + " (every reply is exactly one well-formed RESP value and nothing else is sent)", "model_checking", "Sampled streams, complete oracle.")
c("C19", W + ": arbitrary and malformed bytes, cut-off requests, every command with arbitrary arguments, with an observing client on the same server", "model_checking", "Sampled inputs, complete oracle for surviving clients.")
c("C20", "TLA+ specification (TraceServer.tla/Wire.tla): interleaved traces of many real connections, pipelined and segmented, validated by TLC", "model_checking", "Sampled traces, complete oracle.")
c("C21", "TLA+ specification of configuration (Config.tla) deciding every observed start of the real server; equal histories under different segment numbers validated against Store.tla", "model_checking", "Sampled configurations over the declared options, complete oracle.")
c("C24", "TLA+ model of the connection life cycle (Lifecycle.tla, safety and liveness by TLC; its broken variants must be rejected); client behaviours enumerated by TLC (Scripts.tla) "
  "replayed on the real server and the measured resources validated by TLC (Resources.tla)", "model_checking", "Exhaustive in the model and over the enumerated client behaviours; the real server is measured from outside.")
checks.sort(key=lambda x: x["property"])
done = {x["property"] for x in checks}
na = [dict(property=p, reason="check under construction") for p in ids if p not in done]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
