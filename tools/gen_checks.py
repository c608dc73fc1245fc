#!/usr/bin/env python3
"""Writes tools/checks.json (the claimed checks) and then MANIFEST.json."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__))
T_SEQ="explicit-state model checking of the real code: exhaustive operation sequences to a depth, compared with a reference ledger after every one"
T_SCHED="stateless model checking of the real code: all schedules up to a deviation bound under a controlled scheduler"
T_ENUM="explicit exploration of the real code over a complete bounded space of inputs and histories, against an independent reference model"
T_CRASH="exhaustive crash-point and torn-write enumeration on the real code, with recovery judged by a reference model"
T_NET="stateless model checking of real nodes on a simulated network: all schedules, splits, stalls and disconnects up to a deviation bound"
TRUST=" Trusts: the instrumentation (scheduler, virtual time, network and file system shims), and the reference model written from the rules."
checks=[]
def c(pid,tech,note): checks.append({"property":pid,"level":"model_checking","technique":tech,"level_note":note+TRUST})
exec(open(os.path.join(here,"notes.py")).read())
json.dump({"checks":checks,"not_applicable":NA,"notes":""},open(os.path.join(here,"checks.json"),"w"),indent=1)
subprocess.check_call(["python3",os.path.join(here,"gen_manifest.py")])
