#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = "model checking: stateless exploration of the real code under a controlled scheduler, network, serial line and clock"
SEQ = "model checking: bounded-exhaustive exploration of operation histories and inputs on the real code against a reference model"
CON = T + ", preemption-bounded; race detector on the same executions"
def note(p):
    i = p["id"]
    conc = {"C04","C05","C10","C11","C18","C20","C22","C23","C24","C25","C29","C30"}
    tech = CON if i in conc else SEQ if i in {"C01","C02","C03","C06","C07","C08","C09","C12","C13","C28"} else T
    return tech, ("Every execution within the bounds listed in the evidence file (inputs, histories, fault points, schedules) of the real code, "
      "mechanically rebuilt from /repo on each run with its sync/net/time/serial imports replaced by controlled ones; exhaustive unless caps_hit says otherwise. "
      "Trusts the reference model in mc/cmd/mc/model.go, the translator mc/cmd/vrewrite and the fidelity of the virtual environment; says nothing beyond the bounds.")
checks = []
for p in props:
    t, n = note(p)
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo: the checks translate its working tree themselves (mc/cmd/vrewrite). Known findings and repaired defects: known_findings.json. replay.sh FILE re-runs a counterexample."},
  open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
fixed = """C01,C02,C03 39ee54c a range check adding address and quantity in 16 bits let ranges past the end of the table through (panic or wrong table part)
C01 847b226 bit reads and writes of more than 32767 bits were truncated by a 16-bit sum
C02 48019b8 register writes with more than 65535/2 words or bytes accepted a truncated quantity
C03,C04 1c624e6 mask write used the raw address as table index when the table does not start at zero
C09 a3771e7 a frame announcing more than 254 bytes crashed the server process (slice out of range)
C08 d6e9fd9 a frame with a foreign protocol id was skipped without its body, shifting the stream
C06,C07,C10 d1b383d combined read/write wrote before its read range was checked and was not atomic
C12 9c379b1 a handler error that is no ExceptionError was answered with an arbitrary code instead of device failure
C07 99f16cd write requests whose payload is longer or shorter than announced were executed
C11 e1313a4 Close returned while a connection was being accepted, which was then served on
C15,C17,C22,C16 c9e8d21 the ASCII client returned after a successful write without reading and kept the port after a failed one
C28 492afaa an ASCII PDU longer than 253 bytes panicked
C28 26200a4 raw RTU requests too short for their function panicked
C14,C15 9c34df9 a combined read/write reply with another quantity than requested was accepted
C14,C15 89e6f03 a FIFO reply whose count contradicts its data was accepted
C13 005424c write multiple coils sent the caller's surplus bytes with a wrong byte count
C16 6c42a52 an exception reply with another function's code was taken for this request's
C17 f8260bf a FIFO reply over RTU arriving in pieces was cut off
C19 e8fda62 after a timeout or bad reply the TCP client kept the connection and read the late reply as the next one's
C21 d00d1de an RTU reply with an impossible length made the client wait without bound
C24 84792a3 the connection whose connect callback returned an error was never closed
C24 3216794 without auto-reconnect a lost connection was dialled again
C25 47a389b the keep-alive callback ran after the connection-lost callback
C25 7321805 Close right after Start was lost: the reverse server went on for ever
C25 3bf0e64 keep alive could fire once more on a connection already lost
C24 97e6693 UnderlyingConn and the reconnecting goroutine raced on the connection
C30 e29cf41 live sessions worked on a copy of the logger: LogMode did not reach them, and copying raced with LogMode
C05 fff0507 AddNodes read a node's unit id without its lock: a data race with SetSlaveID
C21 4d3b1dd an RTU call polled a serial port that was hung up forever (reads of nothing without an error)""".split("\n")
json.dump({"findings": [], "fixed": ["fixed: property=" + f for f in fixed]}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
