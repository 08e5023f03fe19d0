#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
CLAIM_C = sys.argv[1:]  # codec properties that have a check
T = "deterministic simulation with fault injection (seeded search over schedules and fault sequences)"
NOTE = {
 "S01": "Seeded runs of the whole server (laya::start, hyper, h2) on a simulated runtime; every response of patient clients is compared with a reference model of the routing, parsing and storage outcome. Samples schedules, does not enumerate them. Trusts the glommio stub and the reference model. One known finding (hyper closes without flushing when a request body is unread and the socket is full).",
 "S02": "As S01; every path the server opens in the simulated storage is checked lexically against the image directory, and requests whose identifier leaves it must be refused. No symbolic links in the simulated storage.",
 "S03": "As S01; the recorded opens of each run are matched one to one with the requests that may cause them, under overlapping opens, delays, cancelled requests and a changing directory.",
 "S04": "As S01 with 17 kinds of hostile peers, failing accepts and opens, panics in the runtime and clock jumps; afterwards every worker must serve probes over HTTP/1 and HTTP/2 within a bounded number of steps.",
 "S05": "Crowds of more than 1024 connections per worker with members leaving in every way; the number served at once and progress of the waiting ones are checked at every step.",
 "S06": "As S04; after every connection ended, all simulated sockets, files and server tasks must be gone except the listeners.",
 "C01": "Every stream callback of the real decoder is simulated (short reads, chunk sizes, buffer sizes, file or callback I/O); the outcome must be that of a whole-buffer decode of the same bytes.",
 "C02": "Read errors, early ends and bit-exact interruptions of the stored bytes are injected into strict decodes; success is accepted only with exact pixels.",
 "C03": "Write/seek errors, short writes, full disks and failing closes are injected into encodes; success is accepted only when the storage holds exactly the bytes of the fault-free encode.",
 "C04": "Lossless encodes through simulated storage and decodes of what was stored, over drawn configurations and images.",
 "C05": "Stored bytes are damaged, cut or garbled and decoded in a child process with guarded allocations, a step bound and a memory bound.",
 "C06": "Allocation failures are injected at drawn points of encodes and decodes; the call must fail cleanly or succeed with the right result, and everything must be released.",
 "C07": "A ledger of every allocation and stream hook over drawn call histories, including aborted ones and injected faults.",
 "C08": "Windows, tiles, reductions and component subsets decoded in drawn orders are compared with the full decode.",
 "C09": "Codecs run on real threads that are parked and released one at a time at their I/O and allocation calls by the seeded scheduler; each must give what it gives alone.",
 "C10": "The number and size of I/O calls of every operation is bounded by a function of the image and the stored bytes, under every fault.",
 "C11": "Files cut at every kind of place are decoded tolerantly; tiles whose data is complete must be exact.",
 "C12": "Tile by tile encodes through simulated storage are compared with whole-image encodes.",
 "C13": "The sequence of writes of an encode is cut at drawn points (also inside a write, also with lost or reordered unsynced writes) and what survives is decoded strictly.",
 "C15": "Irreversible encodes, custom component transforms and size limits through simulated storage; the decoded samples are compared with the original within bounds, the stored size with the limit. Quality targets (PSNR) are not decided: passes are too coarse for a bound. Bounds are upper limits on loss, not a reference implementation.",
 "C14": "Codestreams are rewritten into other legal stored forms (tile-parts divided and interleaved, packed headers, indexes, overrides); every request must give what it gives on the original form, through simulated streams.",
}
NA = {
 "P01": "A pure function of its input: no schedule, clock, I/O or fault can influence how a segment is parsed. (S01 compares whole responses with a reference parser, which exercises it, but the property as such is input generation, not simulation.)",
 "P03": "A pure function of the code-block bytes; there is also no HTJ2K encoder or independent decoder here to serve as the oracle.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i[0] == "S" or i in CLAIM_C:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T, "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "no check yet (simulator under construction)"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulators replace crates (glommio, num_cpus) and libc symbols at link time."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
