#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
NOTES = {
 "C01": "Seeded search: every run compares all rows, names and types the real client handed over with the model server's own copy, under random fragmentation, delays, revisions, time zones, compression and block layouts. Trusts the model server's independent codec, LZ4 and CityHash128.",
 "C02": "Seeded search: rows stored by the model server (independent decoder, strict about block structure) are compared with the rows given, for complete, failed, cancelled and chunked inserts. Chunk size is lowered through a guarded knob in part of the runs.",
 "C03": "Seeded search over histories of abandoned, cancelled, failed and parallel operations; every row and exception carries a marker of its own statement.",
 "C04": "Seeded search over the byte at which a reply is cut, reset, replaced by an exception or made malformed; outcome compared with what the model server had sent.",
 "C05": "Seeded search over sequences of failures, timeouts and cancellations followed by a heal and a probe operation; any panic of library code is a violation.",
 "C06": "Seeded search over bit flips inside compressed frames in flight.",
 "C07": "Seeded search over interleavings at the pool's shared-memory operations (tasks are suspended in the middle of a poll) and over network faults; open sockets are counted after every step. Sequentially consistent memory is assumed.",
 "C08": "As C07; each get_handle must complete within a bound computed from hold times and connection timeouts. Sequentially consistent memory is assumed.",
 "C09": "As C07; at quiescence the pool's Debug counters, the sockets open at the servers, and a probe taking pool_max handles must agree.",
 "C10": "Seeded search over stall points and timeouts under a virtual clock; operations must end within 2 ms of virtual time of the exact deadline.",
 "C11": "Seeded search over outages; connection attempts and their virtual times are compared with the retry policy.",
 "C12": "Seeded search over hosts, resolved addresses and their failures; order of attempts is compared with strict rotation.",
 "C13": "Seeded search over options, revisions and operation histories; a strict server-side parser accepts only legal byte streams and compares them with what was configured.",
 "C14": "Seeded search over where replies are split and stalled; hand-over times are compared with arrival times in virtual time.",
 "C15": "Seeded search over connection loss and reconnects; statements received by all servers are counted by unique marker.",
}
NA = {
 "C16": "Typed iteration over a block already in memory is a pure, single-threaded function of its input: no schedule, clock, I/O or fault it could depend on, so a simulator has nothing to decide. (C01 runs compare typed access with the model for the values it generates, as part of query exactness.)",
 "C17": "Decimal arithmetic is a pure function of its operands: nothing for a simulator to schedule or fail.",
 "C18": "URL parsing is a pure function of a string: nothing for a simulator to schedule or fail. (C13 covers that well-formed options reach the server.)",
}
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "hooks": {
  "guard": "rustc --cfg clickhouse_sim (off by default; absent from every Cargo.toml)",
  "enable": "RUSTFLAGS='--cfg clickhouse_sim' cargo build, as build.sh does, into /verif/target",
  "source_commits": ["eafca706046a0d807e5e39e0c3d998f91672c196", "c020c5b123e5bd501c8490137260aa40a899dd9d"],
 },
 "checks": [{
   "property": p,
   "quick_cmd": f"bash check.sh {p} quick",
   "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection (seeded search)",
   "level": "exploration",
   "level_note": n,
  } for p, n in NOTES.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "See DESIGN.md. Replays: bash replay.sh <file>.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
