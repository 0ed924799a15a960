#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (ids C..: claimed, N..: not applicable)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SIM = "deterministic simulation with fault injection: "
TECH = {
    "C01": "compliant servers of every legal shape over benign transport schedules; success, server acceptance and echo required",
    "C02": "record/message/byte-level attacker and wrong-Finished servers; transcripts of both ends compared with a reference model",
    "C03": "key-holding server that mutates the message sequence; reference automaton decides accept/refuse",
    "C04": "key-holding server with deviating parameters and invalid key shares; reference model decides",
    "C05": "write histories over back-pressured, short, interrupted and failing transports; peer's decrypted stream compared with the writes",
    "C06": "record partitions x read sizes x benign transports; delivered bytes compared with the sent ones, bounded waiting",
    "C07": "active attacker on the protected stream; delivered prefix and permanent error checked against the model",
    "C08": "closes, cuts and alerts at every byte; end-of-stream reports compared with the model",
    "C09": "grammar-aware and random hostile input in every protocol state; panics, spinning, allocation watched",
    "C10": "transport faults at every write offset, then more calls; every emitted record attributed to key, sequence number and nonce",
    "C11": "catalogue of protocol deviations; failure kind and the one alert compared with the model",
    "C12": "entropy stream under control: bit flips, extreme scalars, failures; metamorphic comparison of what is emitted",
    "C13": "transport that holds bytes until flushed; progress and release checked",
    "C14": "same plan under two benign transport schedules; outcomes compared",
    "C15": "record lengths at and around every limit, both directions; reference model decides",
    "C16": "transport failure of every kind at every byte of both directions; outcome and silence afterwards checked",
    "C17": "call histories with close and failures; peer must see data, then one close, then nothing",
    "C18": "TcpStream over simulated socket calls: partial transfers, EINTR, errors, failed dup",
    "C19": "several clients interleaved at every transport call by a seeded scheduler; compared with running alone; records spliced between connections",
    "C20": "long uniform conversations and connections that end by every kind of fault; bytes held between calls and after the end, descriptors and threads watched",
}
NOTE = ("Seeded search: holds on every execution explored, not a proof. Real husk code runs (debug assertions on); transport, "
        "socket calls, entropy, clock, server and attacker are simulated. Trusts the independent reference crypto, server and "
        "model in /verif/sim. Violations are confirmed in a fresh process, minimised, and replay exactly.")
NA = {
    "N01": "pure functions without schedule, time, I/O, faults or history: simulation adds nothing to calling them on inputs; they are exercised only through simulated handshakes against an independent implementation",
    "N02": "pure functions of their input: no schedule, fault or history for a simulator to control; the wire forms husk really uses are covered by C01-C04 and C11",
    "N03": "a statement about execution time of the machine code, which the simulator's virtual clock does not model",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": SIM + TECH[i],
        "level": "exploration",
        "level_note": NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "hooks": {
        "guard": "cfg(husk_sim)",
        "enable": "build.sh sets RUSTFLAGS='--cfg husk_sim'; should the hook not compile, it builds without it and leaves out only the cases that move record numbers ahead",
        "source_commits": ["d247d70"],
    },
    "notes": "KNOWN_FINDINGS lists repaired defects; cases/ holds executions that once failed, replayed first by their check; replay.sh FILE repeats a recorded violation.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
