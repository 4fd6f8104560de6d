# Generates /verif/MANIFEST.json (committed; rerun after editing).
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ONLINE = "runtime monitor: reference model over generated inputs, debug and release builds, constants harvested from compare instrumentation"
T = {
 "C04": "runtime monitor: panic/abort/hang detection over exhaustive headers, random and mutated bytes",
 "C10": "runtime monitor: instrumented allocator around decoding",
 "S01": "runtime monitor: cyclic-order model of allocation histories, whole 31-bit range in release builds",
 "S02": "runtime monitor: timed concurrent histories checked offline for uniqueness, order and gaps",
 "S03": "runtime monitor: Wing-Gong linearizability checking of recorded concurrent histories",
 "R01": "runtime monitor: trace rules over the frames a recording connection received",
 "R02": "runtime monitor with fault injection: refused sends at every position",
 "R03": "runtime monitor: event log of concurrent requests attributed stream by stream",
 "R04": "runtime monitor with fault injection over a recording connection",
 "R05": "runtime monitor under virtual time",
 "R06": "runtime monitor: counted subscriptions, polls and reports against published statuses",
 "R07": "runtime monitor: each socket's recorded events against its own script, with other sockets meanwhile",
 "R08": "runtime monitor: closes the connection saw against calls of close and the timeout, step by step",
 "C15": "runtime monitor: == and != against accessors and the model, over neighbouring values",
 "P06": "runtime monitor: instrumented allocator around fragmenting, reassembly and encoding",
 "X01": "runtime monitor: the monitors of the frame, payload, identifier and request properties under Miri, interpreting a big-endian and a 32-bit machine",
 "U01": "sanitizers: AddressSanitizer, ThreadSanitizer, MemorySanitizer, Miri, and an allocator balance monitor",
}
NOTE = ("Held on the executions observed (see evidence), not proved. Trusts the reference model and the harness in /verif/mon. ")
EXTRA = {
 "S02": "Interleavings are those the hardware produced in the run, plus Miri's random schedules in the thorough tier.",
 "S03": "Interleavings are those the hardware produced in the run, plus Miri's random schedules in the thorough tier.",
 "R03": "Interleavings are those the hardware produced, with delays injected in the connection and by signals.",
 "U01": "Says nothing about paths and interleavings the workloads did not drive. Miri runs without an aliasing model because the locked bytes crate does not follow one.",
 "X01": "Some hundreds of cases per run; giants and long histories are left out. Two kinds of machines besides this one.",
 "R05": "Time is tokio's virtual clock, but for a few timeouts in real time.",
 "C13": "Two builds: with debug assertions (refusal) and without (masking).",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s", "191f038..HEAD"],
                     capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if not l.split(" ", 1)[1].startswith("fix:")]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "hooks": {"guard": "binate_verif", "enable": "RUSTFLAGS=\"--cfg binate_verif\" (check.py sets it)", "source_commits": hooks},
 "checks": [],
 "not_applicable": [],
 "notes": "check.py builds /verif/mon against /repo in /verif/.work (ignored by git) and runs its monitors; python3 check.py ID --replay evidence/ID.replay.json shows a violation again.",
}
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": T.get(i, ONLINE),
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(i, ""),
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
