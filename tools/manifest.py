"""Writes MANIFEST.json: claims every property whose check module exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}

TECH = {
    "C": "property-based testing (hypothesis) against an independent BER/SMI reference codec",
    "S": "property-based testing against an independent RFC 3414/7860/3826 reference and models",
    "M": "stateful property-based testing against a reference matching model, with mutated traffic",
    "G": "stateful property-based testing in a deterministic simulated network and clock",
    "T": "property-based testing over generated socket traffic and schedules",
}
NOTES = {
    "C": "Random structured exploration with shrinking; trusts the reference codec in "
         "harness/ref.py, which shares no code with /repo.",
    "S": "Random structured exploration; trusts hashlib/hmac and pycryptodome primitives used by "
         "the reference.",
    "M": "Random histories; trusts the reference codec and the matching model.",
    "G": "Random network schedules under a virtual clock and simulated events/locks, thread "
         "switches at generated lines and synchronization points (not within a line); trusts the reference agent in harness/.",
    "T": "Random traffic over real loopback sockets; thread schedules are those the OS gives.",
}
OVERRIDE_TECH = {
    "C06": "property-based testing against tuples as the reference model",
    "C07": "property-based testing against an RFC 2578 7.7 reference and round trips",
    "C08": "stateful property-based testing against bytes slices as the reference model",
    "C09": "exhaustive small cycles plus generated long runs against a set-based model",
    "C10": "property-based testing: repr/eval round trip and metamorphic equality",
    "T01": "property-based testing against a reference normalizer",
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(HERE, "harness", "checks", pid.lower() + ".py")):
            missing.append({"property": pid,
                            "reason": NOT_APPLICABLE.get(pid, "check not built yet")})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid}",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": OVERRIDE_TECH.get(pid, TECH[pid[0]]),
            "level": "exploration",
            "level_note": NOTES[pid[0]],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks,
                   "not_applicable": missing,
                   "notes": "No hooks in /repo: every check drives the unmodified sources."},
                  f, indent=1)
        f.write("\n")


main()
