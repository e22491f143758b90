"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: container histories in lock step with a set model",
 "C02": "runtime monitor: resource listings audited after every step of random histories",
 "C03": "runtime monitor: role listings and counts audited after every step of random histories",
 "C04": "runtime monitor: pattern answers compared with filtering the recorded content",
 "C05": "runtime monitor: multi-valued pattern answers compared with filtering the recorded content",
 "C06": "runtime monitor: conservation check on extraction and graph removal, abandoned at random points",
 "C07": "runtime monitor: differential audit of containers built along every path, and of clones",
 "C08": "runtime monitor: reported bijections checked against the statements of both datasets",
 "C09": "runtime monitor: verdicts compared with trying every bijection, and with renamed copies",
 "C10": "runtime monitor: patterns evaluated on every statement of a small universe before and after conversion",
 "C11": "runtime monitor: pattern setters evaluated on every triple of a small universe",
 "C12": "runtime monitor: pattern map lookups compared with a list of pattern/value pairs",
 "C13": "runtime monitor: every constructor compared with the transcribed grammar on every code point and hostile strings",
 "C14": "runtime monitor: displayed text read back by an independent N-Quads parser",
 "C15": "runtime monitor: pairwise comparison and hashing laws over pools of near-equal values",
 "C16": "runtime monitor: denotation traced through random chains of conversions",
 "C17": "runtime monitor: serialization round trips and hostile input to every deserializer",
 "C18": "runtime monitor: online checker of the generated sequence, exhaustion injected, debug and release builds",
 "C19": "runtime monitor: interpretation histories in lock step with a table model and call recorder",
 "C20": "sanitizers and monitors: Miri, AddressSanitizer, drop and allocation accounting with injected panics",
 "C21": "runtime monitor: comparison, hash and output of containers with known contents and different histories",
 "C22": "runtime monitor: derived queries compared with enumerating the recorded content",
 "C23": "runtime monitor: macro expansions compared with the statements they spell",
 "C24": "race detection and monitors: ThreadSanitizer, Miri schedules, readers compared with a single-threaded one",
 "C25": "runtime monitor: component operations on tagged components compared with tuples",
 "C26": "runtime monitor: drawn UUIDs compared with digests computed from their definitions, and checked for repetition",
 "C27": "runtime monitor: comparisons of resources metered through counting resources, operation by operation",
}
N = {
 "C20": "Holds on the executions observed: Miri interprets reduced workloads of every part of the library, AddressSanitizer and the accounting of drops and allocations watch much larger ones. Trusts Miri, LLVM's sanitizers and the workloads' reach.",
 "C24": "Holds on the schedules observed (native threads under ThreadSanitizer, Miri's seeded scheduler). The Send/Sync part is decided by the type checker for all schedules.",
}
DEFAULT = "Holds on every case observed, drawn at random (and enumerated where the space is small) from the seed; evidence lists how many distinct situations were seen. Trusts the reference model and oracle in /verif/harness."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = os.environ.get("CLAIMED")
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} quick",
        "thorough_cmd": f"python3 run.py {i} thorough",
        "technique": T[i],
        "level": "exploration",
        "level_note": N.get(i, DEFAULT),
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every check goes through the public interface, in crates with a path dependency on /repo. /repo carries repairs (fix: commits) of the defects listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
