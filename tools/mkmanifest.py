"""Writes MANIFEST.json for every property that has a module in vp/props (others: not_applicable until built)."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(home, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing: sign/verify round trip", "C02": "property-based testing: mutation of tokens against an independent verifier",
    "C03": "property-based testing: truth-table model", "C04": "structured fuzzing with a grammar-based header predicate as oracle",
    "C05": "differential testing against an independent pure-Python JWS implementation", "C06": "property-based testing: round trips along generated chains",
    "C07": "property-based testing: disclosure search over generated operation sequences", "C08": "structured fuzzing of key material (refusal oracle)",
    "C09": "model-based testing (list model)", "C10": "property-based testing with generated clocks and time zones", "C11": "differential testing against an independent predicate",
    "C12": "property-based testing: round trip and tampering", "C13": "differential testing against the standard library",
    "C18": "generated schedules and fault injection with an invariant over the history", "C22": "fuzzing of raw HTTP requests (totality oracle)",
    "C26": "differential testing: ASGI against recorded endpoint requests and responses", "C28": "property-based testing: freshness and statistics over generated histories",
    "C29": "property-based testing: generated keys judged independently",
    "C30": "fault injection at generated points, compared with fresh replicas", "C31": "metamorphic testing: generated respellings of requests",
    "C32": "stateful testing of operation sequences over shared objects against a reference", "C34": "model-based and differential testing of generated application grants", "C35": "fault injection: generated application errors judged by the statement", "C33": "differential testing against a replica without extensions",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(home, "vp", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid}", "thorough_cmd": f"bin/check {pid} --tier thorough",
                       "technique": TECH.get(pid, "stateful model-based testing of generated OAuth histories"), "level": "exploration",
                       "level_note": "Randomised search with shrinking (Hypothesis) against the explicit oracle named in DESIGN.md; no proof beyond the cases run."})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(home, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(home, "MANIFEST.json"), "a").write("\n")
