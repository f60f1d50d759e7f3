"""Writes MANIFEST.json from the properties and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing against exhaustive enumeration and a reference dynamic program",
    "C02": "property-based testing against exhaustive enumeration",
    "C03": "property-based testing against exhaustive enumeration and a reference dynamic program",
    "C04": "property-based testing against exhaustive enumeration and a reference dynamic program",
    "C05": "property-based testing against exhaustive enumeration and a reference k-best program",
    "C06": "property-based testing against exhaustive enumeration and algebraic identities",
    "C07": "property-based testing: legality of every sample, exact binomial frequency tests",
    "C08": "metamorphic property-based testing: crop, re-pad, permute the batch",
    "C09": "property-based testing against exhaustive enumeration",
    "C10": "round-trip property-based testing over random structures",
    "C11": "property-based testing against a path-by-path reference",
    "C12": "property-based testing against exhaustive enumeration with interval oracle",
    "C13": "property-based testing of algebraic laws against numpy folds",
    "C14": "differential property-based testing: wrapped against plain semiring",
    "C15": "differential property-based testing: autograd through the enumerated definition",
    "C16": "property-based testing against a direct projection and finite differences",
    "C17": "stateful property-based testing: query histories over several live models",
    "C18": "property-based testing against a step-by-step reference model",
    "C19": "property-based testing against reference greedy and beam searches",
    "C20": "property-based testing with exact binomial frequency tests",
    "C21": "property-based testing over random labelled trees, round trips",
    "C22": "property-based testing: legality, exact sums, exact binomial frequency tests",
    "C23": "fault-injection property-based testing: one broken precondition per case",
    "C24": "metamorphic property-based testing over model transformations",
    "C26": "differential property-based testing: validation on against off, and broken values",
}
NA = {
    "C25": "The alignment model needs the genbmm GPU extension, which is not installed and cannot be built here: "
    "every query of it raises before any value is computed, so there is nothing to generate inputs for.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in NA:
            continue
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh " + i,
            "thorough_cmd": "bash run.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "generated inputs within the bounds in DESIGN.md, judged by an independent oracle; "
            "the thorough tier generates many more cases of the same kind",
        })
    out = {
        "version": 1,
        "setup_cmd": "bash run.sh selftest",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "Checks import the library from /repo's working tree (pure Python, nothing to build). "
        "A failure is shrunk and written under replays/; 'bash run.sh replay FILE' reruns it.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
