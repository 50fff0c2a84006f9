"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(root + "/properties.jsonl")]
TECH = "symbolic execution of the crate's LLVM IR (all paths within stated input shapes), assertions decided by Z3, counterexamples replayed natively"
NOTE = ("Bounded: every path of the compiled code for the input shapes listed in the evidence file (lib/plans.py), up to the stated sizes; "
        "nothing is claimed about larger or otherwise shaped inputs. Trusts the symbolic engine in engine/ (audited by raw Z3 certificates, by a second and third solver on a sample of queries, "
        "and by replaying a sample of paths on native dev and release builds), rustc's IR generation and Z3; SipHash is replaced by a constant.")
EXTRA = {
    "C04": " The oracle is a quadratic longest-common-subsequence computation in the harness, executed on the same symbolic input.",
    "C17": " The writer is a model in the harness whose failing call and short-write length are symbolic.",
    "C22": " Hash seeds are modelled by replacing the hasher: one constant for all keys in one run, a content-dependent hash in the other.",
    "C24": " Steps are executed IR instructions and heap bytes along each path against stated constants; a path that exceeds them is confirmed natively with callgrind.",
    "C19": " Steps are executed IR instructions and heap bytes along each path, compared with a linear bound in the input size; a path that exceeds it is confirmed natively with callgrind.",
}
man = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py",
    "checks": [{"property": p["id"], "quick_cmd": "python3 lib/run.py %s quick" % p["id"], "thorough_cmd": "python3 lib/run.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": NOTE + EXTRA.get(p["id"], "")} for p in ps],
    "not_applicable": [],
    "notes": "No hooks in /repo: the harnesses use the public API only. Known and repaired findings: known_findings.txt. Design, bounds and seeded bugs: DESIGN.md.",
}
open(root + "/MANIFEST.json", "w").write(json.dumps(man, indent=1) + "\n")
print(len(ps), "checks")
