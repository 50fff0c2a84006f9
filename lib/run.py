#!/usr/bin/env python3
"""One check: `run.py <property> [quick|thorough]`.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is
broken, and the counterexample was replayed on the natively compiled crate. Anything
else is an error of the check.
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import plans

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def case_line(harness, cfg, hexin):
    return "%s %s %s" % (harness, ",".join(map(str, cfg)) or "-", hexin or "-")


def replay_batch(binary, lines, work, timeout):
    """Runs many cases; returns the list of verdict strings (possibly shorter)."""
    f = os.path.join(work, "cases")
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([binary, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits)
        return p.stdout.decode(errors="replace").splitlines()
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace").splitlines()


def replay_one(binary, line, work, timeout=20):
    f = os.path.join(work, "case")
    with open(f, "w") as h:
        h.write(line + "\n")
    try:
        p = subprocess.run([binary, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "hang: no answer within %d s" % timeout
    out = p.stdout.decode(errors="replace").splitlines()
    if p.returncode != 0:
        return "crash: exit %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-200:].replace("\n", " "))
    return out[0] if out else "crash: no output"


def bad(v):
    return v.startswith(("fail", "panic", "crash", "hang"))


def instructions(binary, line, work, timeout=60, region=None):
    """Machine instructions of a native run (of the calls of one function in it), counted by callgrind."""
    f = os.path.join(work, "vcase")
    with open(f, "w") as h:
        h.write(line + "\n")
    try:
        p = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null"] + (["--toggle-collect=" + region] if region else []) + [binary, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"Collected\s*:\s*(\d+)", p.stderr.decode(errors="replace"))
    return int(m.group(1)) if m else 0


def amplify(harness, hexin):
    """Larger header numbers of the same shape: a count that costs steps costs more."""
    b = bytearray.fromhex(hexin)
    dig = [i for i, x in enumerate(b) if 0x30 <= x <= 0x39]
    yield bytes(b).hex()
    for sel in (dig[: len(dig) // 2], dig[len(dig) // 2 :], dig):
        c = bytearray(b)
        for i in sel:
            c[i] = 0x39
        yield bytes(c).hex()
    for i in dig:
        c = bytearray(b)
        c[i] = 0x39
        yield bytes(c).hex()


def confirm(cand, binaries, work):
    """Replays a counterexample natively; returns (line, {profile: verdict}) or None."""
    line = case_line(cand["harness"], cand["cfg"], cand["inputs"])
    got = {}
    for prof, b in binaries:
        got[prof] = replay_one(b, line, work, 20 if prof == "dev" else 60)
    # a debug build that is slow proves nothing
    if any(bad(v) and not (p == "dev" and v.startswith("hang")) for p, v in got.items()):
        return line, got
    if cand["harness"] == "h_work" and cand["kind"] != "limit":
        # the steps assertion: count the machine instructions of the release build
        rel = dict(binaries)["release"]
        base = instructions(rel, "none - -", work)
        per = cand["cfg"][1]
        for hx in amplify(cand["harness"], cand["inputs"]):
            l = case_line(cand["harness"], cand["cfg"], hx)
            v = replay_one(rel, l, work)
            if bad(v):
                return l, {"release": v}
            n = instructions(rel, l, work)
            size = text_size(l, rel, work)
            if n is None:
                return l, {"release": "hang: more than 60 s under callgrind"}
            if n - base > per * size + 40000:
                return l, {"release": "fail 1 (%d machine instructions for %d bytes of input; bound %d)" % (n - base, size, per * size + 40000)}
    if cand["harness"].startswith("h_cost"):
        rel = dict(binaries)["release"]
        n = instructions(rel, line, work, 120, "cost_region")
        lim = [int(l.split()[1]) for l in show(rel, line, work).splitlines() if l.startswith("limit ")]
        if n is None:
            return line, {"release": "hang: more than 120 s under callgrind"}
        if lim and n > lim[0]:
            return line, {"release": "fail 1 (%d machine instructions; bound %d)" % (n, lim[0])}
    return None


def show(binary, line, work):
    f = os.path.join(work, "scase")
    with open(f, "w") as h:
        h.write(line + "\n")
    return subprocess.run([binary, f, "show"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, preexec_fn=limits).stdout.decode(errors="replace")


def text_size(line, binary, work):
    n = 0
    for l in show(binary, line, work).splitlines():
        if l.startswith("text "):
            n += len(l) - 7
    return n


def known_findings(prop):
    """Lines `known: property=<id> harness=<h> code=<n> <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) code=(\S+) inputs=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), code=m.group(3), inputs=m.group(4), what=m.group(5)))
    return out


def cross_check(dumps, work, secs=20):
    """Puts dumped queries to two other solvers; returns counts and disagreements."""
    res = dict(queries=0, z3_new=0, cvc5=0, unknown=0, disagreements=0)
    for text, sat in dumps:
        f = os.path.join(work, "q.smt2")
        with open(f, "w") as h:
            h.write("(set-logic QF_ABV)\n" + text)
        res["queries"] += 1
        for name, cmd in (("z3_new", ["z3-new", "-T:%d" % secs, f]), ("cvc5", ["cvc5", "--tlimit=%d" % (secs * 1000), f])):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 10)
            except (subprocess.TimeoutExpired, FileNotFoundError):
                res["unknown"] += 1
                continue
            o = p.stdout.decode(errors="replace")
            first = o.strip().split("\n")[0].strip() if o.strip() else ""
            if "(error" in o or first not in ("sat", "unsat"):
                res["unknown"] += 1
            elif (first == "sat") != bool(sat):
                res["disagreements"] += 1
            else:
                res[name] += 1
    return res


def short(t, n=4000):
    return t if len(t) <= n else "%s ... (%d characters) ... %s" % (t[:n // 2], len(t) - n // 2 * 2, t[-(n // 2):])


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, prop + ".json")
    with open(f + ".tmp", "w") as h:
        json.dump(ev, h, indent=1)
    os.replace(f + ".tmp", f)


def demangle(n):
    """Readable part of a mangled Rust name."""
    parts = re.findall(r"(\d+)([A-Za-z_][A-Za-z0-9_]*)", n)
    out = []
    for k, s in parts:
        out.append(s[: int(k)])
    return "::".join(x for x in out if x) or n


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    run_dir = os.path.join(VERIF, "build", "run")
    os.makedirs(run_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=run_dir)
    try:
        return check(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, work):
    try:
        engine, ir, natives, tb = build.all_parallel()
    except build.BuildError as e:
        print("check error: %s" % e)
        return 2
    binaries = (("dev", natives[0]), ("release", natives[1]))
    jobs = plans.plan(prop, tier)
    prm = plans.params(prop, tier)
    with open(os.path.join(work, "plan"), "w") as h:
        for j in jobs:
            h.write(j.line() + "\n")
    outf = os.path.join(work, "out.json")
    cmd = [engine, "--ll", os.path.join(ir, "opt.ll"), "--plan", os.path.join(work, "plan"), "--out", outf, "--seed", str(seed)]
    for k, v in prm.items():
        cmd += ["--" + k, str(v)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=prm["budget"] + 120, env=dict(os.environ, VERIF_TIER=tier))
    except subprocess.TimeoutExpired:
        print("check error: the engine did not end")
        return 2
    if p.returncode != 0 or not os.path.exists(outf):
        print("check error: engine exit %d\n%s" % (p.returncode, p.stdout.decode(errors="replace")[-3000:]))
        return 2
    d = json.load(open(outf))
    te = time.time()

    # ---- counterexamples: only what the native crate confirms
    known = known_findings(prop)
    confirmed, unconfirmed, hangs = None, [], 0
    known_hit = {}
    for i, j in enumerate(d["jobs"]):
        j["index"] = i
        j["trouble"] = list(j["internal"])
        cands = [dict(harness=j["harness"], cfg=j["cfg"], job=j, **v) for v in j["violations"]]
        cands += [dict(harness=j["harness"], cfg=j["cfg"], job=j, code=0, msg=v["kind"], inputs=v["inputs"], kind="limit") for v in j["limit_inputs"]]
        for c in cands:
            if confirmed:
                break
            if c["kind"] == "limit" and (hangs >= 4 or time.time() - te > 240):
                hangs += 1
                continue
            k = next((k for k in known if k["harness"] == c["harness"] and k["code"] == str(c["code"]) and k["inputs"] in ("*", c["inputs"])), None)
            r = confirm(c, binaries, work)
            if r is None:
                if c["kind"] == "limit":
                    hangs += 1
                else:
                    unconfirmed.append(c)
                    j["trouble"].append("counterexample not confirmed natively: code %s %s" % (c["code"], c["inputs"]))
            elif k:
                known_hit[k["what"]] = True
            else:
                confirmed = (c, r)
    for w in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))

    # ---- the engine's paths against the native crate
    lines, want, whose = [], [], []
    for j in d["jobs"]:
        for hx, dg in j["leaves"]:
            lines.append(case_line(j["harness"], j["cfg"], hx))
            want.append(dg)
            whose.append(j)
    mism, validated = [], 0
    if not confirmed and lines:
        for prof, b in binaries:
            got = replay_batch(b, lines, work, 300)
            for i, l in enumerate(lines):
                g = got[i] if i < len(got) else "no answer"
                if g.startswith("ok " + want[i] + " "):
                    if prof == "release":
                        validated += 1
                else:
                    mism.append("%s: %s: native %s, engine ok %s" % (prof, l[:2000], g, want[i]))
                    whose[i]["trouble"].append(mism[-1])

    # ---- other solvers
    xc = cross_check(d["dumps"][: prm.get("dump", 0)], work) if not confirmed else dict(queries=0, disagreements=0)

    # ---- vacuity
    reach = {}
    for j in d["jobs"]:
        for k in j["reach"]:
            reach.setdefault(j["harness"], set()).add(int(k))
    missing = []
    for h, marks in plans.required_reach(jobs).items():
        for m in marks:
            if m not in reach.get(h, set()):
                missing.append("%s:%d" % (h, m))

    # nothing is claimed of a job in which the machinery itself was found wrong
    for j in d["jobs"]:
        j["complete"] = j["complete"] and not j["trouble"]
    trouble = [x for j in d["jobs"] for x in j["trouble"]]
    done = [(j, jj) for j, jj in zip(d["jobs"], jobs) if j["complete"]]
    part = [(j, jj) for j, jj in zip(d["jobs"], jobs) if not j["complete"]]
    S = lambda k: sum(j["stats"][k] for j in d["jobs"])
    unsup = {}
    for j in d["jobs"]:
        for k, v in j["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
    sample_src = [(j, l) for j in d["jobs"] for l in j["leaves"][:1]]
    samples = []
    for j, l in sample_src[: 4] + sample_src[-4:]:
        f = os.path.join(work, "show")
        with open(f, "w") as h:
            h.write(case_line(j["harness"], j["cfg"], l[0]) + "\n")
        try:
            o = subprocess.run([natives[1], f, "show"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, preexec_fn=limits).stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            o = ""
        samples.append(dict(harness=j["harness"], inputs=l[0], digest=l[1], texts=[short(x[5:]) for x in o.splitlines() if x.startswith("text ")]))
    fns = sorted(set(demangle(x) for x in d["functions"]))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=S("paths"),
            transitions=S("events"),
            traces_validated_against_impl=validated,
            samples=samples,
            exhaustive=bool(done) and not part,
            meaning="states = execution paths of the compiled code (each stands for every input that takes it); transitions = symbolic decisions and assertions along them; traces_validated = paths whose model was run on the native crate (release and dev build) with the same observable output",
            bounds=[dict(harness=j["harness"], inputs=jj.describe(), paths=j["stats"]["paths"], seconds_from=j["t0"], seconds_to=j["t1"], unknown=j["unknown"]) for j, jj in done],
            not_completed=[dict(harness=j["harness"], inputs=jj.describe(), started=j["started"], paths=j["stats"]["paths"], pending=j["pending"], unknown=j["unknown"], limits=j["limits"], unsupported=j["unsupported"], machinery=[x[:300] for x in j["trouble"]]) for j, jj in part],
            outside="every input not of one of these shapes",
            functions_encoded=len(d["functions"]),
            functions_of_diffy=[f for f in fns if "diffy" in f],
            ir_instructions_encoded=d["ir_insts_encoded"],
            ir_instructions_executed=S("insts"),
            solver="z3 %s (in process)" % d["z3_version"],
            solver_queries=d["z3_queries"],
            solver_seconds=d["z3_s"],
            solver_unknown=d["z3_unknown"],
            decisions=dict(forks=S("forks"), by_interval_and_equality_domains=S("by_dom"), by_backtracking_over_small_domains=S("by_search"), by_evaluating_the_model=S("by_eval"), by_cache=S("by_cache"), by_z3=S("by_z3"), implied=S("implied")),
            assertions=dict(constant_on_path=S("asserts_const"), implied=S("asserts_implied"), z3=S("asserts_z3")),
            path_certificates_by_z3=S("certified"),
            domain_decisions_audited_by_z3=S("audits"),
            cross_checked=xc,
            reach={h: sorted(v) for h, v in reach.items()},
            build_s=round(tb, 2), engine_s=d["wall_s"],
        ),
        assumptions=plans.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=1 if confirmed else 0,
    )
    write_evidence(prop, ev)
    for j, jj in zip(d["jobs"], jobs):
        print("%-18s %-11s %8d paths  %s" % (j["harness"], "complete" if j["complete"] else "incomplete" if j["started"] else "not started", j["stats"]["paths"], jj.describe()))
    print("%s %s: %d/%d jobs complete, %d paths, %d decisions, %d solver queries (%.1f s), %d paths replayed natively, build %.1f s, engine %.1f s, wall %.1f s" % (
        prop, tier, len(done), len(jobs), S("paths"), S("events"), d["z3_queries"], d["z3_s"], validated, tb, d["wall_s"], time.time() - t0))
    if unsup:
        print("not encoded: %s" % unsup)
    if confirmed:
        c, (line, got) = confirmed
        vd = os.path.join(VERIF, "build", "violations")
        os.makedirs(vd, exist_ok=True)
        f = os.path.join(vd, "%s.case" % prop)
        with open(f, "w") as h:
            h.write(line + "\n")
        o = ""
        try:
            o = subprocess.run([natives[1], f, "show"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, preexec_fn=limits).stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            pass
        print("counterexample: %s" % line)
        for l in o.splitlines():
            print("  " + l[:400])
        print("  engine: %s code %s in %s; native: %s" % (c["kind"], c["code"], c["msg"], got))
        print("  again: python3 lib/run.py --replay %s" % f)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    for x in trouble[:5]:
        print("note: machinery: %s" % x[:600])
    if xc["disagreements"]:
        print("check error: solvers disagree on %d queries" % xc["disagreements"])
        return 3
    if not done and trouble:
        print("check error: no job without trouble")
        return 3
    if not S("paths"):
        print("check error: no path was completed")
        return 2
    if missing and not part:
        print("check error: vacuous, never reached: %s" % missing)
        return 2
    if missing:
        print("note: not reached: %s" % missing)
    if part:
        print("note: %d jobs were not completed and are not claimed" % len(part))
    return 0


def replay_cmd(f):
    _, _, natives, _ = build.all_parallel()
    rc = 0
    for prof, b in zip(("dev", "release"), natives):
        try:
            o = subprocess.run([b, f, "show"], stdout=subprocess.PIPE, timeout=60, preexec_fn=limits).stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            o = "hang\n"
        print("%s:\n%s" % (prof, o))
        if any(bad(l) for l in o.splitlines()):
            rc = 1
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_cmd(sys.argv[2]))
    sys.exit(main())
