#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--repo DIR]: decides one property on /repo's working tree.

1. the property's Verus units are assembled afresh from /repo's source and verified;
2. the same contracts, in executable form, are searched for a failing input on the real crates;
3. the outcome and the evidence are written.  See DESIGN.md, "Deciding"."""
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import PROPS, LEVEL_NOTES  # noqa: E402
from vx.unit import Unit  # noqa: E402
from vx.rustsrc import Lost  # noqa: E402

BUILD = os.path.join(HERE, ".build")
KNOWN = os.path.join(HERE, "known-findings.txt")
VERUS = "verus"
# messages of obligations the verifier tried and could not discharge
OBLIGATION = re.compile(
    r"^error: (postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|"
    r"recommendation not met|failed this|cannot show|unable to prove|assertion not satisfied|"
    r"loop invariant|possible|expression simplifies to false|assert_by_compute|constructed value may fail|could not prove)")
NOISE = re.compile(r"^error: aborting due to")


class UnitRun:
    def __init__(self, name):
        self.name = name
        self.state = None       # verified | failed | undecided
        self.reason = ""
        self.failed = []        # (function, source path, message, excerpt)
        self.verified = self.errors = 0
        self.fns, self.items, self.rw = [], [], {}
        self.smt_ms = 0
        self.wall = 0.0
        self.trusted = []
        self.vacuous = []
        self.vac_checked = 0
        self.output = ""
        self.cmd = ""
        self.src_hash = ""


def verus(path, extra=(), limit=300):
    cmd = [VERUS, "--triggers-mode", "silent", "--multiple-errors", "8", "--output-json", "--time",
           "--num-threads", "8", *extra, path]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out, err = "", "error: verifier timeout"
    return cmd, out, err, time.time() - t


def locate(text):
    """line number -> lifted function it belongs to"""
    where, cur = {}, None
    for n, ln in enumerate(text.split("\n"), 1):
        m = re.match(r"// <<fn (\S+) (.+)>>", ln)
        if m:
            cur = (m.group(2), m.group(1))
        elif ln.startswith("// <<>>"):
            cur = None
        where[n] = cur
    return where


def split_errors(err):
    out, cur = [], None
    for ln in err.split("\n"):
        if re.match(r"^(error|warning|note)(\[|:)", ln):
            cur = [ln]
            out.append(cur)
        elif cur is not None:
            cur.append(ln)
    return ["\n".join(e) for e in out if e[0].startswith("error")]


def scan_trusted(text):
    """mechanical scan for everything the verifier takes on trust"""
    out = []
    lines = text.split("\n")
    for n, ln in enumerate(lines):
        code = ln.split("//")[0] if "// <<" not in ln else ""
        if re.search(r"\bassume\s*\(|\badmit\s*\(\)", code):
            out.append("assume: " + code.strip()[:160])
        if "external_body" in code or "assume_specification" in code or "#[verifier::external" in code or "axiom fn" in code:
            seg = " ".join(x.strip() for x in lines[n:n + 3])
            m = re.search(r"(?:fn|struct|for)\s+([\w:<>\[\]]+)", seg.split("]", 1)[-1]) or re.search(r"\[([^\]]+)\]\(", seg)
            out.append("trusted body/contract: " + (m.group(1) if m else seg[:100]))
        if re.search(r"\buninterp spec fn", code):
            m = re.search(r"fn\s+(\w+)", code)
            out.append("uninterpreted: " + (m.group(1) if m else code.strip()))
    m = re.findall(r"pub trait (\w+): (?:\w+ \+ )*Stream", text)
    if m:
        out.append("assumed std::io / byteorder contracts of traits: " + ", ".join(m))
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def run_unit(name, repo, vac=True):
    r = UnitRun(name)
    t0 = time.time()
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    try:
        u = Unit(name, repo)
        text = u.build()
    except Lost as e:
        r.state, r.reason = "undecided", f"anchor lost: {e}"
        r.wall = time.time() - t0
        return r
    except Exception as e:  # malformed source counts as undecided too
        r.state, r.reason = "undecided", f"extraction failed: {type(e).__name__}: {e}"
        r.wall = time.time() - t0
        return r
    r.fns, r.items, r.rw = u.fns, u.items, {k: v for k, v in u.rw_used.items() if v}
    r.src_hash = u.hash.hexdigest()[:16]
    r.trusted = scan_trusted(text)
    path = os.path.join(d, f"{name}.rs")
    open(path, "w").write(text)
    vt = None
    if vac:
        vr = {}

        def dovac():
            try:
                vtext = Unit(name, repo).build(vacuity=True)
                vp = os.path.join(d, f"{name}_vac.rs")
                open(vp, "w").write(vtext)
                vr["r"] = verus(vp, ["--multiple-errors", "1"])
                vr["text"] = vtext
            except Exception as e:
                vr["err"] = str(e)
        vt = threading.Thread(target=dovac)
        vt.start()
    cmd, out, err, wall = verus(path)
    res = parse(out)
    errs = [e for e in split_errors(err) if not NOISE.match(e)]
    if (res is None or errs) and (not errs or any("rlimit" in e.lower() or "resource limit" in e.lower() for e in errs)
                                  or all(OBLIGATION.match(e) for e in errs)):
        # once more with a larger budget before believing a failure
        cmd2, out2, err2, wall2 = verus(path, ["--rlimit", "60"], max(60, 480 - (time.time() - t0)))
        res2 = parse(out2)
        if res2 is not None:
            cmd, out, err, res = cmd2, out2, err2, res2
            errs = [e for e in split_errors(err) if not NOISE.match(e)]
        wall += wall2
    r.cmd = " ".join(cmd)
    r.output = err[-20000:]
    if vt:
        vt.join()
        if "r" in vr:
            where = locate(vr["text"])
            vlines = vr["text"].split("\n")
            hit = set()
            for e in split_errors(vr["r"][2]):
                m = re.search(r"--> \S+?:(\d+):", e)
                if m and "assertion failed" in e and where.get(int(m.group(1))):
                    hit.add(where[int(m.group(1))])
            allv = [where[n] for n, ln in enumerate(vlines, 1) if "// VACUITY" in ln]
            r.vac_checked = len(allv)
            if hit:
                r.vacuous = [w[0] for w in allv if w not in hit]
    r.wall = time.time() - t0
    if res is None:
        r.state, r.reason = "undecided", "verifier gave no result: " + (errs[0][:600] if errs else err[-600:])
        return r
    r.verified, r.errors, r.smt_ms = res
    if not errs and r.errors == 0 and r.verified > 0:
        r.state = "verified"
        return r
    where = locate(text)
    soft = [e for e in errs if not OBLIGATION.match(e)]
    hard = [e for e in errs if OBLIGATION.match(e)]
    for e in hard:
        fn = None
        for m in re.finditer(r"(?:-->|:::) \S+?:(\d+):", e):
            fn = where.get(int(m.group(1)))
            if fn:
                break
        msg = e.split("\n")[0][len("error: "):]
        r.failed.append((fn[0] if fn else "(lemma)", fn[1] if fn else "", msg, e[:1500]))
    if r.failed and not [e for e in soft if "rlimit" not in e.lower() and "resource limit" not in e.lower()]:
        r.state = "failed"
    else:
        r.state, r.reason = "undecided", (soft[0][:800] if soft else "no result")
    return r


def parse(out):
    try:
        j = json.loads(out)
        v = j["verification-results"]
        if v.get("encountered-vir-error"):
            return None
        if "verified" not in v:
            return None
        smt = 0
        try:
            smt = j["times-ms"]["smt"]["smt-run"]
        except Exception:
            pass
        return v["verified"], v["errors"], smt
    except Exception:
        return None


class Harness:
    def __init__(self, pid, repo):
        self.pid, self.repo = pid, repo
        self.bin = None
        self.err = ""
        self.build_s = 0.0

    def build(self):
        t = time.time()
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
        env.pop("RUSTFLAGS", None)
        try:
            p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env,
                               capture_output=True, text=True, timeout=500)
            if p.returncode == 0:
                self.bin = os.path.join(BUILD, "target/debug/vh")
            else:
                self.err = p.stderr[-1500:]
        except subprocess.TimeoutExpired:
            self.err = "build timeout"
        self.build_s = time.time() - t

    def run(self, seed, secs, out, extra=()):
        p = subprocess.run([self.bin, "run", self.pid, "--seed", str(seed), "--secs", str(secs), "--out", out,
                            "--threads", "8", *extra], capture_output=True, text=True, timeout=secs + 200)
        return p.returncode, p.stdout

    def kinds(self):
        return subprocess.run([self.bin, "list", self.pid], capture_output=True, text=True).stdout.split()


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(\S+) match=/(.*)/ :: (.*)$", ln.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    repo = "/repo"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", "replay", f"{pid}.txt")
    if os.path.exists(rep):
        os.remove(rep)

    units = {}
    h = Harness(pid, repo)
    ths = [threading.Thread(target=lambda n=n: units.__setitem__(n, run_unit(n, repo))) for n in cfg["units"]]
    hb = threading.Thread(target=h.build)
    for t in [hb, *ths]:
        t.start()
    for t in [hb, *ths]:
        t.join()

    rel = cfg.get("fns")
    failed, undecided, proved = [], [], []
    for n in cfg["units"]:
        r = units[n]
        if r.state == "failed":
            mine = [f for f in r.failed if not rel or f[0] == "(lemma)" or any(re.fullmatch(x, f[0]) for x in rel)]
            if mine:
                failed += [(n, *f) for f in mine]
            else:
                proved.append(n)
        elif r.state == "undecided":
            undecided.append((n, r.reason))
        else:
            proved.append(n)

    secs = cfg.get("secs", 8) if tier == "quick" else cfg.get("thorough_secs", 240)
    if failed or undecided:
        secs = max(secs, 60 if tier == "quick" else 240)
    explored, kinds_run, concrete, kf_lines = 0, [], None, []
    hstate, distinct, samples = "not built", 0, []
    if h.bin:
        kfs = known_findings(pid)
        all_kinds = h.kinds()
        skip = ",".join(sorted({k for k, _, _ in kfs} | {k for k in all_kinds if k.startswith("known_")}))
        for k in [k for k in all_kinds if k.startswith("known_")]:
            rc, out = h.run(seed, 0, rep, ["--only", k])
            m = re.search(r"^FAIL case=(\S+) seed=\d+: (.*)$", out, re.M)
            if m:
                d = [x for x in kfs if x[0] == k and x[1].search(m.group(2))]
                if d:
                    kf_lines.append(f"KNOWN-FINDING: property={pid} {d[0][2]}")
                else:
                    concrete = m.group(0)
        if concrete is None:
            rc, out = h.run(seed, secs, rep, ["--skip", skip] if skip else [])
            m = re.search(r"^EXPLORED cases=(\d+)", out, re.M)
            explored = int(m.group(1)) if m else 0
            m = re.search(r"^DISTINCT (\d+)", out, re.M)
            distinct = int(m.group(1)) if m else 0
            m = re.search(r"^SAMPLES (.*)$", out, re.M)
            samples = [dict(zip(("kind", "case_seed", "choices"), x.split(":"))) for x in m.group(1).split(",")] if m else []
            m = re.search(r"^KINDS (.*)$", out, re.M)
            kinds_run = m.group(1).split(",") if m else []
            m = re.search(r"^FAIL (.*)$", out, re.M)
            if m:
                concrete = m.group(0)
                if not os.path.exists(rep):
                    open(rep, "w").write(out)
            elif rc != 0:
                if rc < 0 or rc in (134, 139):
                    # stack overflow / abort inside the code under test: find the case
                    rc2, out2 = h.run(seed, secs, rep, (["--skip", skip] if skip else []) + ["--threads", "1", "--trace"])
                    open(rep, "w").write(f"property: {pid}\nprocess died with {rc}\n{out2[-2000:]}\n")
                    concrete = f"FAIL process died with {rc}"
                else:
                    hstate = f"error {rc}"
            if hstate == "not built":
                hstate = "ran"
        else:
            hstate = "ran"
    else:
        hstate = "build failed: " + h.err[-300:]

    wall = time.time() - t0
    # ---------------------------------------------------------------- evidence
    tot_v = sum(units[n].verified for n in cfg["units"])
    tot_e = sum(units[n].errors for n in cfg["units"])
    fns = [f"{p}::{q}" for n in cfg["units"] for q, p in units[n].fns]
    trusted = sorted({x for n in cfg["units"] for x in units[n].trusted})
    cov = {
        "obligations": tot_v + tot_e,
        "discharged": tot_v,
        "checker_cmd": "; ".join(units[n].cmd for n in cfg["units"]),
        "trusted_base": trusted + cfg.get("trusted", []),
        "backend": "Verus 0.2026.09.13 / its bundled Z3",
        "functions_under_contract": fns,
        "types_lifted": sorted({i for n in cfg["units"] for i in units[n].items}),
        "source_hash": {n: units[n].src_hash for n in cfg["units"]},
        "units": {n: {"state": units[n].state, "reason": units[n].reason, "verified": units[n].verified,
                      "errors": units[n].errors, "smt_ms": units[n].smt_ms, "wall_s": round(units[n].wall, 1),
                      "rewrites_applied": units[n].rw,
                      "reachability_probes": units[n].vac_checked,
                      "unreachable_bodies": units[n].vacuous} for n in cfg["units"]},
        "solver_ms": sum(units[n].smt_ms for n in cfg["units"]),
        "evaluations": explored,
        "distinct_nontrivial": distinct,
        "rule": "bounded, never counted as proved: the contracts as run-time oracles on the real crates; a case is "
                "non-trivial when it made at least 3 random choices and distinct when the fingerprint of its choices is new; kinds: " + ", ".join(kinds_run),
        "samples": samples,
        "harness": {"state": hstate, "build_s": round(h.build_s, 1), "secs": secs},
        "bounded_standins": cfg.get("bounded", []),
        "undecided_units": [f"{n}: {why}" for n, why in undecided],
        "known_findings": kf_lines,
    }
    level = cfg["level"]
    viol = 1 if (concrete or failed) else 0
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": viol}
    if level == "other":
        cov["explanation"] = LEVEL_NOTES.get(pid, "")
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)

    # ---------------------------------------------------------------- outcome
    for ln in kf_lines:
        print(ln)
    for n in cfg["units"]:
        r = units[n]
        print(f"unit {n}: {r.state} verified={r.verified} errors={r.errors} smt={r.smt_ms}ms wall={r.wall:.1f}s"
              + (f" unreachable={r.vacuous}" if r.vacuous else "") + (f" ({r.reason[:300]})" if r.reason else ""))
    print(f"harness: {hstate} cases={explored} secs={secs} build={h.build_s:.0f}s")
    for n, fn, p, msg, _ in failed:
        print(f"failed obligation: {n}: {fn} {p}: {msg}")
    if concrete:
        if failed:
            with open(rep, "a") as f:
                for n, fn, p, msg, ex in failed:
                    f.write(f"failed obligation: unit {n}, {fn} ({p}): {msg}\n{ex}\n")
        print(concrete)
        print(f"VIOLATION property={pid} replay={rep}")
        sys.exit(1)
    if failed:
        with open(rep, "w") as f:
            f.write(f"property: {pid}\nno failing input found in {explored} executed cases\n")
            for n, fn, p, msg, ex in failed:
                f.write(f"failed obligation: unit {n}, {fn} ({p}): {msg}\n{ex}\n")
            for n in {x[0] for x in failed}:
                f.write(f"---- verifier output, {units[n].cmd}\n{units[n].output}\n")
        print(f"VIOLATION property={pid} replay={rep} no-failing-input-found")
        sys.exit(1)
    if any(units[n].vacuous for n in proved):
        print("vacuous contracts: machinery error")
        sys.exit(2)
    if hstate != "ran" and (undecided or not cfg["units"]):
        print("neither the proof nor the executed contracts gave an answer")
        sys.exit(2)
    if undecided:
        print(f"undecided by proof; held on {explored} executed cases (bounded)")
    sys.exit(0)


main()
