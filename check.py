#!/usr/bin/env python3
"""check.py PROP   decide one property (see DESIGN.md, "How a check decides")
check.py --setup   build the tools
check.py --baseline  rewrite baseline.json from the current /repo (a development command)
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(HERE, "work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", PYO3_PYTHON="/usr/bin/python3", RUST_BACKTRACE="0")
CFG = json.load(open(os.path.join(HERE, "props.json")))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
BUDGET = 780 if TIER == "quick" else 840

# messages of the verifier that state a failed obligation (anything else is a
# construct it does not accept, and says nothing about the property)
OBL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|"
                 r"invariant not satisfied|loop invariant|possible arithmetic|possible division|decreases not satisfied|"
                 r"could not prove termination|possible bit shift|unreachable|requires not satisfied|"
                 r"unable to prove|not satisfied|might not|cannot show|could not show|constructed value may fail")


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=ENV, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def left():
    return BUDGET - (time.time() - T0)


# ------------------------------------------------------------------ building

def digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work", "evidence"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh(crate, dirs, packages):
    """cargo goes by file times, which a copied or patched tree need not respect: go by content"""
    d = os.path.join(HERE, crate)
    stamp = os.path.join(d, "target", "vp-stamp")
    now = digest([os.path.join(d, "src"), d] + dirs)
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old != now and os.path.isdir(os.path.join(d, "target")):
        if os.path.exists(stamp):
            os.remove(stamp)
        cmd = ["cargo", "clean", "--offline"]
        for p in packages:
            cmd += ["-p", p]
        for extra in ([], ["--release"]):
            run(cmd + extra, 120, cwd=d)
    return stamp, now


def mark(stamp, now):
    with open(stamp, "w") as f:
        f.write(now)


def build_extract():
    stamp, now = fresh("extract", [], ["vpextract"])
    exe = os.path.join(HERE, "extract/target/release/vpextract")
    rc, o, e = run(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(HERE, "extract"))
    if rc == 0:
        mark(stamp, now)
    return exe if rc == 0 else None, (e or "")[-3000:]


def build_replay():
    stamp, now = fresh("replay", [REPO], ["vpreplay", "phlite", "phlite_rips", "phlite_grpph"])
    exe = os.path.join(HERE, "replay/target/debug/vpreplay")
    rc, o, e = run(["cargo", "build", "--offline"], 600, cwd=os.path.join(HERE, "replay"))
    if rc == 0:
        mark(stamp, now)
    return exe if rc == 0 else None, (e or "")[-3000:]


# ------------------------------------------------------------------ the proof

class Proof:
    """One extraction and verification of /repo, with constructs outside the verifier's reach set aside."""

    def __init__(self, prop, modules):
        self.prop, self.modules = prop, modules
        self.dir = os.path.join(WORK, f"{prop}-{os.getpid()}")
        self.lost = {}       # key -> reason
        self.failures = []   # obligations that failed
        self.unknown = []    # resource limits
        self.ok = False      # the verifier ran to the end
        self.note = ""
        self.map = None
        self.queries = []
        self.canary = False
        self.raw = ""
        self.found = threading.Event()  # the bounded part has a failing input
        self.cmd = ""
        self.smt_ms = 0
        self.version = ""

    def fn_at(self, file, line):
        mod = os.path.basename(file)[:-3]
        for f in self.map["functions"]:
            if f["module"] == mod and f["start"] <= line <= f["end"]:
                return f
        return None

    def run(self, exe):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        rlimit, kept = 30, None
        for attempt in range(14):
            lf = os.path.join(self.dir, "lost.tsv")
            with open(lf, "w") as f:
                for k, r in sorted(self.lost.items()):
                    f.write(f"{k}\t{r}\n")
            rc, o, e = run([exe, REPO, os.path.join(HERE, "contracts"), os.path.join(HERE, "verus"), self.dir, lf], 60)
            if rc != 0:
                self.note = f"extraction failed ({rc}): {(e or '')[-800:]}"
                return
            self.map = json.load(open(os.path.join(self.dir, "map.json")))
            for f in self.map["functions"]:
                if f["status"] == "lost" and f["key"] not in self.lost:
                    self.lost[f["key"]] = f["reason"]
            cmd = ["verus", "main.rs", "--output-json", "--time-expanded", "--error-format=json",
                   "--multiple-errors", "4" if kept is None else "1", "--rlimit", str(rlimit), "--num-threads", "8",
                   "--smt-option", "memory_max_size=3000"]
            for m in self.modules:
                cmd += ["--verify-only-module", m]
            self.cmd = "vpextract /repo contracts verus OUT && cd OUT && " + " ".join(cmd)
            rc, o, e = run(cmd, min(360, max(60, left() - 240)), cwd=self.dir)
            died = rc is None or "out of memory" in (e or "") or "solver reader thread failure" in (e or "")
            if died and kept is not None:
                # the second try with more resources did not end: the first one counts
                o, e, rlimit = kept[0], kept[1], 240
                rc = 1
            elif died and rc is not None and rlimit in (30, 10):
                # a query took all the memory: give up on it sooner
                rlimit = 10 if rlimit == 30 else 3
                continue
            self.raw = e
            if rc is None:
                self.note = "the verifier ran out of time"
                return
            try:
                d = json.loads(o[o.index("{"):])
            except (ValueError, json.JSONDecodeError):
                d = None
            diags = []
            for l in (e or "").splitlines():
                if l.startswith("{"):
                    try:
                        x = json.loads(l)
                    except json.JSONDecodeError:
                        continue
                    if x.get("level") == "error" and x.get("spans"):
                        diags.append(x)
            res = (d or {}).get("verification-results", {})
            reached = d is not None and "smt" in d.get("times-ms", {}) and not res.get("encountered-vir-error") and (
                res.get("verified", 0) + res.get("errors", 0) > 0)
            if not reached:
                # constructs the compiler front end or the verifier does not accept
                new = {}
                for x in diags:
                    for s in sorted(x["spans"], key=lambda s: not s["is_primary"]):
                        f = self.fn_at(s["file_name"], s["line_start"])
                        if f and f["status"] in ("verified", "nocontract") and f["key"] not in self.lost:
                            new[f["key"]] = "not accepted by the verifier: " + x["message"][:200]
                            break
                if not new:
                    self.note = "the extracted text is not accepted by the verifier: " + "; ".join(
                        f'{x["message"][:160]} at {x["spans"][0]["file_name"]}:{x["spans"][0]["line_start"]}' for x in diags[:4]) + (
                        "" if diags else (e or "")[-600:])
                    return
                self.lost.update(new)
                continue
            # verification ran
            self.failures, self.unknown, self.canary = [], [], False
            again = {}
            for x in diags:
                prim = [s for s in x["spans"] if s["is_primary"]] or x["spans"]
                if any(s["file_name"].endswith("canary.rs") for s in x["spans"]):
                    self.canary = True
                    continue
                f = None
                for s in prim + x["spans"]:
                    f = self.fn_at(s["file_name"], s["line_start"])
                    if f and f["status"] != "declaration":
                        break
                if "esource limit" in x["message"] or "rlimit" in x["message"]:
                    self.unknown.append((f["key"] if f else None, x["message"]))
                    continue
                if "aborting due to" in x["message"]:
                    continue
                if f and f["status"] == "nocontract":
                    again[f["key"]] = "no contract (a function the contracts do not know)"
                    continue
                if not OBL.search(x["message"]):
                    if f:
                        again[f["key"]] = "verifier: " + x["message"][:200]
                        continue
                what = x["message"]
                spot = [f'{s["file_name"]}:{s["line_start"]}: ' + " ".join(t["text"].strip() for t in s["text"][:3]) + (f'  [{s["label"]}]' if s.get("label") else "") for s in x["spans"]]
                self.failures.append({"fn": f["key"] if f else None, "module": os.path.basename(prim[0]["file_name"])[:-3],
                                      "src": f'{f["src"]}:{f["src_line"]}' if f else None, "obligation": what, "at": spot,
                                      "rendered": x.get("rendered", "")[:2500]})
            if again:
                self.lost.update(again)
                continue
            if self.unknown and rlimit == 30 and not self.found.is_set():
                rlimit, kept = 240, (o, e)
                continue
            for k, m in self.unknown:
                if k:
                    self.lost[k] = m
            smt = d["times-ms"]["smt"]
            self.smt_ms = smt.get("smt-run", 0)
            self.queries = []
            for b in smt.get("smt-run-module-times", []):
                for q in b.get("function-breakdown", []):
                    self.queries.append((b["module"], q["function"], bool(q["success"]), q["time-micros"]))
            self.version = str(d.get("verus", {}).get("version", ""))
            self.ok = True
            return
        self.note = "too many functions outside the verifier's reach"

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def trusted_scan(d, modules, libs):
    """every assumption in the verified text, found mechanically"""
    out = []
    for m in sorted(set(modules) | set(libs)):
        p = os.path.join(d, m + ".rs")
        if not os.path.exists(p):
            continue
        ls = open(p).read().splitlines()
        for i, l in enumerate(ls):
            c = l.split("//")[0]
            if "external_body" in c or "assume_specification" in c or re.search(r"\baxiom fn\b", c) or re.search(r"\b(assume|admit)\s*\(", c) or "external_type_specification" in c or "exec_allows_no_decreases" in c:
                if "fn " in c or "struct " in c:
                    t = c.strip()
                else:
                    t = next((x.strip() for x in ls[i + 1:i + 6] if "fn " in x or "struct " in x), c.strip())
                t = re.sub(r"\s+", " ", t)[:150]
                kind = "axiom" if "axiom fn" in c else "external_body" if "external_body" in c else c.strip().split("(")[0][:30]
                out.append(f"{m}: {kind}: {t}")
    return out


# ------------------------------------------------------------------ the bounded part

def replay(exe, prop, seed, ms, tag):
    out = os.path.join(WORK, f"{prop}-{os.getpid()}-{tag}.json")
    for f in (out, out + ".case"):
        if os.path.exists(f):
            os.remove(f)
    cmd = ["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", exe, prop, "--seed", str(seed), "--ms", str(ms), "--out", out]
    rc, o, e = run(cmd, ms / 1000 + 90)
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except json.JSONDecodeError:
            r = None
    if r is None:
        case = None
        if os.path.exists(out + ".case"):
            try:
                case = int(open(out + ".case").read().strip() or "x")
            except ValueError:
                case = None
        if rc is not None and rc not in (0, 1, 2) and case is not None:
            r = {"property": prop, "seed": seed, "evaluations": case, "distinct_nontrivial": 0, "rule": "", "samples": [], "wall_ms": ms,
                 "violation": {"case": case, "seed": seed, "what": f"the process is ended by the library (exit status {rc}: abort, stack overflow or memory exhausted; 8 GB allowed): {(e or '')[-300:]}",
                               "rerun": f"vpreplay {prop} --seed {seed} --case {case}"}}
        else:
            r = {"property": prop, "seed": seed, "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "wall_ms": ms, "violation": None, "error": f"rc {rc}: {(e or '')[-300:]}"}
    for f in (out, out + ".case"):
        if os.path.exists(f):
            os.remove(f)
    return r


def confirm(exe, prop, v):
    """a violation counts when the same case fails again"""
    out = os.path.join(WORK, f"{prop}-{os.getpid()}-confirm.json")
    cmd = ["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", exe, prop, "--seed", str(v["seed"]), "--case", str(v["case"]), "--out", out]
    rc, o, e = run(cmd, 100)
    if os.path.exists(out):
        os.remove(out)
    if os.path.exists(out + ".case"):
        os.remove(out + ".case")
    return rc is None or rc not in (0, 2)


def search(exe, prop, secs, tag, jobs, seed0, found=None):
    rs = []
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(replay, exe, prop, seed0 + 1000003 * i, int(secs * 1000), f"{tag}{i}") for i in range(jobs)]
        for f in fs:
            rs.append(f.result())
    for r in rs:
        if r["violation"] and confirm(exe, prop, r["violation"]):
            if found is not None:
                found.set()
            return rs, r["violation"]
    return rs, None


# ------------------------------------------------------------------ main

def setup():
    os.makedirs(WORK, exist_ok=True)
    a, e1 = build_extract()
    b, e2 = build_replay()
    if not a:
        log(e1)
    if not b:
        log(e2)
    sys.exit(0 if a and b else 1)


def baseline():
    exe, e = build_extract()
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "baseline")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, o, e = run([exe, REPO, os.path.join(HERE, "contracts"), os.path.join(HERE, "verus"), out], 60)
    m = json.load(open(os.path.join(out, "map.json")))
    b = {f["key"]: {"shape": f["shape"], "calls": f["calls"], "hash": f["hash"]} for f in m["functions"]}
    json.dump(b, open(os.path.join(HERE, "baseline.json"), "w"), indent=0, sort_keys=True)
    shutil.rmtree(out, ignore_errors=True)


def known_findings(prop):
    """entries `finding: property=<id> match=<text> -- <what fails>`; `fixed:` entries suppress nothing"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.+?) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop):
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cfg = CFG["properties"][prop]
    shared = CFG["libs"]
    base = json.load(open(os.path.join(HERE, "baseline.json")))
    # functions whose obligations decide the property, and the modules it rests on
    core = [re.compile(x) for x in cfg["core"]]
    modules = list(dict.fromkeys(cfg["modules"] + shared + ["canary"]))
    is_core = lambda k: any(c.search(k) for c in core)

    with ThreadPoolExecutor(2) as ex:
        fr = ex.submit(build_replay)
        exe, eerr = build_extract()
        rexe, rerr = fr.result()
    proof = Proof(prop, modules)
    quick_s = 20 if TIER == "quick" else 240
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(proof.run, exe) if exe else None
        fs = ex.submit(search, rexe, prop, quick_s, "a", 2 if TIER == "quick" else 6, SEED, proof.found) if rexe else None
        if fp:
            fp.result()
        else:
            proof.note = "the extractor does not build: " + eerr[-400:]
        rs, viol = fs.result() if fs else ([], None)

    undecided = []
    if not proof.ok:
        undecided.append("no proof: " + proof.note)
    elif not proof.canary:
        undecided.append("no proof: the must-fail assertion did not fail")
        proof.ok = False
    fns = [f for f in (proof.map or {"functions": []})["functions"] if f["module"] in cfg["modules"]]
    lost_core, lost_dep = [], []
    for k, r in sorted(proof.lost.items()):
        if any(f["key"] == k for f in fns):
            (lost_core if is_core(k) else lost_dep).append((k, r))
    known = set(base)
    restructured = {}
    # conversions and machine arithmetic whose whole meaning the verifier knows: a proof that fails
    # with one of them more or less does not fail for lack of a contract
    PLAIN_CALLS = {"from", "into", "clone", "copied", "cloned", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub"}
    for f in fns:
        b = base.get(f["key"])
        if b is None:
            continue
        if f["shape"] != b["shape"]:
            restructured[f["key"]] = "control structure changed"
        elif (set(f["calls"]) ^ set(b["calls"])) - PLAIN_CALLS:
            restructured[f["key"]] = "calls changed: " + ", ".join(sorted((set(f["calls"]) ^ set(b["calls"])) - PLAIN_CALLS))
        elif b["hash"] != f["hash"]:
            pass
    hard, soft = [], []
    if proof.ok:
        for x in proof.failures:
            k = x["fn"]
            if k is None:
                soft.append((x, "an obligation of a lemma"))
            elif not is_core(k):
                soft.append((x, "a function the property rests on, decided by another property's check"))
            elif k in restructured:
                soft.append((x, restructured[k]))
            elif lost_core or lost_dep:
                soft.append((x, "while other functions are outside the verifier's reach: " + ", ".join(k for k, _ in (lost_core + lost_dep)[:3])))
            else:
                hard.append(x)
    for x, why in soft:
        undecided.append(f'{x["fn"] or x["module"]}: {x["obligation"]} ({why})')
    for k, r in lost_core + lost_dep:
        undecided.append(f"{k}: {r}")
    # anything short of a full proof is followed by a deeper bounded search
    deep = None
    if viol is None and rexe and (hard or undecided):
        secs = min(150 if TIER == "quick" else 240, max(10, left() - 130))
        deep, viol = search(rexe, prop, secs, "b", 7, SEED + 77)
        rs += deep
    if viol is None and rexe is None:
        undecided.append("the bounded part does not build: " + rerr[-400:])

    # ---- verdict
    code, lines, nviol = 0, [], 0
    kf = known_findings(prop)
    rep = os.path.join(WORK, f"replay-{prop}.json")
    if os.path.exists(rep):
        os.remove(rep)
    if viol is not None:
        hit = next((d for m, d in kf if m in viol["what"]), None)
        if hit:
            lines.append(f"KNOWN-FINDING: property={prop} {hit}")
        else:
            nviol += 1
            json.dump({"property": prop, "kind": "input", "what": viol["what"], "seed": viol["seed"], "case": viol["case"],
                       "rerun": f"cd {HERE}/replay && cargo run --offline -- {prop} --seed {viol['seed']} --case {viol['case']}",
                       "failed_obligations": [x for x, _ in soft] + hard}, open(rep, "w"), indent=1)
            lines.append(f"violated: {viol['what'][:1200]}")
            for x in hard + [x for x, _ in soft]:
                lines.append(f"failed obligation: {x['fn']} ({x['src']}): {x['obligation']}: {' | '.join(x['at'])[:400]}")
            lines.append(f"VIOLATION property={prop} replay={rep}")
            code = 1
    elif hard:
        nviol += len(hard)
        json.dump({"property": prop, "kind": "obligation", "failed_obligations": hard,
                   "note": "no failing input was found by the bounded search", "rerun": proof.cmd}, open(rep, "w"), indent=1)
        for x in hard:
            lines.append(f"failed obligation: {x['fn']} ({x['src']}): {x['obligation']}: {' | '.join(x['at'])[:600]}")
        lines.append(f"VIOLATION property={prop} replay={rep} no-failing-input-found")
        code = 1
    for m, d in kf:
        l = f"KNOWN-FINDING: property={prop} {d}"
        if l not in lines:
            lines.append(l)

    # ---- evidence
    q = [x for x in proof.queries if x[0] != "canary"]
    under = [f for f in fns if f["contract"] and f["status"] == "verified"]
    level = cfg["level"]
    cov = {
        "obligations": len(q), "discharged": sum(1 for x in q if x[2]),
        "obligation_unit": "one verification query: a function body against its contract (with its loop invariants, preconditions of callees, overflow and termination), or a lemma",
        "checker_cmd": proof.cmd, "back_end": "Verus (Z3)", "solver_ms": proof.smt_ms,
        "must_fail_assertion_failed": proof.canary,
        "functions_under_contract": [f'{f["key"]} ({f["src"]}:{f["src_line"]})' for f in under],
        "functions_decisive": sorted(f["key"] for f in under if is_core(f["key"])),
        "functions_trusted": [f'{f["key"]} ({f["src"]}:{f["src_line"]}): {f["reason"]}' for f in fns if f["status"] == "trusted"],
        "functions_not_extracted": [n for n in (proof.map or {}).get("notes", []) if any(n.startswith(m) for m in cfg["modules"])],
        "functions_lost_on_this_run": [f"{k}: {r}" for k, r in lost_core + lost_dep],
        "undecided": undecided,
        "proof_obtained": bool(proof.ok and not hard and not undecided),
        "trusted_base": (trusted_scan(proof.dir, cfg["modules"], shared) if proof.map else []) + CFG["assumptions"] + cfg.get("assumptions", []),
        "bounded_part": cfg.get("bounded", "replay of random cases against an independent oracle; never counted as proved"),
        "evaluations": sum(r["evaluations"] for r in rs), "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in rs),
        "distinct_nontrivial_note": "summed over independent seeds",
        "rule": next((r["rule"] for r in rs if r["rule"]), ""), "samples": [s for r in rs for s in r["samples"]][:4],
        "violations": nviol,
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": CFG["assumptions"] + cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    log(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, {len(under)} functions under contract, "
        f"{cov['evaluations']} bounded cases, {ev['wall_s']} s")
    for u in undecided:
        log("UNDECIDED by proof: " + u[:400])
    for l in lines:
        log(l)
    proof.clean()
    sys.exit(code)


if __name__ == "__main__":
    a = sys.argv[1] if len(sys.argv) > 1 else ""
    if a == "--setup":
        setup()
    elif a == "--baseline":
        baseline()
    else:
        main(a)
