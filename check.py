#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]

Decides one property:
  1. builds the extractor, extracts the functions under contract from /repo's working tree,
  2. runs Verus on each unit: every obligation must be discharged,
  3. a rejected obligation -> the replay harness searches for a failing input against the real
     code; the violation is reported with it, or with no-failing-input-found,
  4. a function the extractor/verifier cannot process (source changed beyond the supported
     subset, resource limit) -> the harness stands in, bounded, and evidence says so.
"""
import hashlib, json, os, re, subprocess, sys, time, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, os.path.join(V, "tools"))
from propconf import PROPS  # noqa: E402


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), "timeout"


def build_extractor():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", f"{V}/extract/Cargo.toml"], 600, env=env)
    if rc != 0:
        print(e, file=sys.stderr)
        raise SystemExit(f"extractor does not build (rc={rc})")
    return f"{V}/extract/target/debug/vextract"


class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.lost = []          # anchors that could not be extracted
        self.failed = []        # rejected obligations: dict(function, src, message, text)
        self.undecided = []     # rlimit / unsupported constructs
        self.verified = 0
        self.report = {"functions": [], "dropped": [], "probes": 0}
        self.smt_ms = 0
        self.total_ms = 0
        self.cmd = ""
        self.raw = ""
        self.hard = False
        self.compile_errors = False
        self.compile_keys = []


def enclosing(report, line, text):
    for f in report["functions"]:
        if f["kind"] == "fn" and f["out_start"] <= line <= f["out_end"]:
            src = f"{f['path']}:{f['src_line']}"
            nm = f["name"] if not f.get("impl") else f"{f['impl']}::{f['name']}"
            return nm, src, f["key"]
    # template-level lemma: nearest preceding `fn`
    for i in range(min(line, len(text)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", text[i])
        if m:
            return m.group(1), "lemma", None
    return "?", "?", None


VERIF_ERR = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not prove termination|"
    r"unreachable|split assertion failure|split precondition|split postcondition|requires not satisfied|"
    r"cannot show|recommendation not met|may.* not be satisfied|unable to prove|constructed value may fail")


def run_unit(vextract, unit, rlimit=40, probe=False, extra=()):
    """extract + verify; functions the verifier cannot accept (not: reject) are set aside one by one
    (contract kept as an assumption, listed as not verified) so that the rest is still decided."""
    ext = []
    for _ in range(8):
        r = run_unit1(vextract, unit, rlimit, probe, extra, ext)
        if r.compile_errors and not r.hard:
            new = [k for k in r.compile_keys if k and k not in ext]
            if not new:
                break
            ext += new
            continue
        break
    return r


def run_unit1(vextract, unit, rlimit, probe, extra, ext):
    r = UnitResult(unit)
    os.makedirs(OUT, exist_ok=True)
    out = f"{OUT}/{unit}{'_probe' if probe else ''}.rs"
    rep = out[:-3] + ".json"
    for f in (out, rep):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [vextract, f"{V}/units/{unit}.rs", out, rep, "--repo", REPO] + (["--probe"] if probe else []) + list(extra)
    for k in ext:
        cmd += ["--external", k]
    rc, o, e = run(cmd, 120)
    if rc not in (0, 3) or not os.path.exists(rep):
        r.lost = [f"extractor failed (rc={rc}): {(o + e)[-2000:]}"]
        r.hard = True
        return r
    r.report = json.load(open(rep))
    r.lost = r.report["lost"]
    if any(not l.get("contract_kept") for l in r.lost):
        r.hard = True
    vcmd = ["verus", out, "--rlimit", str(rlimit), "--num-threads", "8", "--output-json", "--time-expanded",
            "--error-format=json"]
    if probe:
        vcmd += ["--multiple-errors", "400"]
    r.cmd = " ".join(vcmd)
    rc, o, e = run(vcmd, 600, cwd=OUT)
    r.raw = e
    success = False
    try:
        d = json.loads(o[o.index("{"):])
        vr = d["verification-results"]
        r.verified = vr.get("verified", 0)
        r.total_ms = d.get("times-ms", {}).get("total", 0)
        r.smt_ms = d.get("times-ms", {}).get("smt", {}).get("total", 0)
        success = vr.get("success", False) and rc == 0
        ran = r.verified + vr.get("errors", 0) > 0
    except Exception:
        ran = False
    if success:
        return r
    text = open(out).read().splitlines()
    saw = False
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        saw = True
        sp = [s for s in d.get("spans", []) if s["file_name"].endswith(os.path.basename(out))]
        prim = [s["line_start"] for s in sp if s["is_primary"]] or [s["line_start"] for s in sp]
        fnline = prim[0] if prim else 0
        other = [s["line_start"] for s in sp if not s["is_primary"]]
        clause = prim
        if msg.startswith("precondition"):
            # primary = the call; label "failed precondition" = the clause
            clause = [s["line_start"] for s in sp if (s.get("label") or "").startswith("failed precondition")] or prim
            fnline = next((s["line_start"] for s in sp if not (s.get("label") or "").startswith("failed precondition")), fnline)
        elif msg.startswith("postcondition") and other:
            fnline = other[0]
        fn, src, key = enclosing(r.report, fnline, text)
        get = lambda n: text[n - 1].strip() if n and n - 1 < len(text) else ""
        item = dict(function=fn, src=src, key=key, message=msg, clause=get(clause[0] if clause else 0), at=get(fnline),
                    rendered=d.get("rendered", "")[:3000])
        if VERIF_ERR.search(msg) and ran:
            r.failed.append(item)
        else:
            r.undecided.append(item)
            if not ran:
                r.compile_errors = True
                r.compile_keys.append(key)
    if not saw:
        r.undecided.append(dict(function="?", src="?", key=None, message=f"verus ended with rc={rc}", clause="", at="",
                                rendered=e[-3000:]))
    return r


HARNESS_LOG = []


def build_harness(features):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg butane_verif -Awarnings")
    env["VERIF_REPO"] = REPO
    hd, tgt = f"{V}/harness", f"{V}/harness/target"
    if REPO != "/repo":     # development only: a patched copy of the repository
        import shutil
        hd, tgt = f"{OUT}/harness", f"{OUT}/harness-target"
        os.makedirs(hd, exist_ok=True)
        shutil.copytree(f"{V}/harness/src", f"{hd}/src", dirs_exist_ok=True)
        shutil.copy(f"{V}/harness/Cargo.lock", hd)
        open(f"{hd}/Cargo.toml", "w").write(open(f"{V}/harness/Cargo.toml").read().replace('"/repo/', f'"{REPO}/'))
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", f"{hd}/Cargo.toml", "--target-dir", tgt]
    if features:
        cmd += ["--features", ",".join(features)]
    rc, o, e = run(cmd, 800, env=env)
    HARNESS_LOG.append(dict(cmd=" ".join(cmd), rc=rc, err=e[-3000:] if rc else ""))
    return f"{tgt}/debug/vharness" if rc == 0 else None


def search(prop, secs, features, tier):
    """returns (witness|None, stats|None, error|None)"""
    h = build_harness(features)
    if h is None:
        return None, None, "harness does not build: " + HARNESS_LOG[-1]["err"][-1500:]
    scratch = f"{OUT}/scratch-{prop}"
    os.makedirs(scratch, exist_ok=True)
    rc, o, e = run([h, prop, "--seed", str(SEED), "--secs", str(secs), "--tier", tier, "--scratch", scratch, "--known", f"{V}/known_findings.json"], secs * 3 + 120, cwd=scratch)
    wit, stats = None, None
    for l in o.splitlines():
        if l.startswith("WITNESS "):
            wit = json.loads(l[8:])
        if l.startswith("STATS "):
            stats = json.loads(l[6:])
    if wit is None and stats is None:
        return None, None, f"harness ended with rc={rc}: {e[-1500:]}"
    return wit, stats, None


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--quick" in sys.argv:
        tier = "quick"
    cf = PROPS[prop]
    known = json.load(open(f"{V}/known_findings.json"))["findings"]
    vx = build_extractor()
    results = []
    for u in cf["units"]:
        r = run_unit(vx, u, rlimit=cf.get("rlimit", 60) * (3 if tier == "thorough" else 1))
        # a rejected or undecided obligation is retried once with a richer theory (associativity of
        # text concatenation) before it is reported
        if (r.failed or r.undecided) and not r.lost:
            r2 = run_unit(vx, u, rlimit=cf.get("rlimit", 60) * 2, extra=["--assoc"])
            if not r2.failed and not r2.undecided and not r2.lost:
                r = r2
            elif not r2.failed and r.failed:
                pass
        results.append(r)
    # units written for another property, of which this one counts only the functions it rests on
    shared = []
    for u, pat in cf.get("shared", []):
        r = run_unit(vx, u, rlimit=cf.get("rlimit", 60))
        if (r.failed or r.undecided) and not r.lost:
            r2 = run_unit(vx, u, rlimit=cf.get("rlimit", 60) * 2, extra=["--assoc"])
            if not r2.failed and not r2.undecided and not r2.lost:
                r = r2
        rx = re.compile(pat)
        r.failed = [f for f in r.failed if f["src"] != "lemma" and rx.search(f["function"])]
        r.undecided = [f for f in r.undecided if f["src"] != "lemma" and rx.search(f["function"])]
        r.lost = [x for x in r.lost if rx.search(x if isinstance(x, str) else str(x.get("key", x)))]
        r.report["functions"] = [f for f in r.report["functions"] if f["kind"] == "fn" and rx.search((f["impl"] + "::" if f.get("impl") else "") + f["name"])]
        shared.append(u)
        results.append(r)
    failed = [dict(f, unit=r.unit) for r in results for f in r.failed]
    lost = [x for r in results for x in r.lost]
    undecided = [dict(f, unit=r.unit) for r in results for f in r.undecided]
    fns = [f for r in results for f in r.report["functions"] if f["kind"] == "fn"]
    contracts = [f for f in fns if f.get("has_contract") and not f.get("external")]
    verified = sum(r.verified for r in results)
    obligations = verified + len(failed) + len(undecided) + len(lost)
    always = cf.get("standins", [])       # functions outside the verifier's reach: bounded checks
    need = bool(failed or lost or undecided or always or tier == "thorough")
    wit = stats = herr = None
    if need and cf.get("harness"):
        secs = cf.get("secs", 20) * (6 if tier == "thorough" else 1)
        feats = list(cf.get("features", []))
        if failed or lost or undecided or tier == "thorough":
            feats += [f for f in cf.get("features_deep", []) if f not in feats]
            secs = max(secs, cf.get("secs_deep", 20))
        wit, stats, herr = search(prop, secs, feats, tier)
    probes = None
    if tier == "thorough":
        probes = []
        for u in cf["units"]:
            pr = run_unit(vx, u, rlimit=cf.get("rlimit", 60), probe=True)
            n = pr.report.get("probes", 0)
            hit = sum(1 for f in pr.failed if "assertion failed" in f["message"] and "assert(false)" in (f["clause"] + f["at"]).replace(" ", ""))
            probes.append(dict(unit=u, planted=n, refuted=hit))
    violations = 0
    lines = []
    for k in known:
        if k["property"] == prop and stats and k["id"] in stats.get("known_hit", []):
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif k["property"] == prop and not stats:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = f"{V}/replays" if REPO == "/repo" else f"{OUT}/replays"
    if wit is not None or failed:
        violations = 1
        os.makedirs(rdir, exist_ok=True)
        body = dict(property=prop, witness=wit, failed_obligations=failed, undecided=undecided, lost=lost,
                    harness_error=herr, bounded_search=stats,
                    replay_cmd=(f"cd /verif && python3 check.py --replay <this file>" if wit else "none: no failing input found"))
        name = hashlib.sha1(json.dumps([wit, [(f['function'], f['message'], f['clause']) for f in failed]], sort_keys=True).encode()).hexdigest()[:12]
        path = f"{rdir}/{prop}-{name}.json"
        json.dump(body, open(path, "w"), indent=1)
        for f in failed[:8]:
            print(f"obligation rejected: {f['function']} ({f['src']}): {f['message']}: {f['clause']}")
        if wit:
            print("failing input:", json.dumps(wit)[:600])
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if wit else " no-failing-input-found"))
    for l in lost[:5]:
        print("not extracted (bounded stand-in used):", str(l)[:300])
    for u in undecided[:5]:
        print(f"undecided (bounded stand-in used): {u['function']} ({u['src']}): {u['message'][:200]}")
    if herr:
        print("harness:", herr[:800])
    trusted = list(cf.get("trusted", []))
    for r in results:
        for d in r.report.get("dropped", []):
            t = "extraction: " + d
            if t not in trusted:
                trusted.append(t)
    unitext = "".join(open(f"{OUT}/{u}.rs").read() for u in list(cf["units"]) + shared if os.path.exists(f"{OUT}/{u}.rs"))
    extl = sorted(set(re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof |axiom )?fn (\w+)", unitext)))
    ax = sorted(set(re.findall(r"axiom fn (\w+)", unitext)))
    coverage = dict(
        obligations=obligations, discharged=verified,
        checker_cmd="; ".join(r.cmd for r in results),
        trusted_base=trusted + [f"external_body contracts: {', '.join(extl)}", f"axioms: {', '.join(ax)}"],
        functions_under_contract=[dict(name=(f["impl"] + "::" if f.get("impl") else "") + f["name"], at=f"{f['path']}:{f['src_line']}", inlined=f.get("inlined", [])) for f in contracts],
        backend="Verus 0.2026.09.13 / Z3 " ,
        solver_ms=sum(r.smt_ms for r in results),
        units=[dict(unit=r.unit, verified=r.verified, failed=len(r.failed), undecided=len(r.undecided), lost=len(r.lost), ms=r.total_ms) for r in results],
        rejected=[dict(function=f["function"], src=f["src"], message=f["message"], clause=f["clause"]) for f in failed],
        undecided=[dict(function=f["function"], message=f["message"][:300]) for f in undecided],
        not_extracted=lost,
    )
    if stats:
        coverage["bounded"] = stats
        coverage["evaluations"] = stats.get("evaluations", 0)
        coverage["bounded_standins"] = always or (["functions whose obligations were not decided on this run"] if (lost or undecided) else [])
    if probes is not None:
        coverage["vacuity_probes"] = probes
    level = "proof" if not (lost or undecided) else "other"
    if level == "other":
        coverage["explanation"] = "some functions could not be brought to the verifier on this tree; a bounded search stood in for them"
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=coverage,
              assumptions=cf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    EV = os.environ.get("VERIF_EVID", f"{V}/evidence")
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(f"{EV}/{prop}.json", "w"), indent=1)
    for l in lines:
        print(l)
    print(f"{prop}: {len(contracts)} functions under contract, {verified}/{obligations} obligations discharged, "
          f"{'violation' if violations else 'ok'}, {time.time() - t0:.1f}s")
    return 1 if violations else 0


def replay():
    p = sys.argv[2]
    b = json.load(open(p))
    cf = PROPS[b["property"]]
    h = build_harness(cf.get("features", []) + cf.get("features_deep", []))
    if not h or not b.get("witness"):
        print(json.dumps(b.get("failed_obligations"), indent=1))
        return 1
    scratch = f"{OUT}/scratch-{b['property']}"
    os.makedirs(scratch, exist_ok=True)
    rc, o, e = run([h, b["property"], "--replay", os.path.abspath(p), "--scratch", scratch], 300, cwd=scratch)
    print(o, e)
    return rc


if __name__ == "__main__":
    sys.exit(replay() if sys.argv[1] == "--replay" else main())
