#!/usr/bin/env python3
"""Decides one property: extracts the functions under contract from /repo, has Verus discharge every obligation,
and runs the same contract statements against the compiled code (bounded; falsifier and stand-in).

  check.py C05                exit 0: held; exit 1: VIOLATION line; 2: no answer
  check.py C05 --replay FILE  re-run a recorded failing case
  check.py --shapes           rewrite contracts/shapes.json from the current tree (maintenance)
  check.py --setup            build the tools
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
T0 = time.time()
CFG = json.load(open(f"{V}/contracts/props.json"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
RLIMIT = "60"


def env(toolchain=None):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    return e


def run(cmd, timeout, cwd=None, e=None, mem_gb=None):
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setsid()
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return -999, o, r


def build_vx():
    rc, o, r = run(["cargo", "build", "--offline"], 400, f"{V}/vx", dict(env(), CARGO_TARGET_DIR=f"{B}/vx"))
    if rc != 0:
        raise RuntimeError("vx does not build: " + r[-2000:])
    return f"{B}/vx/debug/vx"


def build_harness(b):
    # The lock file of the project's own environment pins the dependencies.
    rc, o, r = run(["cargo", "build", "--offline", "--bin", b], 600, f"{V}/harness", dict(env("nightly-2025-03-01"), CARGO_TARGET_DIR=f"{B}/harness"))
    return (f"{B}/harness/debug/{b}" if rc == 0 else None), r


class Fn:
    def __init__(self, l):
        f = l.rstrip("\n").split("\t")
        self.state, self.id, self.file, self.path, self.a, self.b, self.shape, self.ctx, self.substs, self.msg = f[0], int(f[1]), f[2], f[3], int(f[4]), int(f[5]), f[6], f[7], f[8], f[9]
        self.obl = 0
        self.us = 0
        self.labels = {}

    def name(self):
        return f"{self.path}" + (f" [{self.ctx}]" if self.ctx and self.ctx != "free" else "")


def diags(err):
    out = []
    for l in err.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due"):
            out.append(d)
    return out


def verus(rs, extra, timeout, log=None):
    cmd = ["verus", os.path.basename(rs), "--edition", "2024", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", RLIMIT] + extra
    if log:
        cmd += ["--log", "air", "--log-dir", log]
    rc, o, r = run(cmd, timeout, os.path.dirname(rs))
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = None
    return rc, j, r


class Unit:
    """One contract file: extraction, proof, triage."""

    def __init__(self, name):
        self.name = name
        self.dir = f"{B}/units/{name}-{os.getpid()}"
        self.status = "undecided"
        self.fns, self.items, self.stubs = [], [], {}
        self.failed = []      # (fn, message, rendered): obligations that fail, loop structure unchanged
        self.undecided = []   # (fn or text, reason)
        self.obl = self.dis = self.prelude_obl = self.lemma_obl = 0
        self.labels, self.solver_us = {}, 0
        self.vacuous = []
        self.cmds = []

    def extract(self, vx, out, extra):
        rs, mp = f"{self.dir}/{out}.rs", f"{self.dir}/{out}.map"
        cmd = [vx, f"{V}/contracts/{self.name}.rs", REPO, rs, mp] + extra
        rc, o, r = run(cmd, 60)
        if not os.path.exists(mp):
            raise RuntimeError("extraction: " + r[-1500:])
        return rs, [Fn(l) for l in open(mp)]

    def at(self, line, fns):
        for f in fns:
            if f.a <= line <= f.b:
                return f
        return None

    def blame(self, d, fns):
        sp = sorted(d["spans"], key=lambda s: not s["is_primary"])
        for s in sp:
            f = self.at(s["line_start"], fns)
            if f and f.state == "fn":
                return f
        return None

    def go(self, vx):
        os.makedirs(self.dir, exist_ok=True)
        shapes = json.load(open(f"{V}/contracts/shapes.json")).get(self.name, {}) if os.path.exists(f"{V}/contracts/shapes.json") else {}
        stub = {}
        deadline = time.time() + 600
        for rnd in range(8):
            extra = ["--stub=" + ",".join(map(str, sorted(stub)))] if stub else []
            rs, fns = self.extract(vx, "main", extra)
            self.items = [f for f in fns if f.state == "item"]
            lost = [f for f in fns if f.state == "lost"]
            if lost:
                self.undecided += [(f.name(), "not found in the source: " + f.msg) for f in lost]
                self.fns = fns
                return
            for f in fns:
                if f.state == "stub" and f.id not in stub:
                    stub[f.id] = f.msg
            log = f"{self.dir}/log"
            vac = threading.Thread(target=self.vacuity, args=(vx, extra))
            vac.start()
            rc, j, err = verus(rs, [], max(30, deadline - time.time()), log)
            vac.join()
            ds = diags(err)
            vr = (j or {}).get("verification-results", {})
            if not j or vr.get("encountered-vir-error") or (vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors")) or (ds and "verified" not in vr):
                # rejected before verification: functions outside the verifier's dialect are set aside
                bad = [(self.blame(d, fns), d) for d in ds]
                new = {f.id: "outside the verifier's reach: " + d["message"][:200] for f, d in bad if f}
                if not new or rc == -999:
                    self.undecided.append((self.name, "unit rejected before verification: " + (ds[0]["message"][:300] if ds else err[-300:])))
                    self.fns = fns
                    return
                stub.update(new)
                continue
            self.fns = fns
            self.account(j, fns, f"{log}/root.air")
            hard, soft = {}, []
            for d in ds:
                f = self.blame(d, fns)
                m = d["message"]
                r = d.get("rendered") or m
                if f is None:
                    soft.append((self.name, "outside the extracted functions: " + m[:200]))
                elif "rlimit" in m or "Resource limit" in m:
                    soft.append((f, "solver gave up: " + m[:120]))
                else:
                    hard.setdefault(f.id, []).append((f, m, r))
            # a second opinion with another seed and a higher limit before anything is called failed
            if hard or soft:
                rc2, j2, err2 = verus(rs, ["--rlimit", "240", "--smt-option", "smt.random_seed=7"], max(30, deadline - time.time()))
                if j2 and j2.get("verification-results", {}).get("success"):
                    hard, soft = {}, []
                elif j2:
                    still = {f.id for f in (self.blame(d, fns) for d in diags(err2)) if f}
                    hard = {k: v for k, v in hard.items() if k in still}
                    soft = [(f, m) for f, m in soft if not isinstance(f, Fn) or f.id in still]
            bad = {}
            for k, l in hard.items():
                f = l[0][0]
                if shapes.get(str(f.id), {}).get("shape") != f.shape:
                    self.undecided.append((f.name(), "loops differ from those the proof script was written for, and the script does not carry over: " + l[0][1][:150]))
                    bad[k] = len(l)
                else:
                    self.failed += l
                    bad[k] = len(l)
            for f, m in soft:
                self.undecided.append((f.name() if isinstance(f, Fn) else f, m))
                if isinstance(f, Fn):
                    bad[f.id] = bad.get(f.id, 0) + 1
            for k, m in stub.items():
                f = next(x for x in fns if x.id == k)
                self.undecided.append((f.name(), m))
            # obligations of a function that did not verify count as undischarged
            self.dis = self.obl - sum(f.obl for f in fns if f.id in bad)
            if any(not isinstance(f, Fn) for f, _ in soft):
                self.dis = 0
            self.stubs = stub
            self.status = "failed" if self.failed else ("undecided" if self.undecided else "proved")
            if self.obl == 0:
                self.status = "undecided"
                self.undecided.append((self.name, "no obligations generated"))
            return
        self.undecided.append((self.name, "too many functions outside the verifier's reach"))

    def account(self, j, fns, air):
        cur = None
        n_pre = 0
        self.obl = 0
        body = open(air, errors="replace").read().splitlines()
        i = 0
        gen_end = max([f.b for f in fns] or [0])
        prelude_end = min([f.a for f in fns] or [0])
        infn = False
        for k, l in enumerate(body):
            if l.startswith(";; "):
                if l.startswith(";; Function-Def "):
                    infn, cur, where = True, None, None
                elif infn and cur is None and ".rs:" in l:
                    m = re.search(r"\.rs:(\d+):", l)
                    ln = int(m.group(1)) if m else 0
                    cur = self.at(ln, fns) or ("lemma" if ln > self.prelude_lines else "prelude")
                elif l.startswith(";; Function-"):
                    infn = False
                continue
            if infn and re.match(r"\s*\(assert$", l) or (infn and re.match(r"\s*\(assert \(", l)):
                lab = "other"
                for x in body[k:k + 3]:
                    m = re.search(r'\("([^"]+)"\)', x)
                    if m:
                        lab = m.group(1)
                        break
                if cur == "prelude":
                    self.prelude_obl += 1
                elif cur == "lemma":
                    self.lemma_obl += 1
                    self.obl += 1
                elif isinstance(cur, Fn):
                    cur.obl += 1
                    cur.labels[lab] = cur.labels.get(lab, 0) + 1
                    self.obl += 1
                self.labels[lab] = self.labels.get(lab, 0) + 1
        self.solver_us = sum(m.get("time-micros", 0) for m in j["times-ms"]["smt"].get("smt-run-module-times", []))
        self.dis = self.obl

    prelude_lines = sum(1 for _ in open(f"{V}/contracts/prelude.rs")) + 6

    def vacuity(self, vx, extra):
        """`assert(false)` at the start of every function must be refuted: no contradictory precondition."""
        self.vacuous, self.vac_checked = [], 0
        try:
            rs, fns = self.extract(vx, "vac", ["--vacuity"] + extra)
            rc, j, err = verus(rs, ["--multiple-errors", "0"], 500)
            ds = diags(err)
            if not j or j.get("verification-results", {}).get("encountered-vir-error"):
                return
            vr = j.get("verification-results", {})
            if "verified" not in vr or (not vr["verified"] and not vr.get("errors")):
                return  # rejected before verification: says nothing about preconditions
            hit = set()
            for d in ds:
                f = self.blame(d, fns)
                if f:
                    hit.add(f.id)
            if ds and "verified" in j["verification-results"]:
                self.vacuous = [f.name() for f in fns if f.state == "fn" and f.id not in hit]
                self.vac_checked = len(hit)
        except Exception as e:  # recorded, never silently dropped
            self.vac_error = str(e)


def trusted(units):
    t = []
    src = open(f"{V}/contracts/prelude.rs").read()
    for u in units:
        uses = [f"{f.name()}" for f in u.fns if f.state == "use"]
        if uses:
            t.append(f"unit {u.name}: contracts assumed here and proved in another unit: " + ", ".join(uses))
        src_u = open(f"{V}/contracts/{u.name}.rs").read()
        for pat in ("external_body", "assume_specification", "assume(", "admit(", "uninterp", "axiom"):
            n = len(re.findall(r"\b" + re.escape(pat), re.sub(r"//[^%\n][^\n]*", "", src_u)))
            if n:
                t.append(f"unit {u.name}: {n} x {pat}")
    for pat in ("external_body", "assume_specification", "uninterp", "axiom", "assume(", "admit("):
        n = len(re.findall(r"\b" + re.escape(pat), src))
        if n:
            t.append(f"prelude: {n} x {pat}")
    return t


def known(pid):
    p = f"{V}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def shapes():
    vx = build_vx()
    out = {}
    for u in sorted({u for p in CFG["properties"].values() for u in p["units"]}):
        un = Unit(u)
        os.makedirs(un.dir, exist_ok=True)
        _, fns = un.extract(vx, "main", [])
        out[u] = {str(f.id): {"fn": f.name(), "shape": f.shape} for f in fns if f.state != "item"}
        shutil.rmtree(un.dir)
    json.dump(out, open(f"{V}/contracts/shapes.json", "w"), indent=1, sort_keys=True)


def main():
    if sys.argv[1] == "--shapes":
        return shapes()
    if sys.argv[1] == "--setup":
        build_vx()
        r = run(["cargo", "build", "--offline", "--bins"], 1500, f"{V}/harness", dict(env("nightly-2025-03-01"), CARGO_TARGET_DIR=f"{B}/harness"))
        sys.exit(0 if r[0] == 0 else 2)
    pid = sys.argv[1]
    P = CFG["properties"][pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rec = json.load(open(sys.argv[3]))
        exe, err = build_harness(P["bin"])
        for f in rec.get("failures", [])[:5]:
            rc, o, r = run([exe, "case", f["kind"], str(f["seed"])], 120)
            print(o)
        print("\n".join(rec.get("obligations", [])))
        return
    os.makedirs(B, exist_ok=True)
    units = [Unit(u) for u in P["units"]]
    hb = {}

    def th():
        hb["exe"], hb["err"] = build_harness(P["bin"])
    t = None
    if P.get("bin"):
        t = threading.Thread(target=th)
        t.start()
    perr = []
    try:
        vx = build_vx() if units else None
    except Exception as e:
        vx = None
        perr.append(str(e))

    def one(u):
        try:
            u.go(vx)
        except Exception as e:
            u.undecided.append((u.name, "proof run ended early: " + str(e)[:400]))
    ts = [threading.Thread(target=one, args=(u,)) for u in units] if vx else []
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    if t:
        t.join()
    t_proof = time.time() - T0
    hard = [(u, f, m, r) for u in units for f, m, r in u.failed]
    und = [(u.name, n, m) for u in units for n, m in u.undecided]

    # bounded run of the contract statements on the compiled code
    res, died = None, None
    secs = P.get("quick_secs", 25) if TIER == "quick" else P.get("thorough_secs", 240)
    if hard or und:
        secs = max(secs * 3, 90)
    secs = min(secs, max(20, 820 - (time.time() - T0)))
    if hb.get("exe"):
        out = f"{B}/{pid}-{os.getpid()}.json"
        for f in (out,):
            if os.path.exists(f):
                os.remove(f)
        e = dict(env(), RUST_BACKTRACE="0")
        rc, o, r = run([hb["exe"], "run", str(SEED), str(secs), out], secs + 120, e=e, mem_gb=24)
        if rc == 0 and os.path.exists(out):
            res = json.load(open(out))
        else:
            died = f"exit {rc} " + r[-800:]
        inflight = []
        for k in range(8):
            p = f"{out}.t{k}"
            if os.path.exists(p):
                if died:
                    inflight.append(open(p).read().split())
                os.remove(p)
        if died:
            # the process died (memory, stack, abort): find which in-flight case does it
            res = {"evaluations": 0, "distinct_nontrivial": 0, "failures": [], "samples": [], "per_kind": {}, "wall_s": 0, "skipped": 0}
            for f in inflight:
                if len(f) == 2:
                    rc, o, r = run([hb["exe"], "case", f[0], f[1]], 60, e=e, mem_gb=4)
                    if rc not in (0,):
                        res["failures"].append({"kind": f[0], "seed": int(f[1]), "message": f"process ends with {rc}: {(o + r)[-300:]}", "input": o[-800:]})
        if os.path.exists(out):
            os.remove(out)

    kn = known(pid)
    fails, kfound = [], []
    for f in (res or {}).get("failures", []):
        k = next((k for k in kn if k.get("match") and k.get("kind") == f["kind"] and re.search(k["match"], f["message"])), None)
        (kfound if k else fails).append((k, f) if k else f)
    # defects the bounded run recognises by their exact signature; only listed ones are known
    for f in (res or {}).get("known", []):
        k = next((k for k in kn if k.get("tag") == f["tag"]), None)
        if k:
            kfound.append((k, f))
        else:
            fails.append({"kind": f["kind"], "seed": f["seed"], "message": f"{f['tag']}: {f['message']}", "input": f["input"]})
    for k in kn:
        n = sum(f.get("count", 1) for q, f in kfound if q is k)
        # listed findings are announced on every run of the property's check
        print(f"KNOWN-FINDING: property={pid} {k['what']} (seen {n} times on this run)")

    proved = all(u.status == "proved" for u in units) and not perr
    obl = sum(u.obl for u in units)
    dis = sum(u.dis for u in units)
    vac = [v for u in units for v in u.vacuous]
    fl = [f for u in units for f in u.fns if f.state in ("fn", "stub")]
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": P["level"],
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "verus <unit>.rs --edition 2024 --triggers-mode silent --rlimit %s (Z3 back end), unit extracted from %s/src by vx on this run" % (RLIMIT, REPO),
            "trusted_base": CFG["trusted_base"] + P.get("trusted", []) + trusted(units),
            "units": {u.name: {"status": u.status, "obligations": u.obl, "discharged": u.dis, "prelude_obligations_not_counted": u.prelude_obl, "of_which_lemmas": u.lemma_obl, "solver_s": round(u.solver_us / 1e6, 2), "obligation_kinds": u.labels,
                               "precondition_reachability_checked": getattr(u, "vac_checked", 0), "textual_substitutions": [f.path + ": " + f.substs for f in u.fns if f.substs]} for u in units},
            "functions_under_contract": [{"file": f.file, "function": f.name(), "obligations": f.obl, "state": "not proved on this run" if f.state == "stub" else "contract"} for f in fl],
            "not_under_contract": P.get("not_under_contract", []),
            "undecided": [f"{a}: {b}: {c}" for a, b, c in und] + perr,
            "failed_obligations": [f"{u.name}: {f.name()}: {m}" for u, f, m, r in hard],
            "bounded_stand_in": "the contract statements evaluated on the compiled code for generated inputs; bounded, never counted as proved",
            "evaluations": (res or {}).get("evaluations", 0), "distinct_nontrivial": (res or {}).get("distinct_nontrivial", 0), "skipped": (res or {}).get("skipped", 0), "per_kind": (res or {}).get("per_kind", {}),
            "rule": P.get("rule", ""), "samples": (res or {}).get("samples", []),
        },
        "assumptions": CFG["assumptions"] + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(fails) + len(hard),
    }
    if P["level"] != "proof" or not units:
        ev["coverage"]["explanation"] = P.get("explanation", "")
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for u in units:
        if not os.environ.get("KEEP"):
            shutil.rmtree(u.dir, ignore_errors=True)

    print(f"{pid}: {dis}/{obl} obligations discharged over {len([f for f in fl if f.state == 'fn'])} functions; proof phase {t_proof:.0f} s; bounded run: {(res or {}).get('evaluations', 0)} evaluations; total {time.time() - T0:.0f} s")
    for a, b, c in und:
        print(f"UNDECIDED {a}: {b}: {c}")
    if vac:
        print("vacuous precondition: " + ", ".join(vac))
    if fails or hard:
        os.makedirs(f"{V}/replays", exist_ok=True)
        tag = hashlib.sha1(json.dumps([fails[:1], [m for _, _, m, _ in hard]]).encode()).hexdigest()[:10]
        rp = f"{V}/replays/{pid}-{tag}.json"
        json.dump({"property": pid, "failures": fails[:10], "obligations": [f"{u.name}: {f.file}: {f.name()}: {m}\n{r}" for u, f, m, r in hard], "replay": f"python3 tools/check.py {pid} --replay {rp}"}, open(rp, "w"), indent=1)
        for u, f, m, r in hard:
            print(f"FAILED OBLIGATION {u.name}: {f.name()}: {m}")
        if fails:
            f = fails[0]
            print(f"failing input: {f['kind']} {f['seed']}: {f['message'][:500]}")
            print(f"VIOLATION property={pid} replay={rp}")
        else:
            print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        sys.exit(1)
    if vac:
        sys.exit(2)
    if P.get("bin") and not hb.get("exe"):
        print("the bounded run does not build: " + (hb.get("err") or "")[-1500:])
        sys.exit(0 if proved and units else 2)
    if died:
        print("bounded run died and no in-flight case reproduces it: " + died)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
