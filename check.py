#!/usr/bin/env python3
"""Decide one property on /repo's working tree.

    check.py PROP            (VERIF_SEED, VERIF_TIER in the environment)

1. vx extracts the functions under contract from /repo's source and joins them
   with the contracts; Verus discharges the obligations of the modules that
   hold functions of PROP.
2. The native harness runs PROP's oracle on the real crate: as the search for
   a failing input when an obligation fails, and as the bounded stand-in for
   functions the verifier does not reach.
Exit 0: held.  Exit 1: VIOLATION line.  See DESIGN.md.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/crates/wolfram-parser/src"
TGT = os.path.join(HERE, "target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")

OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|unable to prove|assert_by|"
    r"requires not satisfied|could not prove termination|loop invariant|cannot show invariant|"
    r"unreachable|index out of bounds|constructed value may fail|loop ensures not satisfied|"
    r"assertion might not hold|bitvector|may underflow|may overflow|split|cannot prove|failed")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Native:
    """Build and run the native harness in the background."""

    def __init__(self, prop, seed, secs, work):
        self.prop, self.seed, self.secs, self.work = prop, seed, secs, work
        self.hooks, self.log, self.bin, self.res = True, "", None, None
        self.t = threading.Thread(target=self.run)
        self.t.start()

    def run(self):
        tgt = os.path.join(TGT, "native")
        r = sh(["bash", HERE + "/native/b.sh", tgt], env=ENV)
        if r.returncode:
            self.log = r.stdout
            self.hooks = False
            r = sh(["bash", HERE + "/native/b.sh", tgt + "-nohooks", "nohooks"], env=ENV)
            tgt += "-nohooks"
            if r.returncode:
                self.log += r.stdout
                return
        self.bin = tgt + "/debug/vnative"
        self.res = self.check(self.secs)

    def check(self, secs):
        out = os.path.join(self.work, "native.json")
        cmd = [self.bin, "check", self.prop, "--seed", str(self.seed), "--secs", str(secs), "--json", out]
        try:
            r = sh(cmd, timeout=secs * 3 + 240)
        except subprocess.TimeoutExpired:
            return {"error": "native harness timed out"}
        if os.path.exists(out):
            d = json.load(open(out))
            if (r.returncode == 1) == bool(d.get("failure")) and r.returncode in (0, 1):
                return d
        # aborted (stack overflow, abort): find the input by tracing
        tr = os.path.join(self.work, "trace")
        os.makedirs(tr, exist_ok=True)
        try:
            sh(cmd + ["--trace", tr], timeout=secs * 3 + 240)
        except subprocess.TimeoutExpired:
            pass
        for f in sorted(os.listdir(tr)):
            p = os.path.join(tr, f)
            try:
                q = sh([self.bin, "replay", self.prop, p], timeout=120)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode not in (0, 2):
                d = json.load(open(p))
                return {"evaluations": 1, "distinct_nontrivial": 1, "notes": [], "samples": [],
                        "failure": {"check": "runs to completion", "input_hex": d["input_hex"], "input": "", "cfg": d.get("cfg", ""),
                                    "message": "the process aborts (exit %d)" % q.returncode}}
        return {"error": "native harness exited %d without a result: %s" % (r.returncode, r.stdout[-300:])}


# modules that hold only lemmas, checked with the modules that use them
LEMMAS = {"tokz": ["twlm", "plc"], "sess": ["plc"], "bld": ["tree", "srcm"], "prs": ["tree", "srcm", "plc", "tokenkind"], "aggm": ["aggs"], "prt": ["prtl"], "drv": ["tree"]}


class Proof:
    def __init__(self, prop, work, tier, theorems=()):
        self.theorems = theorems
        self.prop, self.work, self.tier = prop, work, tier
        self.fns, self.clauses, self.lost, self.lines, self.odd = [], {}, [], {}, {}
        self.trusted, self.failed, self.verified, self.times = {}, [], 0, {}
        self.error, self.cmd, self.wall = None, "", 0.0
        self.raw = []

    def extract(self):
        out, mp = self.work + "/out.rs", self.work + "/out.map"
        cmd = [TGT + "/vx/debug/vx", SRC, HERE + "/contracts", out, mp]
        for f in self.trusted:
            cmd += ["--trust", f]
        r = sh(cmd)
        if r.returncode not in (0,):
            return r.stdout
        self.fns, self.clauses, self.lost, self.lines, self.odd = [], {}, [], {}, {}
        for l in open(mp):
            f = l.rstrip("\n").split("\t")
            if f[0] == "F":
                self.fns.append(dict(path=f[1], a=int(f[2]), z=int(f[3]), mode=f[4], props=[x for x in f[5].split(",") if x],
                                     src=f[6], contract=f[7] == "contract", hash=f[8], mod=f[9]))
            elif f[0] == "C":
                self.clauses[int(f[1])] = (f[2], f[3])
            elif f[0] == "L":
                self.lines[int(f[1])] = f[2]
            elif f[0] == "ODD":
                self.odd[f[1]] = f[2]
            elif f[0] == "LOST":
                self.lost.append((f[1], f[2] if len(f) > 2 else "-"))
        return None

    def fn_at(self, line):
        for f in self.fns:
            if f["a"] <= line <= f["z"]:
                return f
        return None

    def mine(self, f):
        return self.prop in f["props"]

    def run(self):
        t0 = time.time()
        r = sh(["cargo", "build", "--offline"], cwd=HERE + "/vx", env=dict(ENV, CARGO_TARGET_DIR=TGT + "/vx"))
        if r.returncode:
            self.error = "extractor does not build: " + r.stdout[-400:]
            return
        for attempt in range(12):
            e = self.extract()
            if e:
                self.error = "extraction: " + e.strip()[-400:]
                return
            mods = sorted({f["mod"] for f in self.fns if self.mine(f)} | {t[0] for t in self.theorems})
            mods = sorted(set(mods) | {l for m in mods for l in LEMMAS.get(m, ())})
            if not mods:
                self.error = "no function under contract"
                return
            cmd = ["verus", "out.rs", "--num-threads", "8", "--output-json", "--time-expanded", "--multiple-errors", "4"]
            for m in mods:
                cmd += ["--verify-module", m] if m else ["--verify-root"]
            self.cmd = "verus out.rs " + " ".join("--verify-module " + m for m in mods)
            cmd += ["--verify-root", "--", "--error-format=json"]
            budget = (420 if self.tier == "quick" else 2400) - (time.time() - t0)
            try:
                r = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(budget, 30))
            except subprocess.TimeoutExpired:
                self.error = "verifier ran out of time"
                break
            if self.digest(r):
                break
        self.wall = time.time() - t0

    def digest(self, r):
        """True when done, False when a function was moved to the trusted set and the run has to be repeated."""
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level", "").startswith("error") and d.get("spans"):
                    diags.append(d)
        again, failed = {}, []
        for d in diags:
            msg = d["message"]
            spans = d["spans"] + [s for c in d.get("children", []) for s in c.get("spans", [])]
            fns = []
            for s in sorted(spans, key=lambda s: not s["is_primary"]):
                f = self.fn_at(s["line_start"])
                if f and f not in fns:
                    fns.append(f)
            clause = [self.clauses[s["line_start"]] for s in spans if s["line_start"] in self.clauses]
            # a failed call names both the caller (primary) and the callee's clause; a failed postcondition only its own function
            if RLIMIT.search(msg):
                if fns:
                    again[fns[0]["path"]] = "resource limit"
                else:
                    self.trusted["a lemma (%s)" % "; ".join(t["text"].strip()[:60] for x in spans[:1] for t in x.get("text", []))] = "resource limit"
            elif OBLIGATION.search(msg) and not d.get("code"):
                if not fns:
                    failed.append(dict(fn=None, msg=msg, clause=clause, text=d.get("rendered", ""), src="", props=[]))
                    continue
                f = fns[0]
                tags = set()
                if "postcondition" in msg and clause and clause[-1][1]:
                    tags = set(clause[-1][1].split(","))
                failed.append(dict(fn=f["path"], msg=msg, clause=clause, text=d.get("rendered", ""), src=f["src"], props=sorted(tags) or f["props"]))
            else:
                if fns:
                    again[fns[0]["path"]] = "not accepted by the verifier: " + msg[:120]
                elif not self.error:
                    self.error = "verifier: " + msg[:300]
        res = {}
        try:
            res = json.loads(r.stdout)
        except ValueError:
            pass
        vr = res.get("verification-results", {})
        compile_err = {k: v for k, v in again.items() if v.startswith("not")}
        new = {k: v for k, v in again.items() if k not in self.trusted}
        if compile_err and new:
            self.trusted.update(new)
            self.error = None
            return False
        if "verified" not in vr:
            self.error = self.error or "verifier gave no result: " + r.stderr[-300:]
            return True
        for k, v in new.items():
            self.trusted[k] = v
        self.error = None
        self.failed, self.verified = failed, vr["verified"]
        for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                n = fb["function"].split("::", 1)[-1]
                self.times[n] = self.times.get(n, 0) + fb.get("time-micros", 0)
        return True


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(HERE + "/levels.json"))[prop]
    secs = conf.get("secs", 15) if tier == "quick" else conf.get("thorough_secs", 240)
    t0 = time.time()
    os.makedirs(TGT, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="vck-")
    try:
        rc = decide(prop, tier, seed, conf, secs, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known():
    v = set()
    p = HERE + "/known-findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) input_hex=(\S*) (.*)", l)
        if m:
            v.add(m.groups())
    return v


def decide(prop, tier, seed, conf, secs, t0, work):
    nat = Native(prop, seed, secs, work)
    pr = Proof(prop, work, tier, conf.get("theorems", []))
    pr.run()
    nat.t.join()
    n = nat.res or {"error": "the crate does not build: " + nat.log[-600:]}
    mine = [f for f in pr.fns if prop in f["props"]]
    failed = [f for f in pr.failed if f["fn"] is None or prop in f["props"]]
    open_findings = {k[1]: k[2] for k in known() if k[0] == prop}
    lines, viol = [], 0
    if nat.bin is None or ("error" in n and pr.error):
        print("ERROR: cannot decide %s: %s %s" % (prop, n.get("error"), pr.error))
        return 2
    fl = n.get("failure")
    if fl and fl["input_hex"] in open_findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, open_findings[fl["input_hex"]]))
        fl = None
    if failed and not fl and "error" not in n and tier == "quick":
        # an obligation failed: search longer for a failing input
        n2 = nat.check(min(60, secs * 3)) if conf.get("search", True) else n
        if n2.get("failure"):
            n, fl = n2, n2["failure"]
    if not fl and "error" not in n:
        # the contracts of these functions no longer fit their text (new helper, other loops): no verdict from the proof
        for f in failed:
            if f["fn"] in pr.odd:
                pr.trusted[f["fn"]] = "not discharged: " + pr.odd[f["fn"]]
        failed = [f for f in failed if f["fn"] not in pr.odd]
    ob = [dict(function=f["fn"], obligation=f["msg"], clause=f["clause"], source=f["src"]) for f in failed]
    if fl:
        p = HERE + "/replay/%s.json" % prop
        json.dump(dict(property=prop, failed_obligations=ob, verifier_output=[f["text"] for f in failed][:5],
                       replay_cmd="%s replay %s %s" % (nat.bin, prop, p), **fl), open(p, "w"), indent=1)
        for f in failed:
            print("failed obligation: %s in %s (%s)" % (f["msg"], f["fn"], f["src"]))
        print("failing input: %s [%s]: %s" % (fl["input"][:200], fl["check"], fl["message"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        viol = 1
    elif failed:
        p = HERE + "/replay/%s.txt" % prop
        with open(p, "w") as o:
            o.write("No failing input found; the verifier rejects these obligations of %s:\n" % prop)
            for f in failed:
                o.write("\n%s in %s (%s) clauses %s\n%s\n" % (f["msg"], f["fn"], f["src"], f["clause"], f["text"]))
        for f in failed:
            print("failed obligation: %s in %s (%s)" % (f["msg"], f["fn"], f["src"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol = 1

    proved = [f for f in mine if f["mode"] == "verified" and f["path"] not in pr.trusted and not pr.error]
    bad = {f["fn"] for f in failed}
    discharged = [f for f in proved if f["path"] not in bad]
    verified_all = [f for f in mine if f["mode"] == "verified"]
    tsum = lambda names: round(sum(t for k, t in pr.times.items()) / 1e6, 2)
    src = open(work + "/out.rs").read() if os.path.exists(work + "/out.rs") else ""
    trusted = sorted(f["path"] for f in pr.fns if f["mode"] == "trusted")
    base = ["Verus 0.2026.09.13 with Z3 4.12.5 and its encoding of Rust", "vx extraction: the rewrites listed in DESIGN.md",
            "assumed contracts in contracts/00_prelude.rs: %d assume_specification/external_body items" % (src.count("assume_specification") + src.count("external_body"))]
    base += ["body assumed, contract used: " + t for t in trusted]
    cov = dict(
        obligations=len(verified_all), discharged=len(discharged),
        checker_cmd=pr.cmd or "verus out.rs", trusted_base=base,
        functions_under_contract=[dict(function=f["path"], source=f["src"], discharged=f in discharged) for f in mine],
        theorems=[dict(module=t[0], lemma=t[1], says=t[2]) for t in conf.get("theorems", [])],
        items_verified_by_verus=pr.verified, solver_seconds=tsum(None), verifier_wall_seconds=round(pr.wall, 1),
        left_to_bounded_check={**pr.trusted, **{l[0]: "function not found in the source" for l in pr.lost if prop in l[1].split(",")},
                               **({"all": pr.error} if pr.error else {})},
        bounded=dict(label="bounded, not counted as proved", evaluations=n.get("evaluations", 0), distinct_nontrivial=n.get("distinct_nontrivial", 0),
                     bound="%s s of inputs from seed %d; %s" % (secs, seed, "; ".join(n.get("notes", []))), hooks=nat.hooks,
                     covers=conf.get("bounded_covers", ""), error=n.get("error"), samples=n.get("samples", [])[:6]),
        failed_obligations=ob)
    ev = dict(property=prop, tier=tier, seed=seed, level=conf["level"], coverage=cov, assumptions=conf.get("assumptions", []) + ASSUME,
              wall_s=round(time.time() - t0, 1), violations=viol)
    if conf["level"] != "proof":
        cov.update(evaluations=n.get("evaluations", 0), distinct_nontrivial=n.get("distinct_nontrivial", 0),
                   rule="inputs enumerated and generated as DESIGN.md says, distinct by content; trivial: empty", samples=n.get("samples", [])[:6],
                   explanation=conf.get("bounded_covers", ""))
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d of %d functions under contract discharged (%d items verified), %d bounded evaluations, %.0f s%s" % (
        prop, len(discharged), len(verified_all), pr.verified, n.get("evaluations", 0), time.time() - t0,
        "; left to the bounded check: " + ", ".join(cov["left_to_bounded_check"]) if cov["left_to_bounded_check"] else ""))
    return viol


ASSUME = [
    "inputs shorter than 2^30 bytes and positions below 2^32 (position counters are u32)",
    "tab width at least 1",
    "the Rust compiler and standard library",
]

if __name__ == "__main__":
    main()
