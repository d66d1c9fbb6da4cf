#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. extracts the functions of /repo/src together with their contracts
   (/verif/contracts) into one Verus file, mechanically, on every run;
2. has Verus discharge every obligation of the modules the property's proof
   depends on;
3. searches for a failing input on the real code with the executable reference
   (bounded; reported apart, never counted as proved).

Exit 1 with a VIOLATION line if the real code misbehaves on a concrete input, or
if an obligation of the property that is still well posed is no longer
discharged; exit 0 otherwise."""
import glob, json, os, re, subprocess, sys, threading, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, ".build")
EXTRACT = os.path.join(BUILD, "extract/release/vxextract")
ORACLE = os.path.join(BUILD, "oracle/release/vxoracle")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")

sys.path.insert(0, V)
import clock  # noqa: E402
from proofmap import ASSUME, COST, FN_TAGS, LEVEL, ORACLE_EXTRA, THEOREMS  # noqa: E402

# messages of Verus that mean: this obligation is well posed, and false or unproved
OBLIGATION = (
    "postcondition not satisfied",
    "precondition not satisfied",
    "assertion failed",
    "assertion not satisfied",
    "invariant not satisfied",
    "loop invariant not satisfied",
    "loop ensures not satisfied",
    "possible arithmetic underflow/overflow",
    "possible division by zero",
    "decreases not satisfied",
    "could not prove termination",
    "possible bit shift underflow/overflow",
    "unreachable",
    "index out of bounds",
    "trait method precondition",
    "requires not satisfied",
)
TERMINATION = ("decreases not satisfied", "could not prove termination")


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         cwd=cwd, env=env or ENV, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo(crate, sub):
    return sh(["cargo", "build", "-q", "--offline", "--release", "--manifest-path",
               os.path.join(V, crate, "Cargo.toml"), "--target-dir", os.path.join(BUILD, sub)],
              timeout=600)


def build_all():
    rc, o, e = cargo("extract", "extract")
    if rc != 0:
        raise SystemExit("building the extractor failed:\n" + e[-4000:])
    rc, o, e = cargo("oracle", "oracle")
    return rc, e


class Proof:
    """one run of extractor + verifier"""

    def __init__(self, prop, tier):
        self.dir = os.path.join(BUILD, "vx", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "norm.rs")
        self.rep = {}
        self.soft = []
        self.structure = []     # why the proof is not well posed any more
        self.failures = []      # (key, message, line, clause, tags, fn)
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.fnstats = []
        self.rendered = []
        self.probes = set()
        self.reachable = None
        self.cmd = ""
        self.complete = False
        self.prop = prop
        self.extract()
        self.fidelity = {"not_run": "no extraction"}
        self.assumed = {"not_run": "no extraction"}
        if self.rep:
            t = threading.Thread(target=self.compare, args=(tier,))
            t.start()
            self.verify(tier)
            t.join()
            if self.fidelity.get("different"):
                self.structure.append("extraction: the extracted text, compiled, behaves differently from the crate")
                self.complete = False
            if self.assumed.get("failed"):
                self.structure.append("assumptions: " + self.assumed["failed"])
                self.complete = False
            if tier == "thorough" and self.complete:
                self.vacuity()

    def extract(self):
        def run(out, env=None):
            rc, o, e = sh([EXTRACT, os.path.join(REPO, "src"), os.path.join(V, "contracts"),
                           os.path.join(self.dir, out), os.path.join(self.dir, "norm.json")], timeout=120, env=env)
            if rc != 0:
                self.structure.append("extraction failed: " + (e or o)[-600:])
            return rc == 0
        if not run("plain.rs"):
            return
        self.plain = open(os.path.join(self.dir, "plain.rs")).read().rstrip()
        self.clocked = []
        if self.prop in COST:
            # every loop iteration counts; the functions that take the ghost clock
            if not run("raw.rs", dict(ENV, VX_CLOCK="1")):
                return
            ok, self.clocked, why = clock.thread(open(os.path.join(self.dir, "raw.rs")).read(), self.out, self.dir)
            if not ok:
                self.structure.append("the clock cannot be threaded: " + " ".join(why)[:300])
        else:
            shutil.copy(os.path.join(self.dir, "plain.rs"), self.out)
        self.rep = json.load(open(os.path.join(self.dir, "norm.json")))
        for x in self.rep["errors"]:
            self.structure.append(f"errors: {x}")
        # harmless if everything verifies all the same, otherwise a reason why it does not
        self.soft = [f"lost: {x}" for x in self.rep["lost"]] + [f"no contract: {x}" for x in self.rep["uncontracted"]]
        self.text = open(self.out).read().split("\n")
        # which function a line belongs to
        self.fn_at = {}
        cur = name = None
        for i, l in enumerate(self.text, 1):
            m = re.match(r"\s*(?:pub(?:\([a-z]+\))?\s+)?(?:open |closed |uninterp |broadcast |default )*(?:const |unsafe )*(?:spec |proof |exec )?(?:const )?fn\s+([A-Za-z0-9_]+)", l)
            if m:
                name = cur = m.group(1)
            m = re.search(r"// VXFN (\S.*?)\s*$", l)
            if m:
                cur = m.group(1)
                j = i
                while j > 0 and name and not re.search(r"fn\s+" + name + r"\b", self.text[j - 1]):
                    self.fn_at[j] = cur
                    j -= 1
                if j > 0:
                    self.fn_at[j] = cur
            self.fn_at[i] = cur

    def verify(self, tier):
        args = ["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded",
                "--error-format=json", "--multiple-errors", "8"]
        args += ["--rlimit", "50", self.out]
        self.cmd = ("VX_CLOCK=1 vxextract /repo/src contracts raw.rs norm.json && clock.py raw.rs norm.rs && " if self.prop in COST
                    else "vxextract /repo/src contracts norm.rs norm.json && ") + " ".join(args[:-1]) + " norm.rs"
        rc, o, e = sh(args, timeout=700, cwd=self.dir)
        if rc is None:
            self.structure.append("verifier: time limit")
            return
        open(os.path.join(self.dir, "verus.err"), "w").write(e)
        try:
            j = json.loads(o)
        except ValueError:
            self.structure.append("verifier: no result: " + e[-400:])
            return
        r = j.get("verification-results", {})
        self.verified = r.get("verified", 0)
        self.errors = r.get("errors", 0)
        smt = j.get("times-ms", {}).get("smt", {})
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.fnstats.append((f.get("function"), f.get("mode:") or f.get("mode"), f.get("time"), f.get("rlimit"), f.get("success")))
                self.smt_ms += f.get("time", 0) or 0
        for l in e.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or d["message"].startswith("aborting due to"):
                continue
            here = [x for x in d["spans"] if os.path.basename(x["file_name"]) == "norm.rs"]
            fn = self.fn_at.get(here[0]["line_start"]) if here else None
            if d["message"] == "assertion failed" and (fn or "").startswith("vx_probe_"):
                self.probes.add(fn)
                continue
            self.rendered.append(d.get("rendered") or "")
            self.diag(d)
        if r.get("encountered-vir-error") or (not r and not self.failures):
            self.structure.append("verifier: the extracted text is rejected")
        for t in THEOREMS.get(self.prop, []):
            if t.split("::")[-1] not in set(self.fn_at.values()) and not any((k or "").endswith(t) for k in set(self.fn_at.values())):
                self.structure.append(f"theorem {t} is not in the verified text")
        # functions the verifier must reject: the contracts do not contradict each other
        self.errors -= len(self.probes)
        want = {self.fn_at[i] for i, l in enumerate(self.text, 1) if re.match(r"\s*fn vx_probe_", l)}
        if not self.structure and self.probes != want:
            self.structure.append("vacuous: the verifier accepts assert(false) in " + ", ".join(sorted(want - self.probes)))
        if self.errors or self.failures or self.structure:
            self.structure += self.soft
            for f in sorted({f["function"] for f in self.failures}, key=str):
                if f in self.rep["changed"]:
                    self.structure.append(f"undecided: {f}: {self.rep['changed'][f]}")
        self.complete = (rc is not None and self.errors == 0 and self.verified > 0
                         and not self.failures and not self.structure)

    def compare(self, tier):
        """bounded: the very text the verifier sees is compiled and run next to the
        real crate; the contracts assumed of std and memchr are run on the real functions"""
        d = os.path.join(self.dir, "run")
        os.makedirs(d)
        rc, o, e = sh([ORACLE, "assumptions"], timeout=120)
        self.assumed = {"evaluations": int((re.search(r"checked (\d+)", o) or [0, 0])[1])}
        if rc != 0:
            self.assumed["failed"] = o.strip()[:300]
        text = self.plain
        if not text.endswith("fn main() {}"):
            self.fidelity = {"not_run": "no main"}
            return
        open(os.path.join(d, "norm.rs"), "w").write(
            text[:-len("fn main() {}")] + open(os.path.join(V, "contracts/driver.rs")).read())
        rc, o, e = sh(["verus", "--no-verify", "--compile", "norm.rs", "-C", "opt-level=2"], timeout=300, cwd=d)
        if rc != 0:
            self.fidelity = {"not_run": "the extracted text does not compile: " + e[-200:]}
            return
        n = 20000 if tier == "quick" else 400000
        c, r = os.path.join(d, "cases"), os.path.join(d, "results")
        rc, o, e = sh([ORACLE, "cases", str(n), os.environ.get("VERIF_SEED", "1"), c, r], timeout=60)
        if rc != 0:
            self.fidelity = {"not_run": f"the real code ended with {rc} on the generated calls"}
            return
        rc, o, e = sh(["sh", "-c", "ulimit -v 8000000; exec ./norm < cases"], timeout=60, cwd=d)
        want = open(r).read()
        self.fidelity = {"calls": want.count("\n"), "different": 0}
        if o != want:
            a, b = want.split("\n"), o.split("\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            self.fidelity.update(different=1, exit=rc, first=[a[k][:200] if k < len(a) else "", b[k][:200] if k < len(b) else ""])
        shutil.rmtree(d, ignore_errors=True)

    def vacuity(self):
        """assert(false) at the start of every function must fail: no precondition is unsatisfiable"""
        keys = []
        out = []
        key = None
        for l in self.text:
            m = re.search(r"\{ // VXFN (\S.*?)\s*$", l)
            if m:
                key = m.group(1)
            elif key and not re.match(r"\s*(hide|reveal)\(", l):
                keys.append((len(out) + 1, key))
                l = "proof { assert(false); } " + l
                key = None
            out.append(l)
        f = os.path.join(self.dir, "probe.rs")
        open(f, "w").write("\n".join(out))
        rc, o, e = sh(["verus", "--triggers-mode", "silent", "--error-format=json", "--multiple-errors", "20", "--rlimit", "50", f],
                      timeout=700, cwd=self.dir)
        hit = set()
        for l in e.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("message") == "assertion failed":
                hit |= {x["line_start"] for x in d["spans"]}
        if not hit:
            self.reachable = {"not_run": "probe file rejected: " + e[-300:]}
            return
        ext = {f["key"] for f in self.rep["functions"] if f.get("external")}
        dead = [k for ln, k in keys if ln not in hit and k not in ext]
        self.reachable = {"functions_probed": len(keys) - len(ext), "reachable": len(keys) - len(ext) - len(dead), "not_reachable": dead}
        if dead:
            self.structure.append("vacuous: unsatisfiable precondition of " + ", ".join(dead[:5]))
            self.complete = False

    def diag(self, d):
        msg = d["message"]
        here = [s for s in d["spans"] if os.path.basename(s["file_name"]) == "norm.rs"]
        if d.get("code") or not any(msg.startswith(m) or m in msg for m in OBLIGATION):
            self.structure.append(f"verifier: {msg[:300]}" + (f" (line {here[0]['line_start']}: {self.text[here[0]['line_start']-1].strip()[:120]})" if here else ""))
            return
        # the function whose obligation it is
        fn = None
        for s in here:
            if s.get("label") and ("exit" in s["label"] or "end of the function" in s["label"]):
                fn = self.fn_at.get(s["line_start"])
        if fn is None:
            for s in here:
                if s["is_primary"]:
                    fn = self.fn_at.get(s["line_start"])
        clause, line, tags = "", 0, []
        order = sorted(here, key=lambda s: 0 if (s.get("label") or "").startswith("failed") else 1)
        for s in order:
            for ln in range(s["line_start"], s["line_end"] + 1):
                m = re.search(r"//\[([A-Z0-9, ]+)\]", self.text[ln - 1])
                if m and not tags:
                    tags = [t.strip() for t in m.group(1).split(",")]
            if not clause:
                line = s["line_start"]
                clause = " ".join(x.strip() for x in self.text[s["line_start"] - 1:min(s["line_end"], s["line_start"] + 3)])
        if not tags and self.prop in COST and any(re.search(r"\bvx_clk\b|\bck_\w", self.text[k - 1])
                                                  for x in order for k in range(x["line_start"], x["line_end"] + 1)):
            tags = [self.prop]
        if not tags:
            if any(t in msg for t in TERMINATION):
                tags = ["C18"]
            elif "overflow" in msg or "division" in msg or "bounds" in msg or "unreachable" in msg or \
                    (msg.startswith("precondition") and not any((s.get("label") or "").startswith("failed pre") for s in here)):
                tags = ["C17"]
            else:
                tags = sorted(self.tags_of(fn))
        self.failures.append({"function": fn, "obligation": msg, "line": line, "clause": clause,
                              "properties": tags, "at": [self.text[s["line_start"] - 1].strip()[:160] for s in here]})

    def tags_of(self, fn):
        t = set()
        for i, l in enumerate(self.text, 1):
            if self.fn_at.get(i) == fn:
                m = re.search(r"//\[([A-Z0-9, ]+)\]", l)
                if m:
                    t |= {x.strip() for x in m.group(1).split(",")}
        for pat, ts in FN_TAGS:
            if not t and re.search(pat, fn or ""):
                t = set(ts)
        return t or {"C17"}

    def trusted(self):
        t = []
        pat = re.compile(r"external_body|assume_specification|\badmit\(|\bassume\(|uninterp spec fn|external_fn_specification|axiom ")
        i = 0
        while i < len(self.text):
            l = self.text[i].strip()
            if pat.search(l) and not l.startswith("//"):
                nxt = ""
                if l.startswith("#["):
                    for k in range(i + 1, min(i + 6, len(self.text))):
                        x = self.text[k].strip()
                        if x and not x.startswith("#["):
                            nxt = " " + x
                            break
                t.append((l + nxt)[:170])
            i += 1
        return sorted(set(t))


def oracle(prop, seconds, seed, out):
    rc, o, e = sh([ORACLE, "search", prop, str(seconds), str(seed), out], timeout=seconds + 120)
    r = {"rc": rc, "cases": 0, "nontrivial": 0, "samples": [], "why": ""}
    for l in o.splitlines():
        k, _, v = l.partition(" ")
        if k in ("cases", "nontrivial"):
            r[k] = int(v)
        elif k == "sample":
            r["samples"].append(v[:600])
        elif k == "why":
            r["why"] = v
    if rc not in (0, 1):
        r["why"] = f"the oracle ended with {rc}: {e[-500:]}"
        # the code under test took the process down: once more, with every
        # input written down first, and each last one tried on its own
        log = out + ".cur"
        sh([ORACLE, "search", prop, str(seconds), str(seed), out], timeout=seconds + 120, env=dict(ENV, VX_LOG=log))
        for f in sorted(glob.glob(log + ".*")):
            if r["rc"] != 1:
                rc, o, e = sh([ORACLE, "replay", f], timeout=60)
                if rc != 0:
                    shutil.copy(f, out)
                    r["rc"] = 1
                    r["why"] = f"on this input the process ends with {rc}"
            os.remove(f)
    return r


def known(prop):
    ks = []
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            ks.append((m.group(2), m.group(3)))
    return ks


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evid = os.path.join(V, "evidence")
    os.makedirs(evid, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    replay = os.path.join(evid, f"replay-{prop}.txt")
    if os.path.exists(replay):
        os.remove(replay)

    orc, oerr = build_all()
    if orc != 0:
        print("the oracle does not build against /repo:\n" + oerr[-3000:])
        raise SystemExit(2)
    pr = Proof(prop, tier)
    mine = [f for f in pr.failures if prop in f["properties"]]
    # ---- known findings
    for kid, what in known(prop):
        if kid == "casefold":
            rc, o, e = sh([ORACLE, "casefold"], timeout=60)
            if o.strip() == "false":
                print(f"KNOWN-FINDING: property={prop} {what}")

    # ---- bounded search on the real code
    violation = None
    runs = []
    extra = ORACLE_EXTRA.get(prop)
    exhaustive = None
    if extra:
        rc, o, e = sh([ORACLE, extra], timeout=300)
        exhaustive = o.strip().splitlines()[-1] if o.strip() else ""
        if rc != 0:
            open(replay, "w").write(f"# replay with: {ORACLE} {extra}\n" + o)
            violation = f"VIOLATION property={prop} replay={replay}"
    base = 10 if tier == "quick" else 240
    if not violation:
        r = oracle(prop, base, seed, replay)
        runs.append(r)
        if r["rc"] == 1:
            violation = f"VIOLATION property={prop} replay={replay}"
    if not violation and not pr.complete:
        # the proof did not go through: look much longer for a failing input
        r = oracle(prop, 100 if tier == "quick" else 300, seed + 1000, replay)
        runs.append(r)
        if r["rc"] == 1:
            violation = f"VIOLATION property={prop} replay={replay}"
    for r in runs:
        if r["rc"] not in (0, 1):
            print(r["why"])
            raise SystemExit(2)
    if violation:
        # the failing input was found by running the real code; the obligations
        # that failed with it go to the replay file as well
        with open(replay, "a") as f:
            for x in mine or pr.failures[:3]:
                f.write("# failed obligation: " + json.dumps(x).replace("\n", " ") + "\n")
            for x in pr.structure[:3]:
                f.write("# not well posed: " + x.replace("\n", " ") + "\n")
    elif mine and not pr.structure:
        with open(replay, "w") as f:
            f.write(f"# property {prop}: obligations of /repo's current source the verifier no longer discharges\n")
            f.write("# no failing input was found; " + f"{sum(r['cases'] for r in runs)} inputs were tried\n")
            f.write("# command: " + pr.cmd + "\n\n")
            for x in mine:
                f.write(json.dumps(x, indent=1) + "\n")
            f.write("\n# verifier output\n" + "\n".join(pr.rendered) + "\n")
        violation = f"VIOLATION property={prop} replay={replay} no-failing-input-found"

    # ---- evidence
    fns = pr.rep.get("functions", [])
    under = [f["key"] for f in fns if f.get("contract") and not f.get("external")]
    ext = [f["key"] for f in fns if f.get("external")]
    cov = {
        "obligations": pr.verified + pr.errors,
        "discharged": pr.verified,
        "checker_cmd": pr.cmd,
        "trusted_base": pr.trusted() if pr.rep else [],
        "theorems": THEOREMS.get(prop, []),
        "functions_under_contract": under,
        "functions_with_clock": getattr(pr, "clocked", []),
        "functions_external": ext,
        "functions_not_under_contract": pr.rep.get("uncontracted", []),
        "clauses_of_this_property": sum(1 for l in getattr(pr, "text", []) if re.search(r"//\[[^\]]*" + prop + r"\b", l)),
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": pr.smt_ms,
        "slowest": [list(x) for x in sorted(pr.fnstats, key=lambda x: -(x[2] or 0))[:5]],
        "proof_complete": pr.complete,
        "vacuity": {"probes_rejected_as_they_must_be": sorted(pr.probes), "preconditions": pr.reachable},
        "extraction_compared": dict(pr.fidelity, label="bounded: the extracted text, compiled, against the real crate on generated calls"),
        "assumed_contracts_tested": dict(pr.assumed, label="bounded: contracts assumed of std and memchr, on the real functions (all chars, short and random slices)"),
        "not_well_posed": pr.structure[:20],
        "aligned": pr.rep.get("aligned", []),
        "hints_not_placed": pr.soft[:20],
        "failed_obligations": pr.failures[:20],
        "extraction_drops": pr.rep.get("dropped", []),
        "bounded_supplement": {
            "label": "bounded: search for a failing input on the real code; not counted as proved",
            "evaluations": sum(r["cases"] for r in runs),
            "distinct_nontrivial": sum(r["nontrivial"] for r in runs),
            "rule": "random and small-scope calls with random settings histories, compared with the executable reference; non-trivial = non-empty query and candidate",
            "samples": [s for r in runs for s in r["samples"]][:2],
            "exhaustive": exhaustive,
        },
    }
    cov["evaluations"] = cov["bounded_supplement"]["evaluations"]
    cov["distinct_nontrivial"] = cov["bounded_supplement"]["distinct_nontrivial"]
    cov["rule"] = cov["bounded_supplement"]["rule"]
    cov["samples"] = cov["bounded_supplement"]["samples"]
    level = LEVEL[prop] if pr.complete else "exploration"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": [
            "Verus, vstd, Z3 and rustc are correct",
            "the extractor's rewriting (DESIGN.md, Extraction) preserves the meaning of the functions",
            "queries and candidates have at most 2^28 characters",
        ] + ASSUME.get(prop, []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)
    print(f"{prop}: {pr.verified} obligations discharged, {pr.errors} failed"
          + (f"; not well posed: {pr.structure[0]}" if pr.structure else "")
          + f"; {cov['evaluations']} inputs tried (bounded); {ev['wall_s']} s")
    for f in pr.failures[:5]:
        print(f"  failed: {f['function']}: {f['obligation']}: {f['clause'][:120]} {f['properties']}")
    if violation:
        if runs and runs[-1]["why"]:
            print("  " + runs[-1]["why"][:500])
        print(violation)
        raise SystemExit(1)
    raise SystemExit(0)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        rc, e = build_all()
        if rc != 0:
            print(e)
        raise SystemExit(0 if rc == 0 else 2)
    main()
