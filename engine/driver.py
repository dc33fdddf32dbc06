"""Runs one property's symbolic harnesses, replays counterexamples natively, writes evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
import build
from build import VERIF, REPO, SRC

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:len(names)]

def load_known():
    p = VERIF + "/known-findings.json"
    return json.load(open(p)) if os.path.exists(p) else []

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cases, self.fns = [], []
        self.viol, self.known, self.notes = [], [], []
        self.traces_ok = 0; self.trace_bad = []
        self.samples = []
        self.assumptions = []
        self.errors = []
        self.extra = {}
        self.known_list = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
        os.makedirs(VERIF + "/.work", exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % pid, dir=VERIF + "/.work")
        self.replays = VERIF + "/.work/replays"
        os.makedirs(self.replays, exist_ok=True)
        self.vn = 0
        self.hangs = 0

    # ---- symbolic C++ engine
    def symbolic(self, harness, srcs, quick=40, thorough=400, extra=(), jobs=8, rlimit=None):
        budget = quick if self.tier == "quick" else thorough
        exe, fnmap = build.build_symbolic(harness, srcs, extra)
        out = self.work + "/r-%s.json" % harness.replace("/", "_")
        scratch = self.work + "/s"; os.makedirs(scratch, exist_ok=True)
        cmd = [exe, "--out", out, "--budget", str(budget), "--jobs", str(jobs), "--scratch", scratch, "--repo", REPO]
        if rlimit: cmd += ["--rlimit", str(rlimit)]
        if self.tier == "thorough": cmd.append("--thorough")
        if os.environ.get("ZV_CASE"): cmd += ["--case", os.environ["ZV_CASE"]]
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget * 40 + 200)
        res = json.load(open(out))
        ids = [i for i in res["fns"] if i in fnmap]
        dm = demangle([fnmap[i][0] for i in ids])
        mine = set()
        for i, n in zip(ids, dm):
            if re.match(r"(void |bool |int |double )?(std::|__gnu_cxx::|operator new|__cxx|_GLOBAL_|__clang)", n) or "boost" in n: continue
            mine.add("%s [%s]" % (n, fnmap[i][1]))
        self.fns = sorted(set(self.fns) | mine)
        rep = None
        def replayer():
            nonlocal rep
            if rep is None: rep = build.build_replay(harness, srcs, extra)
            return rep
        for c in res["cases"]:
            c["harness"] = harness
            for v in c["violations"]:
                self.handle_violation(c, v, replayer())
            if not c["violations"]:
                # a path still running when the time was up: does the real code, on the same inputs, ever finish?
                for m in c.get("hang", []):
                    if self.hangs >= 2: break
                    st, msg, f = self.replay(replayer(), c["name"], m, "# property %s case %s\n# does not finish\n" % (self.pid, c["name"]))
                    if st == "timeout" or "hard rss limit" in msg:
                        self.hangs += 1
                        c["violations"].append(m)
                        self.report(c["name"], "the run does not finish (native execution still running after 60 s, or out of memory)", f)
                        break
            if not c["violations"] and not os.environ.get("ZV_NOSAMPLES"):
                for k, smp in enumerate(c["samples"][: 3 if self.tier == "quick" else 6]):
                    st, msg, _ = self.replay(replayer(), c["name"], smp, "")
                    if st == "ok": self.traces_ok += 1
                    elif st == "violation": self.trace_bad.append("%s: %s" % (c["name"], msg[:300]))
                    if k == 0: self.samples.append({"case": c["name"], "inputs": smp.strip().split("\n")[:40], "native_replay": st})
            self.cases.append({k: v for k, v in c.items() if k not in ("violations", "samples", "hang")})
            if c["asserts"] == 0 and not c["violations"]:
                self.errors.append("case %s of %s discharged no assertion (paths %d, truncated %d, unsupported %d %s)" % (c["name"], harness, c["paths"], c["truncated"], c["unsupported"], c["unsupported_what"]))

    def replay(self, exe, case, model, header):
        self.vn += 1
        f = self.replays + "/%s-%s-%d.txt" % (self.pid, case, self.vn)
        open(f, "w").write(header + model)
        scratch = tempfile.mkdtemp(prefix="rp-", dir=self.work)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:hard_rss_limit_mb=6000")
        cmd = [exe, "--case", case, "--values", f, "--scratch", scratch, "--repo", REPO]
        if self.tier == "thorough": cmd.append("--thorough")
        try:
            with open(scratch + ".err", "wb") as ef:
                r = subprocess.run(["prlimit", "--fsize=400000000"] + cmd, stdout=subprocess.DEVNULL, stderr=ef, timeout=90, env=env, cwd=scratch)
        except subprocess.TimeoutExpired:
            return "timeout", "", f
        with open(scratch + ".err", "rb") as ef: err = ef.read(4000000).decode(errors="replace")
        shutil.rmtree(scratch, ignore_errors=True)
        m = re.search(r"REPLAY-VIOLATION (.*)", err)
        if m: return "violation", m.group(1), f
        if r.returncode == 77 or "AddressSanitizer" in err:
            m = re.search(r"AddressSanitizer: (.*)", err)
            return "violation", "memory error: " + (m.group(1)[:160] if m else "?"), f
        if r.returncode in (-4, -6, -7, -8, -11): return "violation", "crash: killed by signal %d" % -r.returncode, f
        if r.returncode == 4 and "REPLAY-TIMEOUT" in err: return "timeout", "", f
        if r.returncode == 3: return "assume", "", f
        if r.returncode == 0: return "ok", "", f
        return "other", "exit %d %s" % (r.returncode, err[-200:]), f

    def handle_violation(self, c, v, exe):
        head = "# property %s case %s\n# %s\n# replay: %s --case %s --values <this file> --scratch <dir> --repo %s\n" % (self.pid, c["name"], v["msg"], exe, c["name"], REPO)
        st, msg, f = self.replay(exe, c["name"], v["model"], head)
        if st != "violation":
            self.notes.append("unconfirmed solver counterexample in %s: %s (native replay: %s %s)" % (c["name"], v["msg"], st, msg))
            return
        self.report(c["name"], "%s | native: %s" % (v["msg"], msg), f)

    def report(self, case, msg, path):
        for k in self.known_list:
            if re.search(k["case"], case) and re.search(k["match"], msg):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        self.viol.append((case, msg, path))

    def finish(self, level="model_checking"):
        # known findings
        for w in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        seen = set()
        for case, msg, path in self.viol:
            if (case, msg) in seen: continue
            seen.add((case, msg))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  case %s: %s" % (case, msg[:500]))
        for n in self.notes + self.trace_bad + self.errors: print("note: " + n[:400])
        tot = lambda k: sum(c.get(k, 0) for c in self.cases)
        cov = {
            "states": tot("paths") + self.extra.get("states", 0),
            "transitions": tot("steps") + self.extra.get("transitions", 0),
            "traces_validated_against_impl": self.traces_ok + self.extra.get("traces", 0),
            "samples": self.samples[:12] if self.samples else [{"note": "no symbolic-input case completed"}],
            "meaning": "states = symbolic execution paths of the real code explored to their end; transitions = branch conditions decided by the solver; traces_validated = models of explored paths re-executed on an ordinary ASan build of the same sources with the same outcome",
            "cases": self.cases,
            "functions_encoded": self.fns,
            "functions_encoded_count": len(self.fns),
            "solver_queries": tot("queries") + self.extra.get("queries", 0),
            "solver_seconds": round(tot("query_s") + self.extra.get("solver_s", 0), 3),
            "assertions_discharged": tot("proved"),
            "assertions_unknown": tot("unproved"),
            "paths_truncated_by_time_budget": tot("truncated"),
            "paths_unsupported": tot("unsupported"),
            "unconfirmed_counterexamples": self.notes,
            "sample_replay_disagreements": self.trace_bad,
            "known_findings_seen": self.known,
            "vacuity": self.errors,
        }
        for k, v in self.extra.items():
            if k not in ("states", "transitions", "traces", "queries", "solver_s"): cov[k] = v
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(seen)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        open(VERIF + "/evidence/%s.json" % self.pid, "w").write(json.dumps(ev, indent=1) + "\n")
        shutil.rmtree(self.work, ignore_errors=True)
        rc = 1 if seen else (2 if self.errors else 0)
        print("%s %s: %s  paths=%d asserts=%d queries=%d truncated=%d unsupported=%d unknown=%d wall=%.1fs" % (
            self.pid, self.tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], cov["states"], cov["assertions_discharged"], cov["solver_queries"],
            cov["paths_truncated_by_time_budget"], cov["paths_unsupported"], cov["assertions_unknown"], time.time() - self.t0))
        return rc
