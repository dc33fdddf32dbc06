"""Decides harness cases with CBMC: C++ functions are translated from clang's IR (irc.py), C sources are taken as they are."""
import json, os, re, subprocess, time, concurrent.futures as cf
import build, irc
from build import VERIF, REPO, SRC
H = VERIF + "/harness"
def cases(path):
    t = open(path).read(); out = []
    for m in re.finditer(r'^CASE\((\w+),\s*"((?:[^"\\]|\\.)*)",\s*"([^"]*)",\s*"([^"]*)"\)', t, re.M): out.append(m.groups())
    return out
def run(r, harness, cxx=(), csrc=(), incs=(), defs=(), quick=120, thorough=500, native_libs=(), stubs=()):
    """cxx: [(source relative to src, [functions], clang flags)], csrc: C sources relative to src"""
    w = r.work + "/cb-" + harness.replace(".", "_"); os.makedirs(w, exist_ok=True)
    inc = [SRC + "/" + i for i in incs]; files = []; fns = []; ext = []; names = {}; hdrs = []
    for i, (src, wanted, flags) in enumerate(cxx):
        try: c, nm, done, ex = irc.translate(SRC + "/" + src, inc, wanted, flags)
        except irc.Err as e:
            r.errors.append("cannot encode %s: %s" % (src, e)); return
        hdrs.append(irc.header); f = "%s/t%d.c" % (w, i); open(f, "w").write(c); files.append(f); fns += ["%s [src/%s]" % (d, src) for d in done]; ext += ex; names.update(nm)
    if cxx: open(w + "/enc.h", "w").write(hdrs[0])
    r.fns = sorted(set(r.fns) | set(fns))
    for c in csrc: files.append(SRC + "/" + c)
    defs = list(defs) + (["-DTHOROUGH"] if r.tier == "thorough" else [])
    src_inc = sum([["-I", x] for x in inc + [H]], [])
    lim = quick if r.tier == "quick" else thorough
    def one(cs):
        name, desc, oq, ot = cs; t0 = time.time()
        cmd = ["cbmc", H + "/" + harness] + files + src_inc + ["-I", w] + ["-D__CPROVER"] + defs + ["--function", "case_" + name, "--json-ui", "--verbosity", "8", "--trace", "--no-standard-checks", "--pointer-check", "--bounds-check", "--unwinding-assertions", "--drop-unused-functions"] + (ot if r.tier == "thorough" and ot else oq).split()
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=lim)
        except subprocess.TimeoutExpired: return cs, None, time.time() - t0, "time limit"
        try: return cs, json.loads(p.stdout), time.time() - t0, p.stderr[-300:]
        except ValueError: return cs, None, time.time() - t0, (p.stdout + p.stderr)[-600:]
    exe = [None]
    def native():
        if exe[0]: return exe[0]
        objs = []; san = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
        for i, (src, _, flags) in enumerate(cxx):
            o = "%s/n%d.o" % (w, i); x = subprocess.run(["g++", "-std=gnu++14", "-fpermissive", "-c", SRC + "/" + src, "-o", o] + san + src_inc + [f for f in flags if f.startswith(("-D", "-I", "-include"))], stderr=subprocess.PIPE, text=True)
            if x.returncode: raise build.BuildError(x.stderr[-500:])
            objs.append(o)
        tab = w + "/main.c"; cs = cases(H + "/" + harness)
        open(tab, "w").write('#include "%s/%s"\nMAIN_TABLE\nstruct cb_case cb_cases[] = {%s {0, 0}};\n' % (H, harness, "".join('{"%s", case_%s}, ' % (c[0], c[0]) for c in cs)))
        x = subprocess.run(["gcc", "-std=gnu11", "-c", tab, "-o", w + "/main.o"] + san + src_inc + list(defs), stderr=subprocess.PIPE, text=True)
        if x.returncode: raise build.BuildError(x.stderr[-500:])
        for i, c in enumerate(csrc):
            o = "%s/c%d.o" % (w, i); x = subprocess.run(["gcc", "-c", SRC + "/" + c, "-o", o] + san + src_inc + list(defs), stderr=subprocess.PIPE, text=True)
            if x.returncode: raise build.BuildError(x.stderr[-500:])
            objs.append(o)
        x = subprocess.run(["g++", "-fsanitize=address", w + "/main.o"] + objs + list(native_libs) + ["-o", w + "/native"], stderr=subprocess.PIPE, text=True)
        if x.returncode: raise build.BuildError(x.stderr[-700:])
        exe[0] = w + "/native"; return exe[0]
    todo = cases(H + "/" + harness)
    if os.environ.get("ZV_CASE"): todo = [c for c in todo if c[0] == os.environ["ZV_CASE"]]
    with cf.ThreadPoolExecutor(8) as ex_:
        res = list(ex_.map(one, todo))
    for (name, desc, oq, ot), js, dt, err in res:
        c = dict(name=name, desc=desc, harness=harness, paths=0, steps=0, asserts=0, proved=0, queries=0, query_s=0.0, truncated=0, unsupported=0, unsupported_what="", unproved=0, bounds=(ot if r.tier == "thorough" and ot else oq), seconds=round(dt, 2), engine="cbmc")
        if js is None:
            if err == "time limit": c["truncated"] = 1
            else: r.errors.append("cbmc gave no answer on %s: %s" % (name, err))
            r.cases.append(c); continue
        results = []
        for e in js:
            if "result" in e: results = e["result"]
            t = e.get("messageText", "") if isinstance(e, dict) else ""
            m = re.search(r"size of program expression: (\d+)", t)
            if m: c["steps"] = int(m.group(1))
            m = re.search(r"Runtime Solver: ([\d.e+-]+)s", t, re.I)
            if m: c["query_s"] += float(m.group(1)); c["queries"] += 1
            if "error" in str(e.get("messageType", "")).lower(): err += t
        if not results: r.errors.append("cbmc gave no result on %s: %s" % (name, err[-300:])); r.cases.append(c); continue
        c["paths"] = 1; covered = set(); want = set(); bad = []
        for p in results:
            d = p["description"]; st = p["status"]
            if d.startswith("COVER "):
                want.add(d[6:]); 
                if st == "FAILURE": covered.add(d[6:])
            elif "unwinding assertion" in d or "recursion unwinding" in d:
                if st != "SUCCESS": c["truncated"] += 1
            elif st == "SUCCESS": c["asserts"] += 1; c["proved"] += 1
            elif st == "FAILURE": c["asserts"] += 1; bad.append(p)
            else: c["unproved"] += 1
        c["cover"] = sorted(covered); miss = want - covered
        if miss and not bad: r.errors.append("case %s of %s never reaches: %s" % (name, harness, ", ".join(miss)))
        for p in bad[:3]:
            vals = {}
            for s in p.get("trace", []):
                m = re.match(r"in_val\[\(?(?:signed long int\)?)?(\d+)l*\]", str(s.get("lhs", "")))
                if m and "value" in s and "binary" in s["value"]: vals[int(m.group(1))] = int(s["value"]["binary"], 2)
            r.vn += 1; f = "%s/%s-%s-%d.txt" % (r.replays, r.pid, name, r.vn)
            open(f, "w").write("# property %s case %s\n# %s\n# inputs in the order they are drawn (bit patterns)\n" % (r.pid, name, p["description"]) + "".join("in %d %x\n" % kv for kv in sorted(vals.items())))
            try:
                x = subprocess.run([native(), name, f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77"), cwd=w); e = x.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired: e = "REPLAY-VIOLATION does not finish"; x = None
            m = re.search(r"REPLAY-VIOLATION (.*)", e)
            if m: r.report(name, "%s | native: %s" % (p["description"], m.group(1)), f)
            elif "AddressSanitizer" in e: r.report(name, "%s | native: memory error %s" % (p["description"], re.search(r"AddressSanitizer: (.*)", e).group(1)[:140]), f)
            elif x is not None and x.returncode < 0: r.report(name, "%s | native: signal %d" % (p["description"], -x.returncode), f)
            else: c["unproved"] += 1; r.notes.append("unconfirmed cbmc counterexample in %s: %s (native rc %s)" % (name, p["description"], x.returncode if x else "?"))
        r.cases.append(c)
        r.samples.append({"case": name, "inputs": [desc], "native_replay": "not needed: all assertions proved" if not bad else "see violations"})
