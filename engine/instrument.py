#!/usr/bin/env python3
"""Rewrites textual LLVM IR so that every double operation goes through the
symbolic runtime (symrt.cc).  Usage: instrument.py in.ll out.ll fnmap.txt id_base

A symbolic double is a quiet NaN whose payload is an index into the runtime's
term table, so all other code (STL containers, sorting, copying) runs natively
and unchanged."""
import re, sys

BIN = {"fadd": "__s_fadd", "fsub": "__s_fsub", "fmul": "__s_fmul", "fdiv": "__s_fdiv", "frem": "__s_frem"}
PRED = {"false":0,"oeq":1,"ogt":2,"oge":3,"olt":4,"ole":5,"one":6,"ord":7,
        "uno":8,"ueq":9,"ugt":10,"uge":11,"ult":12,"ule":13,"une":14,"true":15}
FMF = r"(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*"
LIBM1 = ["log","exp","sqrt","floor","ceil","fabs","log10","log2","trunc","round","rint","nearbyint","sin","cos","tan","exp2","cbrt","log1p","expm1","atan","sinh","cosh","tanh","asin","acos","asinh","acosh","atanh","erf","erfc","tgamma","lgamma","logb","frexp","ilogb","ldexp","modf"]
LIBM2 = ["pow","fmod","fmax","fmin","hypot","atan2","remainder","nextafter","fdim"]
INTR1 = {"llvm.fabs.f64":"fabs","llvm.sqrt.f64":"sqrt","llvm.floor.f64":"floor","llvm.ceil.f64":"ceil",
         "llvm.log.f64":"log","llvm.exp.f64":"exp","llvm.trunc.f64":"trunc","llvm.round.f64":"round","llvm.rint.f64":"rint","llvm.log10.f64":"log10","llvm.log2.f64":"log2","llvm.nearbyint.f64":"nearbyint","llvm.exp2.f64":"exp2","llvm.sin.f64":"sin","llvm.cos.f64":"cos"}
INTR2 = {"llvm.pow.f64":"pow","llvm.maxnum.f64":"fmax","llvm.minnum.f64":"fmin","llvm.maximum.f64":"fmax","llvm.minimum.f64":"fmin"}
# library functions whose semantics involve doubles hidden from the IR
RENAME = {
  "atof":"__s_atof","strtod":"__s_strtod","__isoc23_strtod":"__s_strtod",
  "snprintf":"__s_snprintf","sprintf":"__s_sprintf","sscanf":"__s_sscanf","__isoc99_sscanf":"__s_sscanf","__isoc23_sscanf":"__s_sscanf",
  "fscanf":"__s_fscanf","__isoc99_fscanf":"__s_fscanf","__isoc23_fscanf":"__s_fscanf","scanf":"__s_scanf","__isoc99_scanf":"__s_scanf","__isoc23_scanf":"__s_scanf",
  "vsscanf":"__s_vsscanf","__isoc99_vsscanf":"__s_vsscanf","__isoc23_vsscanf":"__s_vsscanf","vfscanf":"__s_vfscanf","__isoc99_vfscanf":"__s_vfscanf","__isoc23_vfscanf":"__s_vfscanf",
  "strtold":"__s_strtold","__isoc23_strtold":"__s_strtold","scalbn":"__s_ldexp","llvm.ldexp.f64.i32":"__s_ldexp",
  "vsnprintf":"__s_vsnprintf","vsprintf":"__s_vsprintf","vfprintf":"__s_vfprintf","strtof":"__s_strtof",
  "lround":"__s_lround","llround":"__s_lround","lrint":"__s_lrint","llrint":"__s_lrint","llvm.lround.i64.f64":"__s_lround","llvm.lrint.i64.f64":"__s_lrint",
  "random":"__s_random","clock_gettime":"__s_clock_gettime","_ZNSt6chrono3_V212steady_clock3nowEv":"__s_chrono","_ZNSt6chrono3_V212system_clock3nowEv":"__s_chrono",
  "fprintf":"__s_fprintf","printf":"__s_printf",
  "rand":"__s_rand","srand":"__s_srand","gettimeofday":"__s_gettimeofday","time":"__s_time",
  "__assert_fail":"__s_assert_fail","exit":"__s_exit","abort":"__s_abort","_exit":"__s_exit",
  "_ZNSolsEd":"__s_ostream_lsd","_ZNSo9_M_insertIdEERSoT_":"__s_ostream_lsd","_ZNSirsERd":"__s_istream_rsd","_ZNSi10_M_extractIdEERSiRT_":"__s_istream_rsd",
  "usleep":"__s_usleep","nanosleep":"__s_nanosleep","sleep":"__s_sleep","select":"__s_select",
}
for f in LIBM1 + LIBM2: RENAME[f] = "__s_" + f
for k, v in INTR1.items(): RENAME[k] = "__s_" + v
for k, v in INTR2.items(): RENAME[k] = "__s_" + v
RENAME["llvm.fmuladd.f64"] = "__s_fmuladd"
RENAME["llvm.fma.f64"] = "__s_fmuladd"
RENAME["copysign"] = "__s_copysign"; RENAME["fma"] = "__s_fmuladd"
RENAME["llvm.copysign.f64"] = "__s_copysign"
RENAME["llvm.is.fpclass.f64"] = "__s_fpclass"

DECLS = ["declare double @__s_fadd(double, double)","declare double @__s_fsub(double, double)",
 "declare double @__s_fmul(double, double)","declare double @__s_fdiv(double, double)","declare double @__s_frem(double, double)",
 "declare double @__s_fneg(double)","declare i32 @__s_fcmp(i32, double, double)","declare i64 @__s_fptosi(double)",
 "declare i64 @__s_fptoui(double)","declare double @__s_sitofp(i64)","declare float @__s_fptrunc(double)","declare double @__s_pin(double)","declare i64 @__s_signbits(double)",
 "declare void @__s_fn(i32)","declare double @__s_dsel(i32, double, double, double, double)"]

call_re = re.compile(r"^(\s*)(%\S+ = )?((?:tail |musttail |notail )?)(call|invoke) (.*)$")

def merge_selects(lines):
    """fcmp whose result only feeds selects of doubles -> one runtime call per select (no fork)."""
    res = {}
    i = 0
    while i < len(lines):
        if not lines[i].startswith("define "): i += 1; continue
        j = i
        while lines[j] != "}": j += 1
        cmp = {}
        for k in range(i, j):
            m = re.match(r"^\s*(%\S+) = fcmp "+FMF+r"(\w+) double (.+?), (.+?)(?:, !.*)?$", lines[k])
            if m: cmp[m.group(1)] = (k, PRED[m.group(2)], m.group(3), m.group(4))
        if cmp:
            uses = {c: 0 for c in cmp}; sel = {c: [] for c in cmp}
            for k in range(i, j):
                for tok in re.findall(r"%[\w.$-]+|%\"[^\"]*\"", lines[k]):
                    if tok in uses: uses[tok] += 1
                m = re.match(r"^\s*(%\S+) = select "+FMF+r"i1 (%\S+), double (\S+), double (\S+?)(?:, !.*)?$", lines[k])
                if m and m.group(2) in cmp: sel[m.group(2)].append((k, m.group(1), m.group(3), m.group(4)))
            for c, (k, p, a, b) in cmp.items():
                if sel[c] and uses[c] == 1 + len(sel[c]):
                    res[k] = None
                    for (k2, r, x, y) in sel[c]:
                        res[k2] = "  %s = call double @__s_dsel(i32 %d, double %s, double %s, double %s, double %s)" % (r, p, a, b, x, y)
        i = j
    return res

def sign_tests(lines):
    """a double looked at as an integer only for its sign bit"""
    res = {}
    for k, l in enumerate(lines):
        m = re.match(r"^\s*(%\S+) = bitcast double (\S+) to i64(?:, !.*)?$", l)
        if not m: continue
        r = m.group(1); ok = True; j = k + 1
        while lines[j] != "}":
            if re.search(re.escape(r) + r"(?![\w.$-])", lines[j]) and not re.match(r"^\s*%\S+ = (icmp (slt|sgt) i64 @, (0|-1)|[la]shr i64 @, 63)(?:, !.*)?$".replace("@", re.escape(r)), lines[j]): ok = False; break
            j += 1
        if ok: res[k] = "  %s = call i64 @__s_signbits(double %s)" % (r, m.group(2))
    return res

def main():
    src, dst, fnmap, base = sys.argv[1:5]
    keep = set()
    if len(sys.argv) > 5: keep = set(sys.argv[5].split(","))   # functions not to rename
    fid = int(base)
    out, fns = [], []
    n = 0
    used = set()
    renamed_decl = set()
    pend = None
    fnname = None
    lines = [l.rstrip("\n") for l in open(src)]
    merged = merge_selects(lines)
    merged.update(sign_tests(lines))
    for ln, s in enumerate(lines):
        if ln in merged:
            if merged[ln] is not None: out.append(merged[ln])
            continue
        if s.startswith("define "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", s)
            fnname = m.group(1).strip('"')
            out.append(s)
            if s.endswith("{"):
                pend = fnname
            continue
        if pend is not None:
            st = s.strip()
            if st == "" or re.match(r"^[\w.$\"-]+:", st):
                out.append(s); continue
            fns.append((fid, pend)); 
            out.append("  call void @__s_fn(i32 %d)" % fid); fid += 1
            pend = None
        t = s.lstrip()
        # declarations of renamed functions are re-declared without attributes
        if t.startswith("declare "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", s)
            nm = m.group(1).strip('"')
            if nm in RENAME and nm not in keep:
                nn = RENAME[nm]
                if nn in renamed_decl: continue
                renamed_decl.add(nn)
                s2 = re.sub(r"\)\s*(local_unnamed_addr|unnamed_addr)?\s*(#\d+)?\s*$", ")", s)
                s2 = s2.replace("@"+m.group(1)+"(", "@"+nn+"(")
                s2 = re.sub(r"\b(noundef|nocapture|readonly|writeonly|immarg|nonnull|noalias|range\([^)]*\)) ?", "", s2)
                out.append(s2); continue
            out.append(s); continue
        if " = f" in s or "fcmp" in s or "fptosi" in s or "fptoui" in s or "itofp" in s:
            m = re.match(r"^\s*(%\S+) = (fadd|fsub|fmul|fdiv|frem) "+FMF+r"(\S+) (.+?), (.+?)(?:, !.*)?$", s)
            if m:
                r, op, ty, a, b = m.groups()
                if ty != "double": out.append(s); continue
                out.append("  %s = call double @%s(double %s, double %s)" % (r, BIN[op], a, b)); continue
            m = re.match(r"^\s*(%\S+) = fneg "+FMF+r"(\S+) (.+?)(?:, !.*)?$", s)
            if m:
                r, ty, a = m.groups()
                if ty != "double": out.append(s); continue
                out.append("  %s = call double @__s_fneg(double %s)" % (r, a)); continue
            m = re.match(r"^\s*(%\S+) = fcmp "+FMF+r"(\w+) (\S+) (.+?), (.+?)(?:, !.*)?$", s)
            if m:
                r, pr, ty, a, b = m.groups()
                if ty != "double": out.append(s); continue
                n += 1
                out.append("  %%__sc%d = call i32 @__s_fcmp(i32 %d, double %s, double %s)" % (n, PRED[pr], a, b))
                out.append("  %s = icmp ne i32 %%__sc%d, 0" % (r, n)); continue
            m = re.match(r"^\s*(%\S+) = (fptosi|fptoui) (\S+) (.+?) to (\w+)(?:, !.*)?$", s)
            if m:
                r, op, ty, a, to = m.groups()
                if ty != "double": out.append(s); continue
                if to == "i64":
                    out.append("  %s = call i64 @__s_%s(double %s)" % (r, op, a))
                else:
                    n += 1
                    out.append("  %%__sc%d = call i64 @__s_%s(double %s)" % (n, op, a))
                    out.append("  %s = trunc i64 %%__sc%d to %s" % (r, n, to))
                continue
            m = re.match(r"^\s*(%\S+) = (sitofp|uitofp) (?:nneg )?(\w+) (.+?) to (\S+)$", s)
            if m:
                r, op, fr, a, to = m.groups()
                if to == "double" and fr in ("i32", "i64"):
                    if fr == "i64":
                        if op == "sitofp":
                            out.append("  %s = call double @__s_sitofp(i64 %s)" % (r, a)); continue
                    else:
                        n += 1
                        out.append("  %%__sc%d = %s i32 %s to i64" % (n, "sext" if op == "sitofp" else "zext", a))
                        out.append("  %s = call double @__s_sitofp(i64 %%__sc%d)" % (r, n)); continue
                out.append(s); continue
            m = re.match(r"^\s*(%\S+) = fptrunc double (.+?) to float$", s)
            if m:
                out.append("  %s = call float @__s_fptrunc(double %s)" % m.groups()); continue
            m = re.match(r"^\s*(%\S+) = fpext double (\S+) to (x86_fp80|fp128)$", s)
            if m:   # wider types are not encoded: one value goes on
                n += 1
                out.append("  %%__sc%d = call double @__s_pin(double %s)" % (n, m.group(2)))
                out.append("  %s = fpext double %%__sc%d to %s" % (m.group(1), n, m.group(3))); continue
        # calls of renamed functions
        m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", s)
        if m and (" call " in " "+t or " invoke " in " "+t or t.startswith("call ") or t.startswith("invoke ")):
            nm = m.group(1).strip('"')
            if nm in RENAME and nm not in keep:
                nn = RENAME[nm]
                s = s.replace("@"+m.group(1)+"(", "@"+nn+"(", 1)
                s = re.sub(r"\b(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ", "", s)
                s = re.sub(r"\) #\d+", ")", s)
                s = re.sub(r"\b(tail|musttail) call", "call", s)
        if re.search(r"= (fadd|fsub|fmul|fdiv|fcmp|frem|fneg) .*<\d+ x double>", s):
            raise SystemExit("vector fp op: " + s)
        # other references (function pointers) to renamed functions
        if "@" in s and not t.startswith(("declare ", ";", "!")):
            s = re.sub(r"@([\w.$]+)(?![\w.$(])", lambda m: "@" + (RENAME[m.group(1)] if m.group(1) in RENAME and m.group(1) not in keep else m.group(1)), s)
        out.append(s)
    have = set()
    for d in DECLS: out.append(d)
    open(dst, "w").write("\n".join(out) + "\n")
    with open(fnmap, "w") as f:
        for i, nm in fns: f.write("%d %s\n" % (i, nm))

main()
