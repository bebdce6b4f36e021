#!/usr/bin/env python3
"""Development aid: mutates library headers in an overlay directory and reports which
mutants the monitors of a property do not notice.

  mutate.py ID HEADER_SUBSTRING [--max N] [--seed S] [--jobs J]
"""
import argparse, concurrent.futures as cf, glob, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
RULES = [
    (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>&])<(?![<=])(?= )", "<="), (r"(?<![>\-=])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"(?<!\+)\+\+(?!\+)", "--"), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "&="), (r"\^=", "|="), (r"&=", "|="),
    (r"&&|\band\b", "||"), (r"\|\||\bor\b", "&&"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
    (r"\bnot ", ""), (r"!(?=[a-zA-Z_(])", ""), (r" \* ", " + "), (r"<< ", ">> "), (r">> ", "<< "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bu\b", "v"), (r"\bv\b", "u"), (r"\bx\b", "y"), (r"\by\b", "x"),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bswap\(([^()]*)\)", r"(void)(0)"), (r" % [A-Za-z_]+", ""), (r"\b64\b", "63"), (r"\b63\b", "64"), (r"\b32\b", "31"),
    (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bif \(", "if (!("), 
]
SUBTLE = [  # narrower types, lost references, dropped clauses, shifted constants
    (r"\bunsigned long long\b", "unsigned int"), (r"(?<!unsigned )\blong long\b", "int"), (r"\bint64_t\b", "int32_t"), (r"\buint64_t\b", "uint32_t"), (r"\b__int128(_t)?\b", "long long"), (r"\b__uint128_t\b", "unsigned long long"), (r"\bunsigned __int128\b", "unsigned long long"),
    (r"\b(i64|s64)\b", "int"), (r"\bu64\b", "uint32_t"), (r"\b(\d+)(LL|ll|ULL|ull|L)\b", r"\1"), (r"\blong double\b", "double"), (r"(?<!long )\bdouble\b", "float"), (r"\b[a-z_]*(2|double|large|wide)[a-z_]*_t(ype)?\b(?= \w+ =)", "int"), (r"static_cast<[\w: ]+>\(([^()]*)\)", r"(\1)"),
    (r"(?<!const )\bauto ?&(?!&)", "auto"), (r"\b([A-Za-z_:<>]+) ?&(?= ?\w+ =)", r"\1"),
    (r"(?<=\()[^()]+? (and|&&) ", ""), (r" (and|&&) [^()]+?(?=\))", ""), (r" (or|\|\|) [^()]+?(?=\))", ""), (r"(?<=\()[^()]+? (or|\|\|) ", ""),
    (r"\? ([^:?]+) : ([^;,)]+)", r"? \2 : \2"), (r"\? ([^:?]+) : ([^;,)]+)", r"? \1 : \1"),
    (r"\breturn (?!false|0;|nullopt|std::nullopt|\{|true|\*this)([^;]+);", "return {};"), (r"\.begin\(\)", ".end()"), (r"\.back\(\)", ".front()"), (r"\.front\(\)", ".back()"), (r"\bpush_back\b", "assert"), (r"\bstd::greater", "std::less"), (r"\bstd::less\b", "std::greater"),
    (r"(?<!swap)(?<!gcd)(?<!max)(?<!min)(?<!lca)(?<!merge)\(([\w\[\]\.]+), ([\w\[\]\.]+)\)", r"(\2, \1)"), (r"\belse if\b", "if"), (r"\bwhile \(", "if ("), (r"\bstatic (?=\w+ \w+ ?(=|\{|;))", ""), (r"\bconst (?=auto|int)", "static const "),
]
def more_rules(code):
    for m in re.finditer(r"(?<![\w.])([3-9]|[1-9]\d+)(?![\w.])", code):
        for d in (-1, 1): yield code[:m.start()] + str(int(m.group()) + d) + code[m.end():]
def mutants(text):
    lines = text.split("\n")
    out = []
    incomment = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith(("//", "#", "static_assert", "*", "assert", "std::cerr", "friend std::ostream") if SUB else ("//", "#", "using", "template", "namespace", "static_assert", "*", "struct", "assert", "std::cerr", "friend std::ostream")):
            continue
        code = ln.split("//")[0]
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                if rep == "if (!(":
                    # negate whole condition
                    j, d = m.end(), 1
                    while j < len(code) and d:
                        d += {"(": 1, ")": -1}.get(code[j], 0); j += 1
                    if d: continue
                    new = code[:m.start()] + "if (!(" + code[m.end():j - 1] + "))" + code[j:]
                else:
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code: out.append((i, new))
        if SUB:
            out += [(i, x) for x in more_rules(code)] if KIND in ('', 'other') else []; continue
        if s.endswith(";") and not s.startswith(("return", "}", "for", "int ", "auto", "const", "std::vector", "T ", "long", "static", "else")) and "=" not in s.split("(")[0].split("==")[0] or re.match(r"^\s*[\w\[\]\.\->]+\s*[\+\-\*/|&^]?=[^=]", ln):
            if "(" in s or "=" in s: out.append((i, re.match(r"\s*", ln).group(0) + ";"))
    return lines, out
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("header"); ap.add_argument("--max", type=int, default=25); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--tmp", default="/tmp/mut"); ap.add_argument("--scale", default="1"); ap.add_argument("--lines", default=""); ap.add_argument("--subtle", action="store_true"); ap.add_argument("--kind", default="", help="with --subtle: narrow | ret | other")
    a = ap.parse_args()
    global RULES, SUB
    SUB = a.subtle
    global KIND
    KIND = a.kind
    if SUB:
        RULES = SUBTLE
        isn = lambda r: "int" in r[0] or "long" in r[0] or "64" in r[0] or "double" in r[0] or "LL" in r[0] or "static_cast" in r[0]
        isr = lambda r: "return" in r[0]
        if KIND == "narrow": RULES = [r for r in RULES if isn(r) and "const (?=" not in r[0]]
        if KIND == "ret": RULES = [r for r in RULES if isr(r)]
        if KIND == "other": RULES = [r for r in RULES if not isn(r) and not isr(r)]
    cand = [h for h in glob.glob(run.REPO + "/library/**/*.hpp", recursive=True) if a.header in h]
    deps = {}
    def dep(s):
        d = run.directives(s)
        r = subprocess.run(run.CXX + run.BASE + [x for x in d.get("flags", "").split(",") if x] + ["-MM", s], capture_output=True, text=True)
        return s, r.stdout
    with cf.ThreadPoolExecutor(a.jobs) as p:
        deps = dict(p.map(dep, run.sources(a.pid)))
    for h in sorted(cand):
        rel = os.path.relpath(h, run.REPO)
        tus = [s for s, d in deps.items() if rel.replace(" ", "\\ ") in d]
        if not tus: continue
        tus.sort(key=lambda s: rel not in open(s).read())   # harnesses that include the header themselves first
        text = open(h).read()
        lines, ms = mutants(text)
        if a.lines:
            lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
        rnd = random.Random(a.seed); rnd.shuffle(ms); 
        seen = set(); sel = []
        for m in ms:
            if m in seen: continue
            seen.add(m); sel.append(m)
        sel = sel[:a.max]
        def one(k):
            i, new = sel[k]
            d = f"{a.tmp}/{a.pid}_{abs(hash(rel))%10**8}_{k}"
            os.makedirs(os.path.join(d, os.path.dirname(rel)), exist_ok=True)
            L = list(lines); L[i] = new
            open(os.path.join(d, rel), "w").write("\n".join(L))
            res = "SURVIVED"
            try:
                for s in tus:
                    exe = os.path.join(d, os.path.basename(s)[:-4])
                    fl = [x for x in run.directives(s).get("flags", "").split(",") if x]
                    r = subprocess.run(run.CXX + ["-I", d, "-I", d + "/library"] + run.BASE + run.VARIANTS["asan"] + fl + [s, "-o", exe], capture_output=True)
                    if r.returncode: return k, "nocompile"
                    try:
                        r = subprocess.run([exe, "--scale", a.scale, "--hang-ticks", "10"], capture_output=True, env=run.ENV, preexec_fn=run.limits, timeout=400, cwd=d)
                    except subprocess.TimeoutExpired:
                        res = "timeout"; continue
                    if r.returncode != 0: return k, "killed"
            finally:
                shutil.rmtree(d, ignore_errors=True)
            return k, res
        cnt = {}
        surv = []
        with cf.ThreadPoolExecutor(a.jobs) as p:
            for k, r in p.map(one, range(len(sel))):
                cnt[r] = cnt.get(r, 0) + 1
                if r in ("SURVIVED", "timeout"): surv.append((sel[k][0], sel[k][1], r))
        print(f"== {rel}: {cnt}", flush=True)
        for i, new, r in sorted(surv):
            print(f"   {r} {i+1}: {lines[i].strip()}  ==>  {new.strip()}", flush=True)
main()
