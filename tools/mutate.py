#!/usr/bin/env python3
"""Systematic mutants of the library, to find gaps in the checks.

  mutate.py list                     writes /tmp/mut/all.json (every mutant)
  mutate.py run [--jobs N] [--stride K] [--offset I] [--files a,b] [--props C01,..]
Each mutant: compile; run the repository's tests (mutants they kill are dropped); run the quick checks (plain build, fewer
cases) until one reports. Results, one JSON object per line, in /tmp/mut/results.jsonl. Needs nothing of /repo
to change: everything happens in copies under /tmp/mut."""
import sys, os, re, json, subprocess, shutil, glob, hashlib, time, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
REPO = "/repo"
TESTS = ["test_bdd_and_limited", "test_bdd_collection", "test_bdd_collection_and", "test_bdd_collection_or_var", "test_bdd_exactly_one_solution",
         "test_bdd_multi_and", "test_bdd_node_cache", "test_bdd_projection", "test_ite", "test_mrf_chain", "test_nodes_bfs", "test_nodes_postorder",
         "test_unique_table_page_cache", "test_utility_functions", "test_variable_addition"]
SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=\w\s]*>)(?!=)", "<="), (r"(?<![\->])>(?![=>])", ">="), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![\w+])\+(?![+=\w])|(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"\+ ?1\b", "+2"), (r"\+ ?1\b", ""), (r"- ?1\b", ""),
         (r"\+\+", "--"), (r"\+=", "-="), (r"\|=", "="), (r"<<(?= ?\d)", ">>"), (r">>", "<<"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\blow\b", "high"), (r"\bhigh\b", "low"), (r"\blo\b", "hi"), (r"\bhi\b", "lo"),
         (r"\bbotsink\b", "topsink"), (r"\btopsink\b", "botsink"), (r"\bbotsink_index\b", "topsink_index"), (r"\btopsink_index\b", "botsink_index"), (r"\bf\b", "g"), (r"\bg\b", "f"), (r"\bg\b", "h"), (r"\bh\b", "g"), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"),
         (r"\bif\((.*)\)", r"if(!(\1))"), (r"\bif\((.*)\)", r"if(false && (\1))"), (r"\bif\((.*)\)", r"if(true || (\1))"), (r"\bwhile\((.*)\)", r"while(false && (\1))"),
         (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bbegin\(\)", "begin()+1"), (r"\bend\(\)", "end()-1"), (r"!(?=[\w(])", ""), (r"\*(?= ?\d|\bsize)", "+"), (r"\bmask\b", "0"), (r"~", "")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mutants():
    out = []
    for p in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/include/*.h")):
        rel = os.path.relpath(p, REPO)
        guard = comment = False
        for n, line in enumerate(open(p).read().split("\n")):
            s = line.strip()
            if s.startswith("#ifdef LBDD_VERIF"): guard = True
            if s.startswith("#else") or s.startswith("#endif"): guard = False
            if s.startswith("/*"): comment = True
            if s.endswith("*/"): comment = False
            if guard or comment or not s or s.startswith(("//", "#", "assert", "static_assert", "using", "namespace", "template", "class", "/*", "*")): continue
            code = re.sub(r"//.*", "", line)
            if not code.strip(): continue
            seen = {code}
            for a, b in SWAPS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new not in seen:
                        seen.add(new); out.append((rel, n, line, new))
            if s.endswith(";") and not s.startswith(("return", "}", "for")) and not re.match(r"(const |static |unsigned |std::|size_t|int|bool|auto|char|bdd_|node|double|float|void)", s):
                out.append((rel, n, line, ""))
            elif re.match(r"if\(.*\)\s*return.*;$|if\(.*;$|else.*;$", s) and "{" not in s:
                out.append((rel, n, line, ""))
            if re.match(r"for\(.*\)", s):
                out.append((rel, n, line, re.sub(r"(for\([^;]*;)([^;]*)(;)", r"\1 false && (\2)\3", code))) if code.count(";") >= 2 else None
    return [dict(id=hashlib.sha1(repr(x).encode()).hexdigest()[:10], file=x[0], line=x[1], old=x[2], new=x[3]) for x in out]
CXX = ["g++", "-std=c++17", "-w", "-O1"]
lock = threading.Lock()
def base():
    """objects of the tests"""
    d = W + "/base"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/stub.cpp", "w").write("#include <cstddef>\nstd::size_t (*lbdd_verif_hash_key)(std::size_t) = nullptr;\n")
    js = [(s, d + "/" + os.path.basename(s)[:-4] + ".o") for s in glob.glob(REPO + "/test/*.cpp") + [d + "/stub.cpp"]]
    ps = [subprocess.Popen(CXX + ["-I", REPO + "/include", "-I", REPO + "/test", "-c", a, "-o", b]) for a, b in js]
    for p in ps: assert p.wait() == 0
def run_tests(d, header):
    """d: mutated copy, whose library is compiled in d/vb; False if a test fails"""
    ob = d + "/o"; os.makedirs(ob, exist_ok=True)
    objs = glob.glob(d + "/vb/l-*.o") + [W + "/base/stub.o"]
    assert len(objs) == 8, objs
    for t in TESTS:
        o = "%s/base/%s.o" % (W, t)
        if header:
            o = "%s/%s.o" % (ob, t)
            r = sh(" ".join(CXX) + " -I %s/include -I %s/test -c %s/test/%s.cpp -o %s" % (d, REPO, REPO, t, o), timeout=300)
            if r.returncode: return None
        r = sh("g++ %s %s -o %s/%s" % (o, " ".join(objs), ob, t))
        if r.returncode: return None
        try:
            r = sh("ulimit -v 8000000; exec timeout 100 %s/%s" % (ob, t), timeout=120)
        except subprocess.TimeoutExpired: return False
        if r.returncode: return False
    return True
ORDER = {"bdd_collection": "C12 C17 C11 C16 C13 C14 C15 C18 C20 C10 C22", "bdd_mgr": "C01 C07 C06 C08 C02 C10 C09 C03 C04 C05 C18 C11 C12 C20 C17 C13 C14 C15 C16 C19",
         "bdd_node": "C09 C02 C01 C18 C04 C03 C05 C10 C20 C19 C11 C12 C07 C06 C08 C17 C13 C14 C15 C16", "bdd_node_cache": "C19 C05 C04 C03 C20 C01 C02 C10 C06 C07 C08 C09 C18 C11", "bdd_memo_cache": "C03 C01 C10 C05 C20 C02 C06 C07 C04 C08 C09 C18 C11 C19",
         "bdd_var": "C05 C02 C03 C04 C01 C10 C20 C06 C07 C08 C09 C18 C11 C12 C19", "bdd_node_depth": "C09 C20 C10"}
def one(m, scale, props, only, variants):
    d = "%s/m-%s" % (W, m["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        sh("cp -r %s/src %s/include %s/" % (REPO, REPO, d))
        p = d + "/" + m["file"]
        ls = open(p).read().split("\n")
        assert ls[m["line"]] == m["old"]
        ls[m["line"]] = m["new"]
        open(p, "w").write("\n".join(ls))
        open(d + "/mutated", "w").write(m["file"])
        header = m["file"].startswith("include")
        stem = os.path.basename(m["file"]).split(".")[0]
        b = d + "/vb"; os.makedirs(b)
        if not header:
            for f in glob.glob(W + "/vb/[lh]-*.o"):
                if not os.path.basename(f).startswith("l-" + stem + "-"): os.link(f, b + "/" + os.path.basename(f))
        for n, q in enumerate(props or ORDER.get(stem, ORDER["bdd_mgr"]).split()):
            r = sh("cd %s && ./check %s --variants %s --workers 2 --scale %g" % (W + "/verif", q, variants, scale), env=dict(os.environ, VP_REPO=d, VP_BUILD=b))
            if r.returncode == 2 and n == 0 and "compiling" in r.stderr: return "nocompile"
            if n == 0 and not only:
                t = run_tests(d, header)
                if t is None: return "nocompile"
                if not t: return "tests"
                shutil.rmtree(d + "/o", ignore_errors=True)
            if r.returncode == 1: return "caught " + q + " " + r.stdout.strip()[:150].replace("\n", " | ")
            if r.returncode != 0: return "error " + q + " " + r.stderr[-300:]
            for f in glob.glob(b + "/x-*"): os.remove(f)
        return "SURVIVED"
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    os.makedirs(W, exist_ok=True)
    a = sys.argv[1:]
    ms = mutants()
    if a[0] == "list":
        json.dump(ms, open(W + "/all.json", "w"), indent=0); print(len(ms)); return
    def opt(k, dflt): return a[a.index(k) + 1] if k in a else dflt
    jobs, stride, off, scale = int(opt("--jobs", 4)), int(opt("--stride", 1)), int(opt("--offset", 0)), float(opt("--scale", 0.5))
    files, props, ids = opt("--files", ""), opt("--props", ""), opt("--ids", "")
    if files: ms = [m for m in ms if any(f in m["file"] for f in files.split(","))]
    if ids: ms = [m for m in ms if m["id"] in ids.split(",")]
    ms = [m for i, m in enumerate(ms) if i % stride == off]
    res = W + "/" + opt("--results", "results.jsonl")
    done = set()
    if os.path.exists(res) and not ids: done = {json.loads(l)["id"] for l in open(res)}
    variants = opt("--variants", "plain")
    base()
    shutil.rmtree(W + "/verif", ignore_errors=True)
    os.makedirs(W + "/verif"); sh("cp -r %s/check %s/harness %s/verif/" % (HERE, HERE, W))
    shutil.rmtree(W + "/vb", ignore_errors=True); os.makedirs(W + "/vb")
    for i in range(1, len(glob.glob(HERE + '/harness/prop_*.cpp')) + 1): # shared objects
        sh("cd %s/verif && ./check C%02d --variants %s --scale 0.001" % (W, i, variants), env=dict(os.environ, VP_REPO=REPO, VP_BUILD=W + "/vb"))
    q = queue.Queue()
    import random; random.Random(5).shuffle(ms)
    for m in ms:
        if m["id"] not in done: q.put(m)
    def work():
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = one(m, scale, props.split(",") if props else None, "--only-checks" in a, variants)
            except Exception as e: r = "internal %r" % e
            with lock:
                open(res, "a").write(json.dumps(dict(m, result=r)) + "\n")
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
