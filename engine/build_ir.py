"""/repo sources + harness -> LLVM IR -> JSON"""
import subprocess, os, sys, json, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
CLANG, OPT, LINK = "clang++-18", "opt-18", "llvm-link-18"
INC = ["SEFramework", "SEUtils", "SEImplementation", "ModelFitting", "_build"]
def incs(repo):
    return sum([["-I", os.path.join(repo, i)] for i in INC], []) + ["-I", repo] + ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness", "stubs")]
def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode: raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout
def irdump_path():
    p = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(HERE, "irdump.cpp")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        cx = subprocess.run("llvm-config-18 --cxxflags", shell=True, capture_output=True, text=True).stdout
        cx = [f for f in cx.split() if not f.startswith(("-O", "-std"))]
        ld = subprocess.run("llvm-config-18 --ldflags --libs core irreader analysis support demangle", shell=True, capture_output=True, text=True).stdout.split()
        tmp = p + ".%d" % os.getpid()
        sh([CLANG, "-O1", "-std=c++17"] + cx + [src, "-o", tmp] + ld + ["-fno-rtti"])
        os.replace(tmp, p)
    return p
CXXF = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DBOOST_DISABLE_ASSERTS", "-fno-strict-aliasing", "-w", "-fno-threadsafe-statics", "-ffp-contract=off", "-U_FORTIFY_SOURCE"]
def build(repo, harness, sources, work, extra=(), keep=()):
    os.makedirs(work, exist_ok=True)
    srcs = [harness] + [os.path.join(VERIF, "harness", s[1:]) if s[0] == "@" else os.path.join(repo, s) for s in sources] + [os.path.join(VERIF, "harness", "rt_model.cpp")]   # @x: run time model, verifier only
    def comp(s):
        o = os.path.join(work, re.sub(r"\W", "_", os.path.basename(s)) + "%d.bc" % (abs(hash(s)) % 100000))
        sh([CLANG] + CXXF + list(extra) + incs(repo) + ["-emit-llvm", "-c", s, "-o", o]); return o
    with cf.ThreadPoolExecutor(8) as ex: bcs = list(ex.map(comp, srcs))
    l = os.path.join(work, "all.bc")
    sh([LINK] + bcs + ["-o", l])
    txt = open(harness).read()
    hs = re.findall(r"^VF_HARNESS\((\w+)\)", txt, re.M)
    api = ["vfh_" + h for h in hs] + re.findall(r"\b(spec_\w+|cand_\w+)\s*\(", txt) + list(keep)
    api += [n for n in ("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",)]
    o = os.path.join(work, "opt.bc")
    sh([OPT, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,sroa,early-cse,loop-simplify)", "--internalize-public-api-list=" + ",".join(sorted(set(api))), l, "-o", o])
    js = sh([irdump_path(), o])
    m = json.loads(js)
    m["ctors"] = ctors(m)
    mp = os.path.join(work, "module.json")
    json.dump(m, open(mp, "w"))
    return mp, hs
def ctors(m):
    g = m["globals"].get("llvm.global_ctors")
    r = []
    if g:
        for off, ty, c in g.get("init", []):
            if ty == "ptr" and c[0] == "g" and c[1] in m["funcs"]: r.append(c[1])
    return r
if __name__ == "__main__":
    print(build("/repo", sys.argv[1], sys.argv[3:], sys.argv[2]))
