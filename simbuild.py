"""Builds the simulator executables from /repo's current tree."""
import hashlib, os, re, subprocess, sys, concurrent.futures, json
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
REPO_FLAGS = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-omit-frame-pointer", "-w"]
RT_FLAGS = ["-std=gnu++17", "-O2", "-g1", "-U_FORTIFY_SOURCE", "-fno-builtin", "-w"]
WRAP_JSON = re.findall(r"\b(?:JR|JDEEP)\([^,]*, (json_\w+)|\b(?:JUPD|JNEW)\((json_\w+)|__wrap_(json_\w+)\(", open(os.path.join(VERIF, "sim", "rt.cpp")).read())
LINK = ["-Wl," + ",".join(sorted({"--wrap=" + "".join(m) for m in WRAP_JSON})), "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-no-pie", "-ljansson", "-ldl", "-lpthread"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and not x.startswith("__"))
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def has_main(text):
    return re.search(r"^\s*(int|auto)\s+main\s*\(", text, re.M) is not None

def repo_sources():
    r = []
    for d, dirs, files in os.walk(os.path.join(REPO, "core")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith(".test.cpp"):
                r.append(os.path.join(d, f))
    return r

LEFT_OUT = []  # optional workloads that do not fit the tree

class BuildError(Exception):
    pass

def compile_one(args):
    src, obj, flags, extra_key = args
    key = hashlib.sha256((extra_key + "\0" + src + "\0" + " ".join(flags)).encode()).hexdigest()
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    r = sh([CXX] + flags + ["-c", src, "-o", obj])
    if r.returncode:
        return (src, r.stdout)
    if "-DSIM_MAIN_RENAMED" in flags:
        r = sh(["objcopy", "--redefine-sym", "main=maike_main", obj])
        if r.returncode:
            return (src, r.stdout)
    open(stamp, "w").write(key)
    return None

def build(exe, harness, want_main, jobs=8):
    """harness: list of (path under /verif/sim, instrumented?)"""
    os.makedirs(BUILD, exist_ok=True)
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    rk = tree_hash(os.path.join(REPO, "core"), (".hpp", ".cpp", ".h"))
    sk = tree_hash(os.path.join(VERIF, "sim"), (".h", ".cpp"))
    inc = ["-iquote", REPO, "-I", os.path.join(VERIF, "sim")]
    tasks = []; robjs = []; hobjs = []; mainsrc = None
    for s in repo_sources():
        text = open(s, errors="replace").read()
        name = os.path.relpath(s, REPO).replace("/", "__")
        fl = REPO_FLAGS + inc
        if has_main(text):
            if os.path.relpath(s, REPO) != "core/bin/maike.cpp":
                continue
            if not want_main:
                continue
            fl = fl + ["-DSIM_MAIN_RENAMED"]  # the symbol is renamed after compilation (flowing off the end of main returns 0)
        if os.path.relpath(s, REPO) == "core/bin/about.cpp":
            continue  # needs a generated header with the build's identity; sim/about_stub.cpp stands in
        o = os.path.join(odir, "r__" + name + ".o"); robjs.append(o)
        tasks.append((s, o, fl, rk))
    optional = {}
    for s, instr, *opt in harness:
        p = os.path.join(VERIF, "sim", s)
        o = os.path.join(odir, "h__" + s.replace("/", "__") + ".o")
        (robjs if instr else hobjs).append(o)
        if opt and opt[0]: optional[p] = o
        tasks.append((p, o, (REPO_FLAGS if instr else RT_FLAGS) + inc, (rk if instr else "") + sk))
    tasks.sort(key=lambda t: -os.path.getsize(t[0]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(compile_one, tasks) if e]
    for e in [e for e in errs if e[0] in optional]:
        errs.remove(e); robjs.remove(optional[e[0]]); LEFT_OUT.append(f"{os.path.basename(e[0])} does not compile against this tree")
    if errs:
        raise BuildError("\n".join(f"{s}:\n{m[-3000:]}" for s, m in errs[:3]))
    out = os.path.join(BUILD, exe)
    r = sh([CXX] + ["-o", out] + robjs + hobjs + LINK)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    return out

if __name__ == "__main__":
    pass
