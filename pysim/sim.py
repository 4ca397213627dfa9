#!/usr/bin/env python3
"""Simulation of the shipped recipes: search, minimisation, replay (same command line as the C++ simulators)."""
import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable, "-S", "-B"] + sys.argv)
import builtins, hashlib, json, random, time, types, posixpath, pwd
import json.decoder, json.encoder, subprocess, shutil, tempfile, pathlib, re, string, datetime, traceback
import xml.etree.ElementTree
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import fakeos
REPO = os.environ.get("VERIF_REPO", "/repo"); RCP = REPO + "/recipes"
fakeos.REAL_PREFIXES = (RCP + "/", sys.prefix + "/lib/python", "/usr/lib/python")
if not hasattr(builtins, "exit"):
    class Quitter:
        def __call__(self, code=None): raise SystemExit(code)
    builtins.exit = builtins.quit = Quitter()

class Ctx:
    def __init__(self, seed, tier, w=None):
        self.rng = random.Random(seed); self.w = list(w or []); self.pos = 0; self.fixed = w is not None; self.viols = []; self.hash = hashlib.sha256(); self.cnt = {}; self.faults = {}; self.runs = 0; self.sigs = set(); self.tier = tier; self.verbose = False; self.note = ""
    def pick(self, n):
        if self.pos < len(self.w): v = self.w[self.pos] % n if n else 0; self.w[self.pos] = v
        else:
            v = 0 if self.fixed else self.rng.randrange(n) if n else 0; self.w.append(v)
        self.pos += 1; return v
    def chance(self, a, b): return self.pick(b) >= b - a
    def viol(self, cls, msg, prop="C20"):
        if all(c != cls for c, _, _ in self.viols): self.viols.append((cls, msg, prop))
    def count(self, k, n=1): self.cnt[k] = self.cnt.get(k, 0) + n

# ---------------------------------------------------------------- tools
def H(*a): return hashlib.sha256(repr(a).encode()).hexdigest()[:24].encode()
def rd(w, p):
    n = w.get(p); return None if n is None or n.dir else n.data
REVS = {"c++98": 199711, "c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002, "c++23": 202302}
COMPILERS = {"g++": (201703, 202002, None)} # name: default revision, newest one, one whose support is experimental
def t_cc(argv, w, inp):
    if "-dM" in argv: # the language revision
        std = next((a[5:] for a in argv if a.startswith("-std=")), None); dflt, newest, exp = COMPILERS[argv[0]]
        if std and (std not in REVS or REVS[std] > max(newest, exp or 0)): return 1, b"", b"unknown standard\n", {}
        return 0, b"#define __STDC__ 1\n#define __cplusplus %dL\n" % (dflt if not std else REVS[std] - 99 if REVS[std] == exp else REVS[std]), b"", {}
    try: m = cc_parse(argv)
    except IndexError: return 1, b"", b"g++: missing argument\n", {}
    out = m["out"] or "a.out"; link = not m["c"]; ins = []; inc = []
    for a, o in [(a, ins) for a in m["items"] if not a.startswith("-")] + [(a, inc) for a in m["include"]]:
        d = rd(w, a)
        if d is None: return 1, b"", b"g++: no such file " + a.encode() + b"\n", {}
        o.append((posixpath.basename(a), d))
    if not ins: return 1, b"", b"g++: no input files\n", {}
    if m["c"] and len(ins) > 1: return 1, b"", b"g++: cannot specify -o with -c and several files\n", {}
    if link: # like a one-pass linker: an archive has to come after everything that needs it
        names = [posixpath.basename(a).encode() for a in argv[1:]]
        for b in ins:
            need = b[1].split(b"NEEDS ")[1].split(b",") if b"NEEDS " in b[1] else []
            for q in need:
                if q.endswith(b".a") and q in names and not any(n == q for n in names[names.index(b[0].encode()):]): return 1, b"", b"ld: undefined reference from " + b[0].encode() + b" to " + q + b"\n", {}
    sem = dict(m, cc=argv[0], ins=[(n, d.decode("latin1")) for n, d in ins], inc=[(n, d.decode("latin1")) for n, d in inc]); sem.pop("out")
    return 0, b"", b"", {out: (b"EXE " if link else b"OBJ ") + json.dumps(sem, sort_keys=True).encode()}
def uniq(l): return list(dict.fromkeys(l))
def cc_parse(argv):
    """What a compiler makes of its command line."""
    m = {"c": False, "out": None, "items": [], "flags": [], "I": [], "iquote": [], "include": [], "defs": {}, "std": None, "L": [], "color": None}; i = 1
    while i < len(argv):
        a = argv[i]; i += 1
        def val(p):
            nonlocal i
            if len(a) > len(p): return a[len(p):]
            i += 1; return argv[i - 1]
        if a == "-c": m["c"] = True
        elif a.startswith("-o"): m["out"] = val("-o")
        elif a.startswith("-iquote"): m["iquote"].append(val("-iquote"))
        elif a.startswith("-include"): m["include"].append(val("-include"))
        elif a.startswith("-I"): m["I"].append(val("-I"))
        elif a.startswith("-L"): m["L"].append(val("-L"))
        elif a.startswith("-l"): m["items"].append("-l" + val("-l"))
        elif a.startswith("-D"): k, _, v = val("-D").partition("="); m["defs"][k] = v
        elif a.startswith("-std="): m["std"] = a[5:]
        elif a.startswith("-fdiagnostics-color="): m["color"] = a[20:]
        elif a.startswith("-"): m["flags"].append(a)
        else: m["items"].append(a)
    return m
def t_exe(argv, w, inp): return 0, b"test output\n", b"", {}
def t_ar(argv, w, inp): # rcs: replaces or adds members, keeps the others
    if len(argv) < 3: return 1, b"", b"usage\n", {}
    old = rd(w, argv[2]); mem = []
    if old is not None:
        if not old.startswith(b"AR\n"): return 1, b"", b"ar: malformed archive\n", {}
        try: mem = json.loads(old[3:].decode())
        except ValueError: return 1, b"", b"ar: malformed archive\n", {}
    had = {m[0] for m in mem}
    for a in argv[3:]:
        d = rd(w, a); n = posixpath.basename(a)
        if d is None: return 1, b"", b"ar: no such file\n", {}
        if n in had: mem = [m for m in mem if m[0] != n]
        mem.append([n, d.decode("latin1")])
    return 0, b"", b"", {argv[2]: b"AR\n" + json.dumps(mem).encode()}
def t_xslt(argv, w, inp):
    out = None; par = {}; pos = []; i = 1
    while i < len(argv):
        a = argv[i]; i += 1
        try:
            if a == "-o": out = argv[i]; i += 1
            elif a in ("--stringparam", "--param"): par[argv[i]] = argv[i + 1]; i += 2
            elif a != "-" and a.startswith("-"): pass
            else: pos.append(a)
        except IndexError: return 1, b"", b"usage\n", {}
    if out is None or len(pos) != 2: return 1, b"", b"usage\n", {}
    sheet = inp if pos[0] == "-" else rd(w, pos[0]); d = rd(w, pos[1])
    if sheet is None and fakeos.real_path(pos[0]): sheet = fakeos.REAL["open"](pos[0], "rb").read()
    if d is None or not sheet: return 4, b"", b"cannot read\n", {}
    return 0, b"", b"", {out: b"<html>" + json.dumps({"param": par, "sheet": H(sheet).decode(), "doc": d.decode("latin1")}, sort_keys=True).encode() + b"</html>"}
def sections(d): return [(f"s{i}", f"Title {i}" + [" end", "", " end"][(i + len(d)) % 3], H(d, i).decode()) for i in range(1 + len(d) % 3)]
def mark(t): return t if not t.endswith(" end") else f"<code>{t[:-4]}</code> end" if "1" in t else f"{t[:-4]} <em>end</em>"
def t_pandoc(argv, w, inp):
    pos = []; out = to = None; i = 1
    while i < len(argv):
        a = argv[i]; i += 1
        if a in ("-f", "-t", "-o"):
            if i >= len(argv): return 1, b"", b"usage\n", {}
            if a == "-o": out = argv[i]
            if a == "-t": to = argv[i]
            i += 1
        elif a == "-" or not a.startswith("-"): pos.append(a)
    d = inp if not pos or pos[0] == "-" else rd(w, pos[0])
    if d is None: return 1, b"", b"pandoc: cannot read\n", {}
    if to == "man": return (0, d, b"", {}) if out is None else (0, b"", b"", {out: b"MAN " + d})
    if "--section-divs" not in argv: return 0, "".join(f'<h1 id="{i}">{t}</h1><p>{x}</p>\n' for i, t, x in sections(d)).encode(), b"", {}
    return 0, "".join(f'<section id="{i}" class="level1"><h1>{mark(t)}</h1><p>{x}</p></section>\n' for i, t, x in sections(d)).encode(), b"", {}
def t_pkg(argv, w, inp):
    m = {"--cflags": b"-I/opt/%b/include -D%b=1\n", "--libs-only-l": b"-l%b -lm \n", "--libs-only-L": b"-L/opt/%b\n"}
    if argv[-1].startswith("bad"): return 1, b"", b"no package\n", {}
    if argv[-1].startswith("empty"): return 0, b"\n", b"", {}
    t = m.get(argv[1]); return (1, b"", b"usage\n", {}) if t is None else (0, t.replace(b"%b", argv[-1].encode()), b"", {})
def t_maike(argv, w, inp): # maike itself, as the scripts of its own project use it
    td = next((a[13:] for a in argv if a.startswith("--target-dir=")), None); me = rd(w, argv[0]) or b""; v = H(me).decode()
    if "--help" in argv: return 0, f"# options {v}\n\n`--help={{string}}`\n\n`--jobs={{int}}` <b>-x--y</b>\n".encode(), b"", {}
    if "--configdump" in argv: return 0, json.dumps({"maikeconfig": {"v": v, "default": "--config-default" in argv}}).encode(), b"", {}
    if td is None: return 64, b"", b"usage\n", {}
    return 0, b"building\n", b"", {td + "/core/bin/maike2": b"EXE maike " + H(rd(w, "core/bin/maike.cpp"))}
def t_sh(argv, w, inp):
    if len(argv) < 2 or rd(w, argv[-1]) is None: return 127, b"", b"sh: cannot open\n", {}
    return 0, b"", b"+ g++\n", {"__targets_bootstrap/core/bin/maike2": b"EXE maike " + H(rd(w, "core/bin/maike.cpp"))}
def t_gen(argv, w, inp): # gen-tool in -o out / in out
    fs = [a for a in argv[1:] if not a.startswith("-")]; d = rd(w, fs[0])
    if d is None: return 3, b"", b"no input\n", {}
    return 0, b"generated\n", b"", {fs[-1]: b"GEN " + H(argv[1:-1], d)}
TOOLS = {"g++": t_cc, "g++-9": t_cc, "g++-13": t_cc, "ar": t_ar, "my-ar": t_ar, "xsltproc": t_xslt, "pandoc": t_pandoc, "pkg-config": t_pkg, "clang-tidy": t_exe, "gen-tool": t_gen, "sh": t_sh}
def tools(argv, w):
    if argv[0].startswith("g++") and "-dM" in argv and argv[0] not in COMPILERS: return None
    if argv[0] == "maike2": return t_maike if w.get("/usr/bin/maike2") else None
    if argv[0] in TOOLS: return TOOLS[argv[0]]
    if "/" in argv[0]:
        n = w.get(argv[0])
        if n is not None and n.mode & 0o111 and n.data.startswith(b"EXE"): return t_maike if n.data.startswith(b"EXE maike") else t_exe
    return None

# ---------------------------------------------------------------- library stand-ins
def mod_sass():
    m = types.ModuleType("sass")
    def comp(string=None, **kw):
        if "SYNTAX" in string: raise ValueError("Error: syntax")
        return "css " + hashlib.sha256(string.encode()).hexdigest()
    m.compile = comp; return m
def mod_git(ok, head):
    m = types.ModuleType("pygit2"); m.GIT_SORT_TIME = 4
    class C:
        def __init__(s, i): s.id = s.hex = f"{head}{i:04d}"; s.message = f"commit {i}\n\nbody"; s.author = types.SimpleNamespace(time=1500000000 + i)
    class R:
        def __init__(s, p):
            if not ok: raise Exception("no repository")
            s.head = types.SimpleNamespace(target="t")
        def __getitem__(s, k): return C(3)
        def walk(s, i, o): return [C(3), C(2), C(1)]
        def describe(s, **k): return "v1-" + head
        def revparse_single(s, n): return C(3)
    m.Repository = R; return m

# ---------------------------------------------------------------- cases
class Case:
    def __init__(self): self.recipe = ""; self.cmd = "compile"; self.req = {}; self.targets = []; self.dirs = []; self.also = set(); self.modules = {}; self.files = {}; self.out_faults = False; self.inputs = []; self.expect = 0; self.env = {}; self.S = "."; self.T = "__targets"; self.place = []; self.compilers = {"g++": (201703, 202002, None)}; self.doc = None; self.git = None; self.argv = None; self.text = []
def bi(c): return {"source_dir": CUR.S, "target_dir": CUR.T, "start_time": 1600000000 + c.pick(3), "build_id": "ab" * 16}
CUR = None
def deps(c, k, origin_pool, version):
    r = []; files = {}
    for i in range(c.pick(k)):
        o = origin_pool[c.pick(len(origin_pool))]
        if o == "pkg-config": r.append({"ref": ["glib", "empty1", "zlib"][c.pick(3)], "origin": "pkg-config"})
        elif o == "system": r.append({"ref": "pthread", "origin": "system", "rel": "external"} if c.pick(3) else {"ref": "some-tool", "origin": "system"})
        elif o == "include": r.append({"ref": f"./inc{i}.hpp", "origin": "project", "rel": "include"}); files[f"./inc{i}.hpp"] = f"inc {i} {version}"
        elif o == "plain": r.append({"ref": f"./hdr{i}.hpp", "origin": "project"}); files[f"./hdr{i}.hpp"] = "h"
        else:
            e = ["o", "a"][c.pick(2)]; need = [posixpath.basename(x["ref"]) for x in r if x["origin"] == "generated" and x.get("rel") == "implementation" and c.pick(2)]
            f = f"__targets/dep{i}.{e}"; z = c.pick(8); r.append({"ref": f, "origin": "generated", "rel": "implementation"} if z < 6 else {"ref": f, "origin": "generated"} if z == 6 else {"ref": f, "origin": "generated", "rel": "misc"}); files[f] = f"OBJ dep {i} {version}" + (" NEEDS " + ",".join(need) if need else "")
    return r, files
def request(c, src, targets, cfg, dl): return {"build_info": bi(c), "compiler_cfg": cfg, "dependencies": dl, "log_format": ["plain_text", "ansi_term"][c.pick(2)], "source_file": src, "targets": targets, "task_id": c.pick(9)}
def make_case(c, kind, version):
    global CUR
    k = CUR = Case(); d = ["", "sub/", "sub/deep/"][c.pick(3)]
    if c.chance(1, 4) and kind != "dir": k.S, k.T = [("proj", "proj_targets"), ("a/proj", "/w/out")][c.pick(2)]
    src = ("." + "/" + d if c.pick(3) == 2 else d) if k.S == "." else k.S + "/" + d; k.dirs = [k.T + "/" + d]
    if c.chance(1, 6): k.env = {"CXX": "g++-13", "AR": "my-ar"}
    def tgt(n): return k.T + "/" + d + n
    if kind in ("cxx", "cxx_link", "cxx_run", "cxx_tidy", "cxx_hdr"):
        k.recipe = "cxx_compiler.py"; s = src + ("a.hpp" if kind == "cxx_hdr" else "a.cpp"); acts = {"cxx_link": ["link"], "cxx_run": ["link", "run"], "cxx_tidy": ["sanitize"] + (["link", "run"] if c.pick(2) else [])}.get(kind)
        cfg = {"backend": "g++", "cflags": [["-g", "-Wall"], ["-O2", "-DCFG=a b", "-g"], ["-Wall", "-I/opt/x"], ["-g", "-g"]][c.pick(4)][:c.pick(4)], "iquote": [[], ["."], ["inc", "."], ["sub"]][c.pick(4)]}
        if c.chance(1, 4): cfg["backend"] = "g++-9"
        if kind == "cxx_run" and c.chance(1, 8): acts = ["run"]; k.expect = 1 # what is not linked cannot be run
        if acts is not None: cfg["actions"] = acts
        if c.pick(2): cfg["std_revision"] = {"min": "c++17", "selected": ["c++17", "c++20"][c.pick(2)]} if c.pick(2) else {"min": "c++17"}
        dl, fs = deps(c, 5, ["pkg-config", "include", "plain", "generated", "system"], version); k.files.update(fs); n = 1 + c.pick(3) if kind != "cxx_hdr" else 0
        k.targets = [tgt(f"a{'' if i == 0 else i}.{'o' if not acts or 'link' not in acts else 'test'}") for i in range(n)]; k.req = request(c, s, k.targets, cfg, dl); k.files[s] = f"source {version}"
    elif kind == "linker":
        k.recipe = "cxx_linker.py"; dl, fs = deps(c, 7, ["generated", "generated", "pkg-config", "system", "plain"], version)
        if not any(x["origin"] == "generated" and x.get("rel") == "implementation" for x in dl): dl.append({"ref": "__targets/main.o", "origin": "generated", "rel": "implementation"}); fs["__targets/main.o"] = f"OBJ main {version}"
        k.files.update(fs); k.targets = [tgt("app")]; k.req = request(c, src + "app.app", k.targets, {"cflags": [["-g"], ["-O2", "-s"], ["-pg", "-Wl,-x", "-g"]][c.pick(3)][:c.pick(4)]}, dl); k.files[src + "app.app"] = "x"
    elif kind == "lib":
        k.recipe = "make_lib.py"; dl, fs = deps(c, 6, ["generated", "generated", "generated", "system"], version); k.files.update(fs); k.targets = [tgt("libx.a")]; k.req = request(c, src + "x.lib", k.targets, {}, dl); k.files[src + "x.lib"] = "x"
    elif kind == "dir":
        k.recipe = "make_directory.py"; k.dirs = ["__targets"] if c.pick(2) else []; t = [["__targets"], ["__targets/."], ["__targets/p"], ["__targets/p", "__targets/p/q"], ["__targets/p", "__targets/r"]][c.pick(5)]; k.targets = t
        if t[0] not in ("__targets", "__targets/."): k.dirs = ["__targets"]
        k.req = request(c, ".", t, {}, [])
    elif kind == "generic":
        k.recipe = "generic.py"; k.targets = [tgt("g.out")]; args = [["$source_file", "$target"], ["-x", "${source_file}", "-q", "$target"], ["--v=$$1", "$source_file", "$target"]][c.pick(3)]
        k.req = request(c, src + "g.in", k.targets, {"target_filename_ext": "out", "compilation_cmd": {"executable": "gen-tool", "exec_origin": "system", "args": args}}, []); k.files[src + "g.in"] = f"in {version}"
    elif kind == "copy":
        k.recipe = "copy_file.py"; k.targets = [tgt(f"c{i}") for i in range(1 + c.pick(3))]; k.req = request(c, src + "c.txt", k.targets, {}, []); k.files[src + "c.txt"] = f"text {version} " * [1, 700, 40000][c.pick(3)]
    elif kind == "md":
        k.recipe = "md2htmlpart.py"; k.targets = [tgt("m.htmlpart")]; k.req = request(c, src + "m.md", k.targets, {}, []); k.files[src + "m.md"] = f"# md {version}" + "x" * c.pick(3)
    elif kind == "doc":
        k.recipe = "doc2html.py"; k.targets = [tgt("d.html")]; k.req = request(c, src + "d.xml", k.targets, {}, []); k.files[src + "d.xml"] = f"<document v='{version}'/>"
    elif kind == "sass":
        k.recipe = "sass2css.py"; k.modules["sass"] = mod_sass(); k.targets = [tgt(f"s{i}.css") for i in range(1 + c.pick(2))]; k.req = request(c, src + "s.scss", k.targets, {}, []); k.files[src + "s.scss"] = f"a {{ b: {version} }}"
        if c.chance(1, 6): k.files[src + "s.scss"] += "SYNTAX"; k.expect = 1
    elif kind == "vcs":
        k.recipe = "vcslog.py"; ok = c.pick(3) != 2; k.git = (ok, f"h{version}"); k.modules["pygit2"] = mod_git(*k.git); k.targets = [tgt("vcslog.json")]; k.req = request(c, src + "v.rule", k.targets, {}, []); k.also = {posixpath.normpath(f"/w/{k.S}/__buildcache")}; k.files[src + "v.rule"] = "x"
        if not ok:
            if c.pick(3): k.files[k.S + "/__buildcache/vcslog.json"] = '{"commit": "cached"}'
            else: k.expect = 1
    elif kind == "cfg":
        k.recipe = "cxx_compiler.py"; k.cmd = "configure"; k.out_faults = True; k.req = {"cflags": ["-g"], "iquote": [], "extra": {"x": [1, "y"]}}; D = k.env.get("CXX", "g++"); k.compilers = {}
        for n in ("g++", "g++-13", "g++-9"):
            if n == D or c.pick(2):
                newest = [201703, 201402, 202002, 202302][c.pick(4)]; r = sorted(v for v in REVS.values() if v <= newest); k.compilers[n] = (r[-1 - c.pick(3)], newest, next((v for v in sorted(REVS.values()) if v > newest), None) if c.chance(1, 3) else None)
        if c.pick(5):
            k.req["std_revision"] = [{"min": "c++17"}, {"min": "c++20"}, {"min": "c++11", "max": "c++14"}, {"min": "c++14", "max": "c++14"}, {"min": "c++98", "max": "c++17"}, {"min": "c++23"}, {"min": "c++17", "max": "c++20"}, {"min": "c++17", "max": "c++17"}, {"max": "c++14"}, {"max": "c++20"}, {"min": "c++20", "max": "c++17"}, {}][c.pick(12)]
            if c.pick(2): k.req["always_use_default_compiler"] = 1
            elif c.pick(3) == 2: k.req["always_use_default_compiler"] = 0
            if k.env and not k.req.get("always_use_default_compiler"): k.env = {}; D = "g++"; k.compilers.setdefault("g++", (201703, 202002, None))
            k.place = [(f"/usr/bin/{n}", "tool", 0o755) for n in k.compilers] + [("/usr/bin/gcc", "tool", 0o755), ("/usr/bin/g++-13-nope-x", "", 0o755)]
            if not any(cfg_fit(k, n) for n in cfg_tried(k)): k.expect = 1
    elif kind == "tags_doc":
        k.recipe = "doc2html.py"; k.cmd = "get_tags"; k.out_faults = True; s = src + "d.xml"; k.req = {"source_file": s, "compiler_cfg": {}}; k.doc = [[("a", "href", f"x{i}.html"), ("img", "src", f"p/y{i}.png"), ("a", "href", f"http://z/{i}"), ("script", "src", "httpx/n.js"), ("p", "id", "q"), ("a", "href", "../up.html"), ("a", "href", f"x{i}.html")][c.pick(7)] for i in range(c.pick(6))]; k.files[s] = "<d>" + "".join(f"<s><{t} {a}='{v}'/></s>" for t, a, v in k.doc) + "</d>"
        if c.chance(1, 5): k.files[s] = "<d><a"; k.expect = 1
    elif kind in OWN: # the scripts that generate maike's version information and its documentation
        k.recipe = "../" + OWN[kind]; s = k.S + "/" + OWN[kind]; base = {"about": "about_impl.hpp", "man": "maike2.1.man", "opts": "cmdlineopts.md", "optsxml": "cmdlineopts.xml", "defs": "configdefault.md", "defsxml": "configdefault.xml"}[kind]
        k.dirs = [k.T + "/" + posixpath.dirname(OWN[kind]), k.T + "/core/bin"]; k.targets = [k.T + "/" + posixpath.dirname(OWN[kind]) + "/" + base]; k.req = request(c, s, k.targets, {}, []); k.files[s] = "x"
        ys = [[2019, 2020], [2021], [2020, 2018]][c.pick(3)]; au = ["A. Uthor", "Zoe"][:1 + c.pick(2)]; cp = [f"© {', '.join(map(str, sorted(ys)))} : {a}" for a in au]
        k.files[k.S + "/projinfo.json"] = json.dumps({"copyright": [{"author": a, "years": ys} for a in au], "description": [f"Long {version}", "text"], "description_short": f"Short {version}", "legal_info": {"license_short": f"No warranty {version}"}})
        ts = datetime.datetime.fromtimestamp(k.req["build_info"]["start_time"], datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S UTC")
        if kind == "about":
            k.files[k.T + "/maike.vcslog"] = json.dumps({"commit": f"c0{version}", "tag": f"v{version}-dirty", "changelog": []}); host = "simhost"
            if c.pick(2): k.req["build_info"]["build_host"] = host = "farm7"
            k.text = [("BuildId", k.req["build_info"]["build_id"]), ("BuildStartTime", ts), ("BuildHost", host), ("VcsRevisionId", f"c0{version}"), ("VcsTag", f"v{version}-dirty"), ("Copyright", "\\n".join(cp)), ("DescriptionShort", f"Short {version}"), ("LegalBrief", f"No warranty {version}")]
        if kind == "man": k.text = [f"Long {version}", ts, f"No warranty {version}", f"Options {version}"] + cp + au; k.files[k.T + "/doc/cmdlineopts.md"] = f"Options {version}\n" * (1 + c.pick(3))
        if kind in ("opts", "defs"): k.place = [(k.T + "/core/bin/maike2", f"EXE maike {version}", 0o755)]
        if kind in ("optsxml", "defsxml"):
            k.files[k.T + "/doc/" + base[:-3] + "md"] = f"# md {version}" + "x" * c.pick(3)
            m = types.ModuleType("md2htmlpart"); m.__file__ = RCP + "/md2htmlpart.py"; exec(code_of("md2htmlpart.py"), m.__dict__); k.modules["md2htmlpart"] = m
        if c.chance(1, 8): # something it needs is not there
            f = {"about": [k.S + "/projinfo.json", k.T + "/maike.vcslog"][c.pick(2)], "man": [k.S + "/projinfo.json", k.T + "/doc/cmdlineopts.md"][c.pick(2)]}.get(kind, k.T + "/doc/" + base[:-3] + "md"); k.files.pop(f, None); k.place = []; k.expect = 1
    elif kind == "self": # the script that builds maike with maike
        k.recipe = "../build.py"; k.S, k.T = ".", "__targets"; k.cmd = ""; k.argv = []; k.targets = ["__targets_bootstrap/core/bin/maike2", "__targets/core/bin/maike2"]; k.dirs = [posixpath.dirname(t) for t in k.targets]; k.files["core/bin/maike.cpp"] = f"source {version}"; k.req = {"source_file": "build.py", "targets": k.targets, "dependencies": []}
        h = c.pick(4)
        if h & 1: k.files["__buildcache/bootstrap.sh"] = "g++"
        if h & 2: k.place = [("/usr/bin/maike2", "EXE maike", 0o755)]
        if not h: k.expect = 1
    elif kind == "tags_gen":
        k.recipe = "generic.py"; k.cmd = "get_tags"; k.out_faults = True; k.req = {"source_file": src + "g.in", "compiler_cfg": {"target_filename_ext": "out", "compilation_cmd": {"executable": "gen-tool", "exec_origin": "system", "args": []}}}
    return k
KINDS = ["cxx", "cxx_link", "cxx_run", "cxx_tidy", "cxx_hdr", "linker", "lib", "dir", "generic", "copy", "md", "doc", "sass", "vcs", "cfg", "tags_doc", "tags_gen", "cxx", "cxx_run", "linker", "about", "man", "opts", "optsxml", "defs", "defsxml", "self"]
OWN = {"about": "core/bin/about.py", "man": "doc/manpage.py", "opts": "doc/cmdlineopts.py", "optsxml": "doc/cmdlineopts2xml.py", "defs": "doc/configdefault.py", "defsxml": "doc/configdefault2xml.py"}
_code = {}
def code_of(r):
    if r not in _code:
        p = f"{RCP}/{r}"
        if not os.path.exists(p): _code[r] = None
        else: _code[r] = compile(open(p).read(), p, "exec")
    return _code[r]
def place(w, k):
    for d in k.dirs: w.mkdirs(w.abs(d))
    for p, v in k.files.items(): w.put(p, v)
    for p, v, m in k.place: w.put(p, v, m)
    if k.recipe != "make_directory.py": w.mkdirs(w.abs(k.T))
# ---------------------------------------------------------------- what a recipe has to make of its request
def cfg_tried(k): d = k.env.get("CXX", "g++"); return [d] if k.req.get("always_use_default_compiler") else sorted(k.compilers)
def cfg_fit(k, n):
    """Can compiler n be used, and how well: 2 as it is or with an option, 1 with an experimental revision."""
    dflt, newest, exp = k.compilers[n]; r = k.req["std_revision"]; lo = REVS[r["min"]] if "min" in r else 0; hi = REVS[r["max"]] if "max" in r else 10 ** 9; need = lo if dflt < lo else hi if dflt > hi else None
    if lo > hi: return 0
    if lo == hi: need = lo
    return 2 if need is None or need <= newest else 1 if need == exp else 0
def linked(dl):
    """Inputs of the linker: what others need comes after them, each once."""
    r = []; L = []
    for d in dl:
        if d["origin"] in ("generated", "project") and d.get("rel") == "implementation": r.append(d["ref"])
        elif d["origin"] == "pkg-config" and not d["ref"].startswith("empty"): r += ["-lm", "-l" + d["ref"]]; L.append("/opt/" + d["ref"])
        elif d["origin"] == "system" and d.get("rel") == "external": r.append("-l" + d["ref"])
    return uniq(r)[::-1], L
def semantics(c, k, w, run, out, ctx):
    q = k.req; bad = lambda m: c.viol("request", f"{ctx}: {m}", "C24")
    def cmp(what, got, exp):
        if got != exp: bad(f"{what}: {json.dumps(got)[:300]} instead of {json.dumps(exp)[:300]}"); return False
        return True
    ab = lambda p: posixpath.normpath(posixpath.join(w.cwd, p)); c.count("requests_compared")
    if k.cmd == "configure":
        try: a = json.loads(out)
        except ValueError: bad("the answer to the configuration request is not JSON"); return
        be = a.pop("backend", None); e = json.loads(json.dumps(q)); sel = None
        if "std_revision" in a: sel = a["std_revision"].pop("selected", None)
        cmp("settings", a, e)
        if "std_revision" not in q: cmp("compiler", be, k.env.get("CXX", "g++")); return
        tried = cfg_tried(k)
        if be not in tried: bad(f"compiler {be} is not one of {tried}"); return
        dflt, newest, exp = k.compilers[be]; r = q["std_revision"]; lo = REVS[r["min"]] if "min" in r else 0; hi = REVS[r["max"]] if "max" in r else 10 ** 9
        if sel is None: eff = dflt
        elif sel not in REVS: bad(f"revision {sel}"); return
        else: eff = REVS[sel]
        if not lo <= eff <= hi: bad(f"language revision {eff} of {be} is outside of what is asked for, {json.dumps(r)}"); return
        if sel is not None and eff > newest and (eff != exp or any(cfg_fit(k, n) == 2 for n in tried)): bad(f"revision {sel} is not supported by {be}, but others would do")
        return
    if k.cmd == "get_tags":
        try: a = json.loads(out)
        except ValueError: bad("the answer to the tags request is not JSON"); return
        if k.recipe == "doc2html.py": cmp("dependencies", sorted([d.get("ref"), d.get("origin"), d.get("rel")] for d in a.get("dependencies", [])), sorted([v, "generated", "resource"] for t, at, v in k.doc if at in ("href", "src") and "://" not in v))
        else: cmp("dependencies", [[d.get("ref"), d.get("origin")] for d in a.get("dependencies", [])], [["gen-tool", "system"]]); cmp("target", posixpath.basename(a["target"]["name"]), "g.in.out")
        return
    if k.recipe == "../build.py":
        if not any(x[0] == "__targets_bootstrap/core/bin/maike2" for x in run.calls): bad("the program that was built first is not used to build itself")
        return
    cfg = q["compiler_cfg"]; dl = q["dependencies"]; t0 = rd(w, k.targets[0]) if k.targets else None
    if k.recipe in ("cxx_compiler.py", "cxx_linker.py"):
        if not k.targets:
            if any(x[0].startswith("g++") for x in run.calls): bad("a compiler is run for a header")
            return
        try: m = json.loads(t0[4:])
        except ValueError: bad("the target is not what the compiler makes"); return
        acts = cfg.get("actions", []); lk = k.recipe == "cxx_linker.py"; link = lk or "link" in acts; items, L = linked(dl) if link else ([], []); f = cc_parse([""] + cfg["cflags"]); defs = dict(f["defs"]); inc = list(f["I"])
        cmp("compiler", m["cc"], k.env.get("CXX", "g++") if lk else cfg["backend"]); cmp("linking", not m["c"], link); cmp("inputs", [ab(x) if x[0] != "-" else x for x in m["items"]], ([] if lk else [ab(q["source_file"])]) + [ab(x) if x[0] != "-" else x for x in items])
        cmp("library directories", sorted(set(m["L"])), sorted(set(L))); cmp("flags", uniq(m["flags"]), uniq(f["flags"])); cmp("colour", m["color"], "always" if q["log_format"] == "ansi_term" else "never")
        if lk: return
        for d in dl:
            if d["origin"] == "pkg-config" and not d["ref"].startswith("empty"): defs[d["ref"]] = "1"; inc.append(f"/opt/{d['ref']}/include")
        b = q["build_info"]; ts = datetime.datetime.fromtimestamp(b["start_time"], datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S UTC")
        defs.update({"MAIKE_TASKID": f"{q['task_id']}L", "MAIKE_BUILDINFO_STARTTIME": f"{b['start_time']}L", "MAIKE_BUILDINFO_STARTTIME_STR": f'"{ts}"', "MAIKE_BUILDINFO_BUILDID": f'"{b["build_id"]}"', "MAIKE_BUILDINFO_TARGETDIR": f'"{b["target_dir"]}"', "MAIKE_BUILDINFO_SOURCEDIR": f'"{b["source_dir"]}"'})
        sd = posixpath.dirname(q["source_file"]); iq = [x for i in ([posixpath.relpath(ab(sd), ab(k.S))] if sd else []) + cfg["iquote"] for x in (ab(k.S + "/" + i), ab(k.T + "/" + i))]
        cmp("macros", m["defs"], defs); cmp("include directories", uniq(m["I"]), uniq(inc)); giq = uniq(ab(x) for x in m["iquote"])
        if sd or [x for x in giq if x not in (ab(k.S), ab(k.T))] != [x for x in uniq(iq) if x not in (ab(k.S), ab(k.T))]: cmp("directories for quoted includes", giq, uniq(iq)) # a file in the root need not name its own directory
        cmp("forced includes", [ab(x) for x in m["include"]], [ab(d["ref"]) for d in dl if d.get("rel") == "include" and d["origin"] != "pkg-config"]); cmp("language revision", m["std"], cfg.get("std_revision", {}).get("selected"))
        if "run" in acts and not any(ab(x[0]) == ab(k.targets[0]) for x in run.calls): bad("the program is not run")
        if "run" not in acts and any(ab(x[0]) == ab(k.targets[0]) for x in run.calls): bad("the program is run")
        tidy = [x for x in run.calls if x[0] == "clang-tidy"]; cmp("checks by clang-tidy", len(tidy), int("sanitize" in acts))
        for x in tidy:
            z = x.index("--") if "--" in x else len(x); g = cc_parse([""] + x[z + 1:])
            if q["source_file"] not in x[1:z]: bad("clang-tidy is not given the source file")
            for n in ("defs", "I", "iquote", "include", "std"):
                if g[n] != m[n]: bad(f"clang-tidy is given other options ({n}) than the compiler"); break
    elif k.recipe == "make_lib.py":
        try: mem = json.loads(t0[3:])
        except ValueError: bad("the target is not an archive"); return
        cmp("members", sorted(map(list, mem)), sorted([posixpath.basename(x), rd(w, x).decode("latin1")] for x in linked([d for d in dl if d["origin"] in ("generated", "project")])[0]))
        if not any(x[0] == k.env.get("AR", "ar") for x in run.calls): bad("another archiver is used than the one that is asked for")
    elif k.recipe == "generic.py": e = [string.Template(x).substitute(source_file=q["source_file"], target=k.targets[0]) for x in cfg["compilation_cmd"]["args"]]; cmp("result", t0.decode(), (b"GEN " + H(e[:-1], rd(w, q["source_file"]))).decode())
    elif k.recipe == "copy_file.py": cmp("length of the copy", len(t0), len(rd(w, q["source_file"]))); cmp("copy", H(t0).decode(), H(rd(w, q["source_file"])).decode())
    elif k.recipe == "sass2css.py": cmp("result", t0.decode(), "css " + hashlib.sha256(rd(w, q["source_file"])).hexdigest())
    elif k.recipe.endswith("about.py"):
        got = dict(re.findall(r'char const\* ?Maike::Self::(\w+) *= *"(.*)";', t0.decode())); cmp("what the program says about itself", sorted(got.items()), sorted(k.text))
    elif k.recipe.endswith("manpage.py"):
        for x in k.text:
            if x not in t0.decode(): bad(f"the manual page lacks {x!r}")
        if "$" in t0.decode(): bad("the manual page has a part that was not filled in")
    elif k.recipe.endswith("cmdlineopts.py"): cmp("options", t0.decode().replace("\\-", "-"), t_maike([k.T + "/core/bin/maike2", "--help"], w, b"")[1].decode())
    elif k.recipe.endswith("configdefault.py"):
        body = [x for x in t0.decode().split("\n") if x and not x.startswith("```")]; cmp("configuration", json.loads("\n".join(body)), json.loads(t_maike([k.T + "/core/bin/maike2", "--config-default", "--configdump"], w, b"")[1]))
    elif k.recipe.endswith("2xml.py") or k.recipe == "md2htmlpart.py":
        if k.recipe != "md2htmlpart.py": q = dict(q, source_file=k.T + "/doc/" + posixpath.basename(k.targets[0])[:-3] + "md")
        try: r = xml.etree.ElementTree.fromstring(t0.decode())
        except Exception as e: bad(f"the target is not XML: {e}"); return
        cmp("sections", [[x.get("id"), x.get("title"), "".join(x.itertext()).strip(), x.get("class")] for x in r.iter("section")], [[i, t, x, None] for i, t, x in sections(rd(w, q["source_file"]))])
    elif k.recipe == "doc2html.py":
        try: m = json.loads(t0[6:-7])
        except ValueError: bad("the target is not what xsltproc makes"); return
        cmp("document", m["doc"], rd(w, q["source_file"]).decode("latin1")); cmp("style sheet", m["sheet"], H(fakeos.REAL["open"](RCP + "/doc2html.xsl", "rb").read()).decode()); cmp("current_dir", ab(m["param"].get("current_dir", "?")), ab(k.T + "/" + posixpath.relpath(ab(posixpath.dirname(q["source_file"])), ab(k.S))))
    elif k.recipe == "vcslog.py":
        ok, h = k.git
        try: m = json.loads(t0)
        except ValueError: bad("the target is not JSON"); return
        if not ok: cmp("version log", m, {"commit": "cached"})
        else: cmp("version log", m, {"commit": f"{h}0003", "tag": "v1-" + h, "changelog": [[1500000003 - i, f"commit {3 - i}", "v1-" + h] for i in range(3)]}); cmp("cache", json.loads(rd(w, k.S + "/__buildcache/vcslog.json")), m)
def go(c, k, w, faults):
    COMPILERS.clear(); COMPILERS.update(k.compilers)
    run, st, out, err = fakeos.run_recipe(f"{RCP}/{k.recipe}", code_of(k.recipe), [k.cmd, json.dumps(k.req)] if k.argv is None else k.argv, w, faults, tools, k.modules, k.out_faults, k.env)
    c.runs += 1; log = "\n".join(run.log) + f"\nstatus {st}\n{out}\n{err}\n" + repr(sorted(run.touched)); c.hash.update(log.encode())
    if run.fired: c.sigs.add(hashlib.sha256((k.recipe + k.cmd + json.dumps(k.req) + log).encode()).hexdigest()[:16])
    for f, _ in run.fired: c.faults["py_" + f] = c.faults.get("py_" + f, 0) + 1
    if c.verbose: print(f"---- {k.recipe} {k.cmd} {json.dumps(k.req)}\n{log}\n", file=sys.stderr)
    return run, st, out, err
def contents(w, k): return {t: rd(w, t) if not (w.get(t) and w.get(t).dir) else "dir" for t in k.targets}
def scope(c, k, w, before, run, ctx):
    ok = {w.abs(t) for t in k.targets} | k.also | {"/dev", "/dev/null"}
    for p, v in w.snapshot().items():
        if p not in ok and before.get(p, 0) != v and not (k.also and p.startswith(tuple(x + "/" for x in k.also))): c.viol("scope", f"{ctx}: changes {p}, which is none of its targets"); return
    for p in before:
        if p not in ok and p not in w.fs and not (k.also and p.startswith(tuple(x + "/" for x in k.also))): c.viol("scope", f"{ctx}: removes {p}"); return
def scenario(c):
    kind = KINDS[c.pick(len(KINDS))]; k = make_case(c, kind, 1)
    if code_of(k.recipe) is None: return
    ctx = f"{k.recipe} {k.cmd}"; c.note = ctx
    ref = fakeos.World(); place(ref, k); fresh = ref.clone(); before = ref.snapshot(); run0, st0, out0, err0 = go(c, k, ref, {})
    want = contents(ref, k); c.count("reference_runs")
    if k.expect == 0:
        if st0 != 0:
            for cl, pr in (("fails", "C20"), ("refused", "C24")): c.viol(cl, f"{ctx}: exits with {st0} although nothing failed: {err0.strip()[-200:]}", pr)
            return
        for t, v in want.items():
            if v is None:
                for cl, pr in (("missing", "C20"), ("not_made", "C24")): c.viol(cl, f"{ctx}: exits with 0, but {t} was not made", pr)
                return
    elif st0 == 0: c.viol("swallowed", f"{ctx}: exits with 0 although it cannot do its job (input it cannot process)"); return
    scope(c, k, ref, before, run0, ctx)
    if k.expect: return
    try: semantics(c, k, ref, run0, out0, ctx)
    except fakeos.Unsupported: raise
    except (KeyError, TypeError, ValueError, AttributeError, IndexError) as e: c.viol("request", f"{ctx}: its answer or target lacks what was asked for ({type(e).__name__}: {e})", "C24")
    if k.targets and len(k.targets) > 1 and k.recipe in ("cxx_compiler.py", "copy_file.py", "sass2css.py") and len(set(want.values())) != 1: c.viol("copies", f"{ctx}: its targets differ from each other"); return
    # every input named in the request has a say
    if k.cmd == "compile" and kind not in ("dir", "vcs", "cxx_hdr", *OWN):
        used = [k.req["source_file"]] if kind not in ("linker", "lib") else []
        used += [d["ref"] for d in k.req["dependencies"] if (d["origin"] == "generated" and d.get("rel") == "implementation" and (kind in ("linker", "lib") or "link" in k.req["compiler_cfg"].get("actions", []))) or (d.get("rel") == "include" and k.recipe == "cxx_compiler.py")]
        if used and c.chance(1, 2):
            u = used[c.pick(len(used))]; w4 = fresh.clone(); w4.put(u, rd(w4, u).replace(b"1", b"7") if kind == "doc" else b"other " + rd(w4, u)); _, s4, _, e4 = go(c, k, w4, {}); c.count("changed_inputs")
            if s4 != 0: c.viol("fails", f"{ctx}: exits with {s4} although nothing failed: {e4.strip()[-200:]}"); return
            if contents(w4, k) == want: c.viol("ignored", f"{ctx}: the result does not depend on {u}, which the request names as an input"); return
    # an earlier run with other inputs, then this one: the outcome must not depend on it
    w = fresh.clone()
    if c.chance(1, 3) and kind not in ("dir", "cfg", "tags_doc", "tags_gen", "vcs"):
        k2 = make_case(c, kind, 2); k2.targets = k.targets; k2.req["targets"] = k.targets; k2.req["source_file"] = k.req["source_file"]; w2 = fakeos.World(); place(w2, k2)
        for p, v in k.files.items():
            if p not in k2.files: w2.put(p, v)
        for d in k.dirs: w2.mkdirs(w2.abs(d))
        _, s2, _, _ = go(c, k2, w2, {})
        if s2 == 0:
            for t in k.targets: w.put(t, rd(w2, t), w2.get(t).mode)
            c.count("stale_starts"); w3 = w.clone(); before = w3.snapshot(); r3, s3, _, e3 = go(c, k, w3, {})
            if s3 != 0: c.viol("fails", f"{ctx}: exits with {s3} when run again after a change: {e3.strip()[-200:]}"); return
            if contents(w3, k) != want: c.viol("history", f"{ctx}: the result depends on what an earlier run left behind"); return
    elif kind == "dir" and c.chance(1, 2):
        for t in k.targets[:1 + c.pick(2)]:
            if c.chance(1, 3): w.put(t[:-2] if t.endswith("/.") else t, "a file in the way"); c.count("blocked_directories")
            else: w.mkdirs(w.abs(t))
    # one or two faults
    n = run0.n
    if n == 0: return
    nf = 1 + (c.pick(4) == 3); faults = {1 + c.pick(4096) * n // 4096: c.pick(48) for _ in range(nf)}
    if c.chance(1, 8): faults = {}
    before = w.snapshot(); blocked = kind == "dir" and any(w.get(t) is not None and not w.get(t).dir for t in k.targets)
    run, st, out, err = go(c, k, w, faults); scope(c, k, w, before, run, ctx)
    if any(v[2] == "C20" for v in c.viols): return
    if run.fired:
        c.count("faulted_runs"); what = ", ".join(f"{a} {b}" for a, b in run.fired)
        if st == 0 and not tolerated(k, run): c.viol("swallowed", f"{ctx}: exits with 0 although something failed ({what})"); return
    if st == 0:
        if contents(w, k) != want: c.viol("wrong", f"{ctx}: exits with 0, but its targets are not what they should be"); return
        if k.cmd != "compile" and out != out0 and not run.fired: c.viol("answer", f"{ctx}: the answer differs between two runs"); return
    elif not run.fired and not blocked: c.viol("fails", f"{ctx}: exits with {st} although nothing failed: {err.strip()[-200:]}"); return
    # afterwards without faults (the build program removes the targets of a failed step)
    if blocked: return
    if st != 0:
        for t in k.targets:
            a = w.abs(t)
            if a in w.fs and not w.fs[a].dir: del w.fs[a]
    run2, st2, _, err2 = go(c, k, w, {})
    if st2 != 0: c.viol("recover", f"{ctx}: exits with {st2} after an earlier failure, although nothing fails any more: {err2.strip()[-200:]}"); return
    if contents(w, k) != want: c.viol("recover", f"{ctx}: wrong result after an earlier failure")
def tolerated(k, run):
    """Failures that a recipe may legitimately survive."""
    if k.cmd == "configure" and "std_revision" in k.req and len(cfg_tried(k)) > 1 and all(a == "tool" for a, _ in run.fired): return True # another compiler took over
    if k.recipe == "../build.py" and run.fired == [("tool", "maike2")] and "maike2" in run.nolaunch: return True # not installed, as it looks: the bootstrap script takes over
    return all(a == "listdir" for a, _ in run.fired)

# ---------------------------------------------------------------- search, replay
def one(seed, tier, w=None, verbose=False):
    c = Ctx(seed, tier, w); c.verbose = verbose
    try: scenario(c)
    except fakeos.Unsupported as e: c.count("unsupported_" + str(e)); c.viols = []
    return c
def minimise(seed, tier, w, cls, budget):
    end = time.time() + budget; best = list(w); again = True
    def ok(x):
        c = one(seed, tier, x); return c if any(v[0] == cls for v in c.viols) else None
    while again and time.time() < end:
        again = False; ln = max(1, len(best) // 2)
        while ln >= 1:
            at = 0
            while at < len(best) and time.time() < end:
                x = best[:at] + [0] * len(best[at:at + ln]) + best[at + ln:]
                if any(best[at:at + ln]) and ok(x): best = x; again = True
                else:
                    x = best[:at] + best[at + ln:]
                    if ok(x): best = x; again = True; continue
                at += ln
            if ln == 1: break
            ln //= 2
    while best and best[-1] == 0 and ok(best[:-1]): best.pop()
    return best
def mix(seed, i): return int.from_bytes(hashlib.sha256(f"{seed}/{i}".encode()).digest()[:6], "big")
def unprivileged():
    if os.getuid() == 0:
        p = pwd.getpwnam("nobody"); os.setgroups([]); os.setgid(p.pw_gid); os.setuid(p.pw_uid)
def search(a):
    o = dict(zip(a[::2], a[1::2])); seed = int(o.get("--seed", 1)); props = o.get("--props", "C20,C24").split(","); i = int(o.get("--from", 0)); stride = int(o.get("--stride", 1)); budget = float(o.get("--time", 10)); tier = o.get("--tier", "quick"); out = o["--out"]; t0 = time.time()
    out = os.path.abspath(out); fj = open(out + ".json", "w"); os.chdir("/"); hitfd, child = os.pipe()
    if os.fork(): # the parent keeps its rights, does nothing but to write the replay file
        os.close(child); text = b""
        while True:
            b = os.read(hitfd, 65536)
            if not b: break
            text += b
        st = os.waitstatus_to_exitcode(os.wait()[1])
        if text and st == 3:
            with open(out + ".replay.json", "wb") as f: f.write(text)
        return st
    os.close(hitfd); fr = os.fdopen(child, "w"); unprivileged()
    tot = {"runs": 0, "invocations": 0, "nondet": 0, "rechecked": 0}; sigs = set(); faults = {}; cnt = {}; samples = []; hit = None; maxruns = int(o.get("--runs", 1 << 60))
    while time.time() - t0 < budget and tot["runs"] < maxruns:
        sd = mix(seed, i); i += stride; c = one(sd, tier); tot["runs"] += 1; tot["invocations"] += c.runs; sigs |= c.sigs
        for s, d in ((c.faults, faults), (c.cnt, cnt)):
            for k, v in s.items(): d[k] = d.get(k, 0) + v
        if len(samples) < 3 and tot["runs"] % 11 == 5: samples.append(f"seed {sd}: {c.note}, faults {c.faults}, {c.runs} recipe processes")
        if tot["runs"] % 40 == 7:
            tot["rechecked"] += 1
            if one(sd, tier).hash.digest() != c.hash.digest(): tot["nondet"] += 1; print("nondeterminism at seed", sd)
        mine = [v for v in c.viols if v[2] in props]
        if mine:
            cls = mine[0][0]; w = minimise(sd, tier, c.w, cls, min(20, float(o.get("--min", 20)))); m = one(sd, tier, w); v = [x for x in m.viols if x[0] == cls]
            if not v: w = c.w; m = one(sd, tier, w); v = [x for x in m.viols if x[0] == cls]
            if not v: tot["nondet"] += 1; continue
            hit = {"property": v[0][2], "class": cls, "message": v[0][1], "scenario": "recipes", "tier": tier, "seed": str(sd), "world": w, "hash": m.hash.hexdigest()[:16], "summary": f"{len(w)} choices, faults {m.faults}"}; break
    r = dict(tot, sigs=sorted(sigs), faults=faults, counters=cnt, scenarios={"recipes": tot["runs"]}, samples=samples, wall=time.time() - t0); json.dump(r, fj); fj.close()
    if hit: json.dump(hit, fr, indent=1)
    fr.close(); print("done", tot, cnt, faults, hit and hit["message"])
    return 3 if hit else 0
def replay(a):
    j = json.load(open(a[0])); os.chdir("/"); unprivileged(); c = one(int(j["seed"]), j["tier"], j["world"], len(a) > 1); v = [x for x in c.viols if x[0] == j["class"]]
    if not v: print("no violation"); return 0
    print(f"{j['property']}: {v[0][1]}\nhistory hash {c.hash.hexdigest()[:16]}" + (" (identical to the recorded one)" if c.hash.hexdigest()[:16] == j["hash"] else " (DIFFERS from the recorded one)")); return 1
if __name__ == "__main__":
    if sys.argv[1] == "search": sys.exit(search(sys.argv[2:]))
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2:]))
    if sys.argv[1] == "one":
        os.chdir("/"); unprivileged(); c = one(int(sys.argv[2]), "quick", None, True); print(c.viols)
