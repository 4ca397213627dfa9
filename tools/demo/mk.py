"""Helper of the demonstrations: a scratch project, the built maike2, a scripted recipe."""
import json, os, shutil, subprocess, sys, tempfile, time
REPO = os.getcwd(); MAIKE = REPO + "/__targets_vp/bin/maike2"
RECIPE = r'''#!/usr/bin/python3 -S
import sys, json, os, time, hashlib
def log(s):
    f = os.open(os.environ["MK_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT); os.write(f, (s + "\n").encode()); os.close(f)
if sys.argv[1] == "get_tags":
    r = json.loads(sys.argv[2]); d = json.load(open(r["source_file"])).get("do", {})
    sys.stdout.write(d.get("tags", "{}")); sys.exit(0)
if sys.argv[1] != "compile": sys.exit(0)
r = json.loads(sys.argv[2]); src = r["source_file"]; d = json.load(open(src)).get("do", {}) if src.endswith(".rule") else {}
log("start " + src)
if d.get("sleep"): time.sleep(d["sleep"])
while d.get("wait_for") and not os.path.exists(d["wait_for"]): time.sleep(0.02)
h = hashlib.sha256(open(src, "rb").read())
for x in r["dependencies"]:
    if x["origin"] in ("generated", "project") and os.path.isfile(x["ref"]): h.update(open(x["ref"], "rb").read())
    elif x["origin"] in ("generated", "project") and not os.path.exists(x["ref"]): h.update(b"missing"); log("missing " + x["ref"] + " for " + src)
log("request " + json.dumps(r, sort_keys=True))
for i, t in enumerate(r["targets"]):
    open(t, "w").write(h.hexdigest() + " %d\n" % i)
if d.get("out"): sys.stdout.write(d["out"]); sys.stdout.flush()
for piece in d.get("pieces", []): sys.stdout.write(piece); sys.stdout.flush(); time.sleep(0.05)
if d.get("err"): sys.stderr.write(d["err"]); sys.stderr.flush()
log("end " + src)
if d.get("kill"): os.kill(os.getpid(), d["kill"])
sys.exit(d.get("exit", 0))
'''
MKDIR = r'''#!/usr/bin/python3 -S
import sys, json, os
if sys.argv[1] == "compile":
    for t in json.loads(sys.argv[2])["targets"]: os.makedirs(t[:-2] if t.endswith("/.") else t, exist_ok=True)
'''
class Project:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="maikedemo."); self.log = self.d + "/.log"
        self.write("r.py", RECIPE, 0o755); self.write("mkdir.py", MKDIR, 0o755); self.config()
    def config(self, **loaders):
        c = {"rule": {"loader": "maikerule", "config": {}, "compiler": {"recipe": "r.py", "config": {}, "use_get_tags": 0}},
             "cxx": {"loader": "cxx_src_loader", "config": {"generated_includes": ["\\.gen\\.hpp$"]}, "compiler": {"recipe": "r.py", "config": {}, "use_get_tags": 0}}}
        c.update(loaders)
        self.write("maikeconfig.json", json.dumps({"maikeconfig": {"dir_compiler": {"config": {}, "recipe": "mkdir.py"}, "source_file_info_loaders": c,
            "source_tree_loader": {"file_info_loaders": {".rule": "rule", ".cpp": "cxx", ".hpp": "cxx"}, "input_filter": ["^\\.", "^__"], "fullpath_input_filter": [], "recursive": 1}}}))
    def write(self, rel, text, mode=0o644):
        p = self.d + "/" + rel; os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write(text)
        os.chmod(p, mode); return p
    def rule(self, name, targets, deps=(), **do):
        self.write(name + ".rule", json.dumps({"targets": [t if isinstance(t, dict) else {"name": t} for t in targets], "dependencies": [d if isinstance(d, dict) else {"ref": d, "origin": "generated"} for d in deps],
            "compiler": {"recipe": "r.py", "config": do.pop("cfg", {}), "use_get_tags": do.pop("get_tags", 0)}, "do": do}))
    def run(self, *args, workers=4, timeout=60, preload=None, env=None, text=True, **kw):
        """(exit status or None when it hangs, stdout, stderr); the events of the recipes are in self.events afterwards"""
        if os.path.exists(self.log): os.remove(self.log)
        e = dict(os.environ, MK_LOG=self.log)
        if preload: e["LD_PRELOAD"] = preload
        if env: e.update(env)
        p = subprocess.Popen([MAIKE, f"--num-workers={workers}", *args], cwd=self.d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text, errors="replace" if text else None, start_new_session=True, **kw)
        try: o, r = p.communicate(timeout=timeout); st = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); o, r = p.communicate(); st = None
        self.events = open(self.log).read().splitlines() if os.path.exists(self.log) else []
        return st, o, r
    def started(self): return [x[6:] for x in self.events if x.startswith("start ")]
    def target(self, n):
        p = self.d + "/__targets/" + n
        return open(p).read() if os.path.isfile(p) else None
    def mtime(self, rel, t): os.utime(self.d + "/" + rel, (t, t))
    def preload(self, code):
        p = self.write(".shim.c", "#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <errno.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <sys/types.h>\n#include <pthread.h>\n" + code)
        so = self.d + "/.shim.so"; subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-o", so, p, "-ldl"], check=True); return so
    def close(self): shutil.rmtree(self.d, ignore_errors=True)
def check(cond, text):
    if not cond: print("FAILS: " + text); sys.exit(1)
def program(src, sources, out=None, flags=()):
    """Compiles a program against /repo's sources."""
    d = tempfile.mkdtemp(prefix="maikedemo."); p = d + "/p.cpp"; open(p, "w").write(src)
    subprocess.run(["g++", "-std=c++17", "-O1", "-g", "-w", "-iquote", REPO, *flags, "-o", d + "/p", p] + [REPO + "/" + s for s in sources] + ["-ljansson", "-lpthread", "-ldl"], check=True)
    return d + "/p"
def demo(f):
    p = Project()
    try: f(p)
    finally: p.close()
    print("ok"); sys.exit(0)
