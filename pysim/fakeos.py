"""A simulated file system, process launcher and output streams under Python code, with injected faults.

Everything the recipes may touch goes through the functions patched here; paths under the interpreter's own
directories and the recipe directory stay real (imports)."""
import builtins, errno, io, os, posixpath, shutil, signal, socket, stat as stat_m, subprocess, sys, types, hashlib

class Unsupported(BaseException):
    def __init__(self, what):
        super().__init__(what)
        if RUN is not None: RUN.unsupported = what

class Node:
    __slots__ = ("data", "dir", "mode", "ino")
    def __init__(self, data=b"", dir=False, mode=0o644, ino=0):
        self.data, self.dir, self.mode, self.ino = data, dir, mode, ino

class World:
    """The state that outlives one recipe process."""
    def __init__(self, cwd="/w"):
        self.fs = {"/": Node(dir=True)}; self.cwd = cwd; self.ino = 1; self.mkdirs(cwd)
    def abs(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes): p = p.decode()
        trail = p.endswith("/.") or p.endswith("/")
        a = posixpath.normpath(posixpath.join(self.cwd, p))
        return a
    def mkdirs(self, p):
        cur = "/"
        for part in [x for x in p.split("/") if x]:
            cur = posixpath.join(cur, part)
            if cur not in self.fs: self.fs[cur] = Node(dir=True)
    def put(self, p, data, mode=0o644):
        a = self.abs(p); self.mkdirs(posixpath.dirname(a)); self.ino += 1; self.fs[a] = Node(data if isinstance(data, bytes) else data.encode(), mode=mode, ino=self.ino)
    def get(self, p):
        return self.fs.get(self.abs(p))
    def clone(self):
        w = World(self.cwd); w.ino = self.ino
        w.fs = {k: Node(n.data, n.dir, n.mode, n.ino) for k, n in self.fs.items()}; return w
    def snapshot(self):
        return {k: (None if n.dir else n.data) for k, n in self.fs.items()}

class Run:
    """One recipe process."""
    def __init__(self, world, faults, tools):
        self.w = world; self.faults = dict(faults); self.tools = tools; self.n = 0; self.sites = []; self.fired = []; self.log = []; self.fds = {}; self.nextfd = 20000
        self.touched = set(); self.toolfail = []; self.nolaunch = []; self.unsupported = None; self.calls = []
    # a place where a fault can happen; returns the fault's argument or None
    def point(self, kind, what):
        self.n += 1; self.sites.append((kind, what)); a = self.faults.get(self.n)
        if a is None: return None
        self.fired.append((kind, what)); self.log.append(f"FAULT {kind} {what} arg {a}"); return a
    def err(self, e, p=None):
        raise OSError(e, os.strerror(e), None if p is None else os.fspath(p) if not isinstance(p, int) else p)

IO_ERRS = [errno.EIO, errno.ENOSPC, errno.EDQUOT]
OPEN_ERRS = [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOMEM]
MK_ERRS = [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EIO]
RUN = None

class SimRaw(io.RawIOBase):
    def __init__(self, path, r, w, app, name):
        self.p, self.rd, self.wr, self.app, self.name = path, r, w, app, name; self.pos = len(RUN.w.fs[path].data) if app else 0; self.werr = None; self.node = RUN.w.fs[path]
    def readable(self): return self.rd
    def writable(self): return self.wr
    def seekable(self): return True
    def fileno(self): raise io.UnsupportedOperation("fileno")
    def isatty(self): return False
    def readinto(self, b):
        a = RUN.point("read", self.p) if len(self.node.data) > self.pos else None
        if a is not None: RUN.err(errno.EIO, self.name)
        d = self.node.data[self.pos:self.pos + len(b)]; b[:len(d)] = d; self.pos += len(d); return len(d)
    def write(self, b):
        b = bytes(b); a = RUN.point("write", self.p)
        if a is not None:
            k = len(b) * (a // 4 % 3) // 3; self._put(b[:k]); e = IO_ERRS[a % 3]
            RUN.err(e, self.name)
        self._put(b); return len(b)
    def _put(self, b):
        d = self.node.data; d = d + b"\0" * (self.pos - len(d)); self.node.data = d[:self.pos] + b + d[self.pos + len(b):]; self.pos += len(b); RUN.touched.add(self.p)
    def seek(self, o, wh=0):
        self.pos = o if wh == 0 else self.pos + o if wh == 1 else len(self.node.data) + o; return self.pos
    def tell(self): return self.pos
    def truncate(self, n=None):
        n = self.pos if n is None else n; self.node.data = self.node.data[:n]; RUN.touched.add(self.p); return n
    def close(self):
        if not self.closed:
            super().close()
            if self.wr and RUN is not None and RUN.point("close", self.p) is not None: RUN.err(errno.ENOSPC, self.name)

def real_path(p):
    a = os.fspath(p)
    if isinstance(a, bytes): a = a.decode()
    return a.startswith(REAL_PREFIXES)

REAL_PREFIXES = ()

def lookup(p, follow=True):
    a = RUN.w.abs(p); parts = a.split("/")
    for i in range(2, len(parts)):
        d = "/".join(parts[:i]) or "/"; n = RUN.w.fs.get(d)
        if n is None: RUN.err(errno.ENOENT, p)
        if not n.dir: RUN.err(errno.ENOTDIR, p)
    return a, RUN.w.fs.get(a)

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        if file in RUN.fds: raw = RUN.fds.pop(file)
        elif file in (0, 1, 2): raise Unsupported(f"open of descriptor {file}")
        else: RUN.err(errno.EBADF, file)
    else:
        if real_path(file): return REAL["open"](file, mode, buffering, encoding, errors, newline)
        raw = raw_open(file, mode)
    if "b" in mode:
        if buffering == 0: return raw
        if "+" in mode: return io.BufferedRandom(raw)
        return io.BufferedWriter(raw) if raw.wr else io.BufferedReader(raw)
    b = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw) if raw.wr else io.BufferedReader(raw)
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline); t.mode = mode; return t

def raw_open(file, mode):
    wr = any(c in mode for c in "wax+"); rd = "r" in mode or "+" in mode; a, n = lookup(file)
    if os.fspath(file) in ("/dev/null", b"/dev/null"):
        RUN.w.mkdirs("/dev"); RUN.w.fs.setdefault("/dev/null", Node()); n = RUN.w.fs["/dev/null"]; n.data = b""
    f = RUN.point("open", a)
    if f is not None: RUN.err((OPEN_ERRS + ([errno.ENOSPC] if wr and n is None else []))[f % (5 if wr and n is None else 4)], file)
    if n is not None and n.dir: RUN.err(errno.EISDIR, file)
    if "x" in mode and n is not None: RUN.err(errno.EEXIST, file)
    if n is None:
        if not wr or mode.startswith("r"): RUN.err(errno.ENOENT, file)
        if posixpath.dirname(a) not in RUN.w.fs: RUN.err(errno.ENOENT, file)
        RUN.w.ino += 1; n = RUN.w.fs[a] = Node(ino=RUN.w.ino); RUN.touched.add(a)
    elif "w" in mode: n.data = b""; RUN.touched.add(a)
    return SimRaw(a, rd, wr, "a" in mode, file)

def s_osopen(path, flags, mode=0o777, *, dir_fd=None):
    if real_path(path): raise Unsupported("os.open of a real path")
    m = "r" if flags & 3 == os.O_RDONLY else "r+"
    a, n = lookup(path)
    if flags & os.O_CREAT:
        if n is not None and flags & os.O_EXCL: RUN.err(errno.EEXIST, path)
        m = "a+" if flags & os.O_APPEND else "w+" if (n is None or flags & os.O_TRUNC) else "r+"
    elif flags & os.O_TRUNC and n is not None: m = "w+"
    raw = raw_open(path, m); RUN.nextfd += 1; RUN.fds[RUN.nextfd] = raw; return RUN.nextfd
def fdo(fd):
    if fd not in RUN.fds: RUN.err(errno.EBADF, fd)
    return RUN.fds[fd]
def s_oswrite(fd, b):
    if fd in (1, 2): (sys.stdout if fd == 1 else sys.stderr).buffer.write(b); return len(b)
    return fdo(fd).write(b)
def s_osread(fd, n): b = bytearray(n); k = fdo(fd).readinto(b); return bytes(b[:k])
def s_osclose(fd): fdo(fd).close(); del RUN.fds[fd]
def s_fsync(fd):
    if RUN.point("fsync", "file") is not None: RUN.err(errno.EIO)
def s_mkdir(path, mode=0o777, *, dir_fd=None):
    a, n = lookup(path)
    if n is not None: RUN.err(errno.EEXIST, path)
    if os.fspath(path).endswith("/."): RUN.err(errno.ENOENT, path)
    if posixpath.dirname(a) not in RUN.w.fs: RUN.err(errno.ENOENT, path)
    f = RUN.point("mkdir", a)
    if f is not None: RUN.err(MK_ERRS[f % 4], path)
    RUN.w.fs[a] = Node(dir=True); RUN.touched.add(a)
def s_makedirs(name, mode=0o777, exist_ok=False):
    a = RUN.w.abs(name)
    if a in RUN.w.fs:
        if not exist_ok or not RUN.w.fs[a].dir: RUN.err(errno.EEXIST, name)
        return
    d = posixpath.dirname(a)
    if d not in RUN.w.fs: s_makedirs(d, mode, True)
    s_mkdir(a)
def s_remove(path, *, dir_fd=None):
    a, n = lookup(path)
    if n is None: RUN.err(errno.ENOENT, path)
    if n.dir: RUN.err(errno.EISDIR, path)
    f = RUN.point("unlink", a)
    if f is not None: RUN.err([errno.EACCES, errno.EIO][f % 2], path)
    del RUN.w.fs[a]; RUN.touched.add(a)
def s_rmdir(path, *, dir_fd=None):
    a, n = lookup(path)
    if n is None or not n.dir: RUN.err(errno.ENOENT, path)
    if any(k.startswith(a + "/") for k in RUN.w.fs): RUN.err(errno.ENOTEMPTY, path)
    del RUN.w.fs[a]; RUN.touched.add(a)
def s_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, n = lookup(src); b, m = lookup(dst)
    if n is None: RUN.err(errno.ENOENT, src)
    if m is not None and m.dir: RUN.err(errno.EISDIR, dst)
    f = RUN.point("rename", b)
    if f is not None: RUN.err([errno.EACCES, errno.EIO, errno.ENOSPC][f % 3], dst)
    RUN.w.fs[b] = n; del RUN.w.fs[a]; RUN.touched.update((a, b))
def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int): n = fdo(path).node
    else:
        if real_path(path): return REAL["stat"](path)
        a, n = lookup(path)
    if n is None: RUN.err(errno.ENOENT, path)
    return os.stat_result(((stat_m.S_IFDIR | 0o755) if n.dir else (stat_m.S_IFREG | n.mode), n.ino, 1, 1, 0, 0, len(n.data), 1600000000, 1600000000, 1600000000))
def s_listdir(path="."):
    if real_path(path): return REAL["listdir"](path)
    a, n = lookup(path)
    if n is None: RUN.err(errno.ENOENT, path)
    if not n.dir: RUN.err(errno.ENOTDIR, path)
    return sorted(k[len(a.rstrip("/")) + 1:] for k in RUN.w.fs if posixpath.dirname(k) == a and k != "/")
class SimEntry:
    def __init__(self, d, name): self.name = name; self.path = posixpath.join(d, name)
    def __fspath__(self): return self.path
    def stat(self, *, follow_symlinks=True): return s_stat(self.path)
    def is_dir(self, *, follow_symlinks=True): return RUN.w.get(self.path).dir
    def is_file(self, *, follow_symlinks=True): return not RUN.w.get(self.path).dir
    def is_symlink(self): return False
    def inode(self): return RUN.w.get(self.path).ino
class SimScan:
    def __init__(self, l): self.l = iter(l)
    def __iter__(self): return self.l
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
def s_scandir(path="."):
    if real_path(path): return REAL["scandir"](path)
    return SimScan([SimEntry(os.fspath(path), n) for n in os.listdir(path)])
def s_access(path, mode, **kw):
    n = RUN.w.get(path); return n is not None and (not mode & os.X_OK or n.dir or bool(n.mode & 0o111))
def s_chmod(path, mode, **kw):
    a, n = lookup(path)
    if n is None: RUN.err(errno.ENOENT, path)
    n.mode = mode
def s_utime(path, *a, **k):
    if lookup(path)[1] is None: RUN.err(errno.ENOENT, path)
def s_truncate(path, length):
    a, n = lookup(path)
    if n is None: RUN.err(errno.ENOENT, path)
    n.data = n.data[:length]; RUN.touched.add(a)
def nope(name):
    def f(*a, **k): raise Unsupported(name)
    return f

class FeedPipe(io.BytesIO):
    def __init__(self, p): super().__init__(); self.p = p
    def write(self, b): self.p._in += bytes(b); return len(b)
class LazyPipe:
    def __init__(self, p, name): self.__dict__["_p"] = p; self.__dict__["_n"] = name
    def _get(self): self._p._run(); return getattr(self._p, self._n)
    def __getattr__(self, n): return getattr(self._get(), n)
    def __iter__(self): return iter(self._get())
    def __enter__(self): return self
    def __exit__(self, *a): return False

class SimPopen:
    """A started tool. It runs to completion at the first wait; its reads and writes hit the simulated file system."""
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        if isinstance(args, (str, bytes)) or shell: args = ["sh", "-c", args] if isinstance(args, str) else ["sh", "-c"] + list(args)
        self.args = args; self.text = bool(text or universal_newlines or encoding or errors); self.returncode = None; self.pid = 4000 + RUN.n
        argv = [os.fspath(x) for x in args]; RUN.log.append("tool " + repr(argv)); RUN.calls.append(argv); self.so, self.se = stdout, stderr
        f = RUN.point("tool", argv[0]); tool = RUN.tools(argv, RUN.w)
        if tool is None: RUN.nolaunch.append(argv[0]); raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        if f is not None and f % 8 < 2:
            e = [errno.ENOENT, errno.EAGAIN, errno.ENOMEM, errno.EACCES][f // 8 % 4]; RUN.toolfail.append(argv[0]); RUN.nolaunch.append(argv[0]); raise OSError(e, os.strerror(e), argv[0])
        data = b""
        if hasattr(stdin, "read"):
            data = stdin.read(); data = data.encode() if isinstance(data, str) else data
        self._in = data; self._f = f; self._tool = tool; self._argv = argv; self._done = False
        self.stdin = (io.TextIOWrapper(FeedPipe(self), "utf-8") if self.text else FeedPipe(self)) if stdin == subprocess.PIPE else None
        self.stdout = self.stderr = None
        if stdin == subprocess.PIPE: # it is fed first: what comes out of it is there once somebody wants it
            if stdout == subprocess.PIPE: self.stdout = LazyPipe(self, "stdout")
            if stderr == subprocess.PIPE: self.stderr = LazyPipe(self, "stderr")
        elif stdout == subprocess.PIPE or stderr == subprocess.PIPE: self._run()
    def _run(self):
        if self._done: return
        self._done = True; f = self._f
        if self.stdin is not None:
            try: self.stdin.flush()
            except ValueError: pass
        rc, out, err, files = self._tool(self._argv, RUN.w, self._in)
        if f is not None:
            RUN.toolfail.append(self._argv[0]); how = f % 8; keep = f // 8 % 3  # what is left of its outputs: all, a part, nothing
            rc = [1, 2, 255, 77, -signal.SIGKILL, -signal.SIGSEGV][how - 2]; files = {k: v[:len(v) // 2] if keep == 1 else v for k, v in files.items()} if keep < 2 else {}
            if f // 24 % 2: out, err = out[:len(out) // 2], b""
            else: err = err or b"simulated failure\n"
        for k, v in files.items():
            a = RUN.w.abs(k)
            if posixpath.dirname(a) not in RUN.w.fs or (a in RUN.w.fs and RUN.w.fs[a].dir): rc = rc or 1; err += b"cannot write\n"; continue
            RUN.w.put(a, v, 0o755 if v.startswith(b"EXE") else 0o644); RUN.touched.add(a)
        self._rc = rc
        def give(dst, d):
            if dst == subprocess.PIPE: return io.TextIOWrapper(io.BytesIO(d), "utf-8") if self.text else io.BytesIO(d)
            if dst is not None and hasattr(dst, "write"): (dst.buffer if hasattr(dst, "buffer") else dst).write(d)
            return None
        self.stdout = give(self.so, out); self.stderr = give(self.se, err if self.se != subprocess.STDOUT else b"")
    def communicate(self, input=None, timeout=None):
        if input: self._in = input.encode() if isinstance(input, str) else bytes(input); self.stdin = None
        self._run(); o = self.stdout.read() if self.stdout else None; e = self.stderr.read() if self.stderr else None; self.returncode = self._rc; return o, e
    def wait(self, timeout=None): self._run(); self.returncode = self._rc; return self.returncode
    def poll(self): return self.wait()
    def kill(self): pass
    terminate = kill
    def send_signal(self, s): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.wait(); return False

def s_system(cmd):
    p = SimPopen(cmd, shell=True); rc = p.wait(); return rc << 8 if rc >= 0 else -rc

class OutRaw(io.RawIOBase):
    def __init__(self, name, run): self.name_, self.run, self.data = name, run, b""
    def writable(self): return True
    def fileno(self): raise io.UnsupportedOperation("fileno")
    def write(self, b):
        b = bytes(b); a = self.run.point(self.name_, self.name_) if self.name_ == "stdout" and self.run.out_faults else None
        if a is not None: raise OSError([errno.EPIPE, errno.ENOSPC][a % 2], "stdout")
        self.data += b; return len(b)

REAL = {"open": builtins.open, "stat": os.stat, "listdir": os.listdir, "scandir": os.scandir}
PATCH = [(socket, "gethostname", lambda: "simhost"), (builtins, "open", sim_open), (io, "open", sim_open), (os, "open", s_osopen), (os, "write", s_oswrite), (os, "read", s_osread), (os, "close", s_osclose), (os, "fsync", s_fsync), (os, "fdatasync", s_fsync),
         (os, "fstat", s_stat), (os, "mkdir", s_mkdir), (os, "makedirs", s_makedirs), (os, "remove", s_remove), (os, "unlink", s_remove), (os, "rmdir", s_rmdir), (os, "rename", s_rename), (os, "replace", s_rename),
         (os, "stat", s_stat), (os, "lstat", s_stat), (os, "listdir", s_listdir), (os, "access", s_access), (os, "chmod", s_chmod), (os, "utime", s_utime), (os, "truncate", s_truncate), (os, "system", s_system),
         (os, "getcwd", lambda: RUN.w.cwd), (os, "fork", nope("fork")), (os, "execv", nope("execv")), (os, "execve", nope("execve")), (os, "kill", nope("kill")), (os, "symlink", nope("symlink")), (os, "link", nope("link")), (os, "chdir", nope("chdir")), (os, "scandir", s_scandir),
         (os, "getpid", lambda: 4321), (os, "listxattr", lambda *a, **k: []), (os, "lchmod", s_chmod), (os, "sendfile", nope("sendfile")), (shutil, "rmtree", nope("rmtree")), (shutil, "_USE_CP_SENDFILE", False), (subprocess, "Popen", SimPopen)]
import genericpath
try:
    import posix
except ImportError:
    posix = None

def run_recipe(path, code, argv, world, faults, tools, modules, out_faults=False, env=None):
    """Runs a recipe as a process. Returns (Run, exit status, stdout, stderr)."""
    global RUN
    RUN = run = Run(world, faults, tools); run.out_faults = out_faults; saved = []
    keep = (sys.argv, sys.stdout, sys.stderr, sys.path, dict(os.environ)); before = set(sys.modules); ext = {}
    so, se = OutRaw("stdout", run), OutRaw("stderr", run)
    try:
        for m, name, v in PATCH:
            saved.append((m, name, getattr(m, name, None), hasattr(m, name))); setattr(m, name, v)
        # os.path helpers that bypass os.stat in C
        def exists(p):
            try: os.stat(p); return True
            except (OSError, ValueError): return False
        def isdir(p):
            try: return stat_m.S_ISDIR(os.stat(p).st_mode)
            except (OSError, ValueError): return False
        def isfile(p):
            try: return stat_m.S_ISREG(os.stat(p).st_mode)
            except (OSError, ValueError): return False
        for name, v in (("exists", exists), ("lexists", exists), ("isdir", isdir), ("isfile", isfile), ("islink", lambda p: False)):
            for m in (os.path, genericpath):
                if hasattr(m, name): saved.append((m, name, getattr(m, name), True)); setattr(m, name, v)
        for k, v in modules.items(): ext[k] = sys.modules.get(k); sys.modules[k] = v
        sys.argv = [path] + argv; sys.path = [os.path.dirname(path)] + sys.path
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(so), "utf-8", write_through=False); sys.stderr = io.TextIOWrapper(io.BufferedWriter(se), "utf-8", write_through=True)
        for k in ("CXX", "AR"): os.environ.pop(k, None)
        os.environ["PATH"] = "/usr/bin:/opt/none"; os.environ.update(env or {})
        try:
            exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": builtins}); status = 0
        except SystemExit as e:
            c = e.code; status = 0 if c is None else c & 255 if isinstance(c, int) else 1
            if status == 1 and not isinstance(c, int): print(c, file=sys.stderr)
        except Unsupported: raise
        except KeyboardInterrupt: raise
        except BaseException as e:
            print(f"{type(e).__name__}: {e}", file=sys.stderr); status = 1
        try: sys.stdout.flush()
        except OSError:
            if status == 0: status = 120
        try: sys.stderr.flush()
        except OSError: pass
    finally:
        o, e = sys.stdout, sys.stderr
        sys.argv, sys.stdout, sys.stderr, sys.path = keep[:4]; os.environ.clear(); os.environ.update(keep[4])
        for m, name, v, had in reversed(saved):
            if had: setattr(m, name, v)
            else: delattr(m, name)
        for k, v in ext.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
        for k in set(sys.modules) - before:
            f = getattr(sys.modules[k], "__file__", None)
            if f and f.startswith(os.path.dirname(path) + "/"): del sys.modules[k]
        for t in (o, e):
            try: t.detach()
            except Exception: pass
        RUN = None
    if run.unsupported: raise Unsupported(run.unsupported)
    return run, status, so.data.decode(errors="replace"), se.data.decode(errors="replace")
