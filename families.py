"""Which simulator decides which property."""
import os, sys
import simbuild
VERIF = simbuild.VERIF
RT = [("rt.cpp", False), ("sys.cpp", False), ("world.cpp", False), ("main.cpp", False)]

def build_build():
    return [simbuild.build("simbuild", [("about_stub.cpp", True), ("model.cpp", False), ("build.cpp", False)] + RT, True)]

def build_unit():
    return [simbuild.build("simunit", [("about_stub.cpp", True), ("u_wait.cpp", True, True), ("u_fifo.cpp", True, True), ("u_pool.cpp", True, True), ("u_exec.cpp", True, True), ("unit.cpp", False)] + RT, False)]

def build_py():
    return [sys.executable, os.path.join(VERIF, "pysim", "sim.py")]

FAMILIES = {
    "py": {"build": build_py, "share": 1,
           "real": ["recipes/*.py, build.py, doc/*.py and core/bin/about.py, run from /repo by the Python interpreter, each invocation with fresh state"],
           "stub": ["file system and standard streams (simulated, with faults)", "compiler, archiver, pkg-config, pandoc, xsltproc, clang-tidy (simulated tools)", "pygit2 and sass modules (stand-ins)"]},
    "unit": {"build": build_unit, "share": 1, "optional": True,
             "real": ["core/sched, core/exec, core/io (thread pool, event, counter, asynchronous result, byte queue, process execution), compiled from /repo with race instrumentation"],
             "stub": ["threads, mutexes, condition variables (simulated, seeded scheduler)", "clock (simulated)", "pipes, processes, wait (simulated kernel in memory)", "child programs (scripted stand-ins)"]},
    "build": {"build": build_build, "share": 1,
              "real": ["all of core/ (the program maike2 with its command line, configuration, directory scanner, loaders, dependency resolver, task list, thread pool, process launcher, log), compiled from /repo with race instrumentation"],
              "stub": ["threads, mutexes, condition variables (simulated, seeded scheduler)", "clock and file times (simulated)", "file system, pipes, processes, wait (simulated kernel in memory)",
                       "recipes (stand-ins that honour the recipe protocol and record what they were asked)", "core/bin/about.cpp (needs a generated header)"]},
}
SIM = ["the simulated kernel gives POSIX behaviour for the calls the program uses (files, pipes, fork/exec/wait, futex-level primitives); regular-file writes are never torn by the kernel itself",
       "C++ atomics are sequentially consistent in the simulator; memory races are found by a happens-before detector, not by weak-memory reordering"]

def P(fams, q=45, t=1500, extra=()):
    return {"families": fams, "time": (q, t), "assumptions": SIM + list(extra)}

PROPERTIES = {k: P(["build"]) for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C17", "C18", "C19", "C21", "C22", "C23", "C25"]}
PROPERTIES.update({k: P(["build", "unit"]) for k in ["C11", "C12", "C15", "C16"]})
PROPERTIES.update({k: P(["unit"]) for k in ["C13", "C14"]})
PROPERTIES["C20"] = P(["py"])
PROPERTIES["C24"] = P(["py"])
