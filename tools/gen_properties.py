#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "No build step starts before everything it depends on is finished",
  "During a build, the recipe of a source file is never started before every step it directly or transitively depends on (its directory, project headers and what those pull in, generated files, objects and libraries it uses, project-local recipes) has finished successfully or been found up to date in that same invocation. This holds for any number of workers and any timing of the steps.",
  ["schedules", "inputs", "configurations"],
  "every dependency graph a project can declare, every worker count, every interleaving of scheduler, workers, reader threads and recipe processes",
  "The existing tests run the graph code on a handful of hand-made graphs in one thread; nothing runs the task scheduler with concurrent steps of controlled relative speed.",
  ["core/db/task_list.cpp", "core/db/task.cpp", "core/db/dependency_graph.cpp", "core/utils/graphutils.hpp", "core/db/source_file_list.cpp"],
  [("topological task list, per-step result flags polled before dispatch", "core/db/task_list.cpp TaskList::process, core/db/task.cpp Task::status"),
   ("transitive use dependencies", "core/db/dependency_graph.cpp getUseDepsRecursive")],
  ["start and end of every recipe process", "contents each recipe reads for its inputs"],
  [("result flags", "one Pending/Success/Failure per graph node", "core/db/task_list.hpp m_results")])

p("C02", "A successful clean build makes every target exactly once and correctly",
  "When a build that starts without targets exits with success, every declared target exists with exactly the content that running the recipes one by one in dependency order would give, and the recipe of each source file (and directory) that declares targets was run exactly once. A build of a consistent project in which no recipe and no system call fails does exit with success.",
  ["schedules", "inputs", "configurations"],
  "every consistent project, worker count and interleaving",
  "Tests never run a whole build; the build in the repository's own Makefile is one project under one uncontrolled schedule.",
  ["core/bin/maike.cpp", "core/db/task_list.cpp", "core/db/source_tree.cpp", "core/source_tree_loader/directory_scanner.cpp", "core/db/source_file_list.cpp"],
  [("one task per node with targets", "core/db/task_list.cpp TaskList::TaskList"), ("dispatch then erase", "core/db/task_list.cpp TaskList::process")],
  ["target files after exit", "recipe invocations", "exit status"])

p("C03", "Incremental builds never leave a stale target behind",
  "After any history of builds and of edits to sources, headers, generated inputs, recipes and targets (including deleted targets and equal timestamps), a build that exits with success leaves every target with the content a clean build of the current project would give. The history must respect the documented premise that a changed file gets a modification time not earlier than that of targets already made from it, and configuration edits are followed by a forced rebuild.",
  ["histories", "schedules", "inputs"],
  "every edit/build history over every project, clock granularity and schedule",
  "Timestamp tests compare two files once; no test performs a second build after an edit.",
  ["core/db/target_info.hpp", "core/db/target_info.cpp", "core/db/source_file_record.cpp", "core/utils/fs.cpp", "core/db/task.cpp"],
  [("target must be strictly newer than source and all transitive dependencies", "core/db/target_info.cpp isUpToDate, core/utils/fs.cpp isOlder/isNewer"), ("rebuild policy", "core/db/task.cpp runIfNecessary")],
  ["target contents after every successful build of the history"])

p("C04", "Steps that are up to date are not run again",
  "A build runs the recipe of a source file only when one of its targets is missing or not newer than the source or one of its transitive project dependencies, when that file asks to always be rebuilt, or when a rebuild is forced. In particular building again without any change runs no other recipe, and after a change exactly the steps reachable from it (and nothing else) run.",
  ["histories", "schedules", "inputs"],
  "every edit/build history over every project and schedule",
  "No test performs two builds; the set of steps run depends on the history and the timing of earlier writes.",
  ["core/db/source_file_record.cpp", "core/db/target_info.cpp", "core/utils/fs.cpp", "core/db/task.cpp"],
  [("up-to-date test per target", "core/db/source_file_record.cpp isUpToDate")],
  ["recipe invocations of the second and later builds of a history"])

p("C05", "A failing step fails the build, is reported, and stops its dependents",
  "If a recipe exits with a non-zero code, is killed by a signal or cannot be started at all, the build exits with a non-zero status, says on its error output which file or command failed, and starts no step that directly or transitively depends on the failed one. A build whose steps all succeeded does not report failure.",
  ["fault_sequences", "schedules", "inputs"],
  "every set of failing steps, failure kind (exit code, signal, launch error, pipe, fork or thread creation failure), graph and interleaving",
  "Tests check the exit status of single processes; no test lets a step of a concurrent build fail.",
  ["core/db/task_list.cpp", "core/exec/execve.cpp", "core/exec/exit_status.hpp", "core/exec/result.hpp", "core/sched/thread_pool.hpp", "core/bin/maike.cpp"],
  [("Failure result and first-exception slot", "core/db/task_list.cpp, core/sched/thread_pool.hpp takeLastException"), ("exec error pipe", "core/exec/execve.cpp")],
  ["exit status", "recipe invocations", "stderr"])

p("C06", "After failures, kills and crashes the next clean build run converges",
  "Whatever happened before - failed or killed recipes that left partial outputs, failing system calls, a build program killed at an arbitrary instant (the recipes it had started then finish or clean up on their own) - once faults stop, a build run exits with success and leaves every target with the content of a clean build. A step that reported failure is never considered up to date by a later build just because it left a file behind.",
  ["crash_points", "fault_sequences", "histories", "schedules"],
  "every sequence of failing builds and crash points followed by a fault-free build",
  "No test runs a build after a failed or interrupted one.",
  ["core/db/task.cpp", "core/db/task_list.cpp", "core/db/source_file_record.cpp"],
  [("targets of a failed step are removed", "core/db/task.cpp"), ("timestamps decide what is redone", "core/db/source_file_record.cpp")],
  ["target contents after the fault-free build"])

p("C07", "Every invocation terminates",
  "For every project, worker count, schedule and fault (failing recipes, recipes that cannot be started, failing system calls, recipes that read their standard input or produce any amount of output), an invocation finishes in a bounded number of steps once its recipes have finished. It never deadlocks, livelocks or waits for an event that cannot happen, also not when memory runs out (it may then end at once).",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "every interleaving and fault sequence",
  "A test that passes shows one schedule did not hang; deadlocks need a specific interleaving or fault.",
  ["core/db/task_list.cpp", "core/sched/event.hpp", "core/sched/signaling_counter.hpp", "core/sched/thread_pool.cpp", "core/exec/execve.cpp", "core/source_tree_loader/directory_scanner.cpp", "core/io/fifo.hpp"],
  [("event, counters, pool shutdown", "core/sched"), ("reader threads and waitpid", "core/exec/execve.cpp communicateWith")],
  ["quiescence of all simulated threads and processes"])

p("C08", "The scanned project does not depend on timing, worker count or directory order",
  "For one and the same source directory and configuration, the set of targets, the dependency graph, the step numbers and the commands handed to recipes are the same whatever the number of workers, the interleaving of the scan and the order in which the file system lists directories, and they match what the files declare. No matching file is missed, and none is loaded twice.",
  ["schedules", "inputs", "configurations"],
  "every project, worker count, directory order and interleaving",
  "The scanner's test scans one small tree and prints it; nothing compares schedules.",
  ["core/source_tree_loader/directory_scanner.cpp", "core/source_tree_loader/directory_scanner.hpp", "core/source_tree_loader/main.cpp", "core/source_tree_loader/command_dictionary.cpp", "core/db/dependency_graph.cpp"],
  [("shared file map under a lock, counter of outstanding scan tasks", "core/source_tree_loader/directory_scanner.cpp")],
  ["--list-targets and --print-dep-graph output", "recipe command lines"])

p("C09", "Faults while loading the source tree abort the build before any step",
  "If, while the source tree is being loaded, a file, directory or recipe answer cannot be read completely (open, read, stat or directory-listing errors, descriptor exhaustion, a recipe asked for configuration or tags that fails or is cut off, metadata that is truncated, of the wrong type, with unknown keywords or without required fields), the invocation exits with a non-zero status and an error message and runs no build step. A build never proceeds on a silently incomplete or altered picture of the project. (The configuration file maikeconfig.json itself is not meant: without it the defaults apply, with a message.)",
  ["fault_sequences", "schedules", "inputs"],
  "every single fault or combination, at every call made while scanning, under every interleaving",
  "No test injects an I/O error into the scan.",
  ["core/source_tree_loader/directory_scanner.cpp", "core/io/input_file.hpp", "core/io/input_buffer.hpp", "core/key_value_store/json_handle.cpp", "core/db/compiler.cpp", "core/source_tree_loader/source_file_load_ctxt.cpp"],
  [("error log checked when the scan result is taken", "core/source_tree_loader/directory_scanner.hpp takeResult"), ("decode errors", "core/key_value_store/json_handle.cpp")],
  ["exit status, stderr, recipe invocations"])

p("C10", "Inconsistent projects are rejected before any step runs",
  "A project with a dependency cycle, a reference to a project file or target, or to a recipe or loader named in the configuration, that does not exist, or the same target declared by two source files is always rejected with a non-zero exit status and a message when the whole project is to be built, whatever the schedule, and no build step is run. A project without such a defect is never rejected.",
  ["schedules", "inputs"],
  "every defective project, worker count and interleaving of the scan",
  "Tests cover one cycle and no duplicate or unresolved reference through the whole program.",
  ["core/utils/graphutils.hpp", "core/db/dependency_graph.cpp", "core/db/source_file_list.cpp", "core/db/task_list.cpp"],
  [("cycle detection", "core/utils/graphutils.hpp"), ("resolve", "core/db/dependency_graph.cpp"), ("insertUnique", "core/db/source_file_list.cpp")],
  ["exit status, stderr, recipe invocations"])

p("C11", "Child process output, input and exit status are transferred exactly",
  "Running a child process delivers every byte it writes to its standard output and standard error, separately and in order, feeds it exactly the supplied input followed by end-of-file, and returns its exact exit code or terminating signal. This holds for any amount of data, any split into reads and writes, children that close their streams early or never read, and several children running concurrently.",
  ["schedules", "inputs", "fault_sequences"],
  "every data size, chunking, pipe capacity, relative speed of child and parent, and number of concurrent children",
  "The tests run a few shell scripts with small outputs one at a time.",
  ["core/exec/execve.cpp", "core/exec/result.hpp", "core/exec/exit_status.hpp", "core/io/io_redirector.hpp"],
  [("reader threads, write loop, waitpid", "core/exec/execve.cpp communicateWith")],
  ["captured output, exit status, bytes seen by the child"])

p("C12", "Running children leaks nothing and failed launches are reported",
  "After a child process has been run - successfully, with a failing exit, by a signal, or after a failed launch (missing or non-executable file, failing pipe, fork or thread creation) - no file descriptor, zombie process or thread of it remains, and a child never inherits the private pipe ends of another child. A launch that fails is reported as an error and never as a child exit status.",
  ["fault_sequences", "schedules"],
  "every failure point inside process creation and every interleaving of concurrent launches",
  "No test counts descriptors or zombies, or launches concurrently with faults.",
  ["core/exec/execve.cpp"],
  [("pipe ownership, exec error pipe, waitpid", "core/exec/execve.cpp")],
  ["descriptor table, process table, exception"])

p("C13", "The thread pool runs every task exactly once and keeps its results",
  "Every task given to the thread pool - including tasks added by tasks - is executed exactly once on some worker, also when the pool is being shut down; shutting down waits for all of them, and as many tasks make progress at the same time as there are workers. The value or exception a task produces reaches whoever waits for it, the first unclaimed exception is kept until taken, and a throwing task never stops a worker.",
  ["schedules", "fault_sequences", "inputs"],
  "every number of workers and producers, every interleaving, spurious wake-ups, thread creation failures",
  "The tests run a pool under one uncontrolled schedule.",
  ["core/sched/thread_pool.hpp", "core/sched/thread_pool.cpp", "core/utils/unique_function.hpp"],
  [("queue under a mutex with a condition variable", "core/sched/thread_pool.cpp performTasks")],
  ["task execution log, results, exceptions"])

p("C14", "Waiting primitives never lose a wake-up or release a waiter early",
  "A thread waiting on an event, a counter value, an asynchronous result or a byte queue continues once - and only once - the awaited condition has come true (and, for a counter, stays so), for every interleaving of waiters and signallers, any number of waiters that the condition concerns, and spurious wake-ups. Queued bytes come out complete, in order and followed by end-of-stream.",
  ["schedules", "fault_sequences"],
  "every interleaving of waiters and signallers, spurious wake-ups included",
  "Tests call the primitives from one or two threads without controlling the schedule.",
  ["core/sched/event.hpp", "core/sched/signaling_counter.hpp", "core/sched/thread_pool.hpp", "core/io/fifo.hpp"],
  [("condition variables with predicates", "core/sched, core/io/fifo.hpp")],
  ["history of waits and signals checked against a sequential model"])

p("C15", "What is read does not depend on how the bytes arrive",
  "The metadata, include lists, configuration and recipe answers obtained from a file or a recipe are a function of the bytes only: short reads, any split of a recipe's output into writes, any pipe capacity and any total size (also beyond internal buffer sizes, or consisting of blanks only) give the same result as reading everything at once.",
  ["schedules", "inputs", "fault_sequences"],
  "every chunking of every input, every buffer boundary",
  "Tests read whole small inputs at once.",
  ["core/io/input_buffer.hpp", "core/io/output_buffer.hpp", "core/io/fifo.hpp", "core/db/compiler.cpp", "core/key_value_store/json_handle.cpp", "core/source_file_info_loaders"],
  [("buffers", "core/io"), ("recipe output reader", "core/db/compiler.cpp BufferReader")],
  ["recipe command lines, dependency graph"])

p("C16", "No data race and no use of dead objects in any interleaving",
  "In every interleaving of a scan, a build, concurrent child processes and pool shutdown, two threads never access the same memory without synchronisation unless both only read, and no thread touches an object (heap block, stack frame, closed descriptor) after its lifetime ended. This also holds when an allocation fails.",
  ["schedules", "inputs"],
  "every interleaving of the program's threads",
  "A sanitizer run observes the few schedules the operating system happens to produce.",
  ["core/db/task_list.cpp", "core/sched", "core/source_tree_loader", "core/db/compilation_log.cpp", "core/exec/execve.cpp", "core/io/fifo.hpp"],
  [("mutexes, atomics, join before destruction", "core/sched, core/db/task_list.cpp")],
  ["every memory access of the instrumented program"])

p("C17", "A dry run has no effects and prints the real commands in a usable order",
  "A dry run starts no build step, changes no file and exits like a build in which every step succeeds. With the command log level it prints, after shell unquoting, exactly the command of each step that the real build would run, once and in an order in which they can be run one after the other; steps that are up to date are marked as such.",
  ["schedules", "inputs", "configurations"],
  "every project (names with quotes, blanks, backslashes included), worker count and interleaving",
  "No test makes a dry run; quoting is tested on no name with special characters.",
  ["core/exec/execve.cpp", "core/exec/command.cpp", "core/db/compilation_log.cpp", "core/bin/maike.cpp"],
  [("dry-run flag", "core/exec/execve.cpp"), ("shell quoting", "core/exec/command.cpp")],
  ["process launches, file system, stdout"])

p("C18", "The build log has one intact record per step",
  "The log has exactly one record for each step that was processed, marking it as run, failed or already up to date with its number and path, and records of concurrent steps are never mixed. Everything a recipe printed on its standard output and standard error appears completely on the corresponding stream next to that step's record.",
  ["schedules", "inputs", "configurations"],
  "every log level, output size, worker count and interleaving, including short writes on the log streams",
  "No test writes the log concurrently.",
  ["core/db/compilation_log.cpp", "core/db/compilation_log.hpp", "core/db/task_list.cpp"],
  [("record composed first, written under a mutex", "core/db/compilation_log.cpp write")],
  ["stdout and stderr of the program"])

p("C19", "Building selected targets builds exactly what they need",
  "When targets are named on the command line, a successful build leaves these targets and everything they transitively depend on as a clean build would, and runs no step they do not depend on; for one named target every step runs at most once. Naming an unknown target is an error with a non-zero exit status.",
  ["inputs", "schedules", "histories"],
  "every project, selection of targets, earlier history and interleaving",
  "No test selects targets.",
  ["core/db/source_tree.cpp", "core/db/task_list.cpp", "core/utils/graphutils.hpp"],
  [("task list of one target", "core/db/task_list.cpp TaskList(..., Target)")],
  ["recipe invocations, target contents"])

p("C20", "Shipped recipes and build scripts report every failure of a tool or of the disk",
  "When asked to compile, a shipped recipe or one of the scripts that generate maike's own version information and documentation exits with status zero only if every tool it started succeeded and every target was written completely: a tool that fails, is killed or cannot be started, and a failing open, read, write, rename, copy or directory creation, make it exit non-zero (also when it is asked for configuration or tags, except while it tries alternative compilers). What it makes depends only on the request and on the inputs named there - all of them - and not on what an earlier run left behind, and it succeeds when nothing fails any more. It changes nothing besides its declared targets (the cache of the version log excepted). build.py succeeds only if maike was built and has rebuilt itself.",
  ["fault_sequences", "inputs"],
  "every tool call and every file operation of a recipe failing, in every combination",
  "No test runs a recipe with a failing tool.",
  ["recipes/cxx_compiler.py", "recipes/cxx_linker.py", "recipes/make_lib.py", "recipes/make_directory.py", "recipes/generic.py", "recipes/md2htmlpart.py", "recipes/doc2html.py", "recipes/sass2css.py", "recipes/vcslog.py", "recipes/pkg_config.py", "recipes/copy_file.py", "build.py", "doc/manpage.py", "doc/cmdlineopts.py", "doc/cmdlineopts2xml.py", "doc/configdefault.py", "doc/configdefault2xml.py", "core/bin/about.py"],
  [("return codes combined and passed to exit", "recipes/*.py")],
  ["exit status, tool calls, simulated file system"])

p("C21", "Every recipe is told exactly its inputs and outputs",
  "The request a recipe receives names the source file, all its targets, every direct and transitive dependency exactly once (each after the dependencies it itself needs), the effective compiler settings and the build identity of this invocation. It does not depend on the schedule, the worker count or on what other steps do concurrently.",
  ["inputs", "schedules", "configurations"],
  "every project and interleaving",
  "Tests build one command by hand.",
  ["core/db/source_file_record.cpp", "core/db/dependency_graph.cpp", "core/db/task.cpp", "core/build/info.hpp", "core/db/compiler.cpp"],
  [("command composed from graph", "core/db/source_file_record.cpp makeBuildCommand")],
  ["arguments of every recipe process"])

p("C22", "A build touches nothing but the declared targets",
  "Under every schedule and fault, the program itself creates, changes or removes no file other than declared targets of steps of this build, never a source file or an unrelated file in the target directory, and a failing or interrupted build leaves the targets of other, successful steps in place.",
  ["fault_sequences", "schedules", "crash_points", "inputs"],
  "every project, fault sequence and interleaving",
  "No test compares the file system before and after a failing build.",
  ["core/db/task.cpp", "core/db/task_list.cpp", "core/bin/maike.cpp"],
  [("only recipes write", "core/db/task.cpp")],
  ["every file system mutation"])

p("C23", "Steps that can run are started while workers are free",
  "During a build with N workers, never more than N recipes run at the same time, and a step whose dependencies have all finished does not wait while fewer than N recipes run: whenever the build as a whole is waiting for recipes, either N of them are at work or every step not yet started depends on one that is. (Builds without failures; the same holds for the build of one named target.)",
  ["schedules", "inputs"],
  "every dependency graph, worker count, duration of the recipes and interleaving",
  "Whether two steps really run at the same time depends on timing; no test measures it.",
  ["core/db/task_list.cpp", "core/sched/thread_pool.cpp", "core/sched/thread_pool.hpp", "core/sched/event.hpp", "core/bin/maike.cpp"],
  [("list of pending tasks polled, worker threads", "core/db/task_list.cpp TaskList::process")],
  ["start and end of every recipe process", "moments when the whole simulated system waits"])

p("C24", "Shipped recipes and build scripts use exactly the inputs and settings of their request",
  "When a shipped recipe succeeds, its targets are what the tools make of exactly what the request says: the compiler gets the source file, all compiler flags, the directories for quoted includes (source file's own and configured ones, each in the source and in the target directory), forced includes, package flags, the selected language revision and the macros with the build identity; the linker gets the configured flags and every implementation, external library and package library named as a dependency, each once and after everything that needs it; a library holds exactly the named objects; a copied, converted or generated file is made from the source file by the configured command; tests are run and checks made when asked for; the version information and the documentation of maike itself hold what the project information, the version log and maike's own output say. The answer to a configuration request keeps every setting and names a compiler whose language revision is in the requested range (or fails), the answer to a tags request names every resource the document refers to and nothing else. This holds wherever the source and target directories are, whatever earlier runs left behind and whichever tools are installed.",
  ["inputs", "histories", "configurations"],
  "every request to every shipped recipe, environment (CXX, AR, installed compilers) and starting state",
  "No test runs a recipe and looks at what it hands to the tools.",
  ["recipes/cxx_compiler.py", "recipes/cxx_linker.py", "recipes/make_lib.py", "recipes/generic.py", "recipes/md2htmlpart.py", "recipes/doc2html.py", "recipes/sass2css.py", "recipes/vcslog.py", "recipes/pkg_config.py", "recipes/copy_file.py", "build.py", "doc/manpage.py", "doc/cmdlineopts.py", "doc/cmdlineopts2xml.py", "doc/configdefault.py", "doc/configdefault2xml.py", "core/bin/about.py"],
  [("command lines assembled from the request", "recipes/cxx_compiler.py compile, collect_cflags; recipes/cxx_linker.py collect_deps, filter_deps"), ("choice of compiler", "recipes/cxx_compiler.py select_compiler_and_stdrev")],
  ["command line and result of every tool call, targets, answers on standard output"])

p("C25", "The effective configuration is the one in the files, and what is printed on request is complete",
  "The configuration in effect is what the configuration files say together: every setting of every file, lists put together and single values taken from the later file; the built-in one when asked for or when there is no file. Printed on request, it can be used in place of those files: it gives the same targets, dependencies and requests, and printing it again gives the same configuration. Printing a configuration, the targets or the dependency graph runs no build step and changes no file, and exits with a non-zero status and a message if not everything could be written.",
  ["inputs", "fault_sequences", "histories"],
  "every set of configuration files, project, way in which the bytes arrive, and point at which the output fails",
  "Tests compare a few constructed configurations; none reads, prints and uses one, and none lets the output fail.",
  ["core/bin/config.cpp", "core/bin/config.hpp", "core/bin/maike.cpp", "core/source_tree_loader/config.cpp", "core/source_file_info_loaders/config.cpp", "core/db/compiler.hpp", "core/key_value_store/compound.cpp", "core/key_value_store/json_handle.hpp"],
  [("loadConfig merges the files, toJson of every part", "core/bin/config.cpp loadConfig; core/source_tree_loader/config.cpp toJson"), ("output on request", "core/bin/maike.cpp main")],
  ["standard output and exit status, requests to recipes, file system"])

# ---- properties of pure functions (not a simulation target) ----
p("C30", "The C++ scanner finds exactly the active include directives",
  "For every C++ source text, the set of include directives reported equals those outside comments and raw strings.",
  ["inputs"], "every source text", "Tests use a few texts.",
  ["core/source_file_info_loaders/cxx/source_file_loader.cpp"], [("state machine", "core/source_file_info_loaders/cxx/source_file_loader.cpp")], ["returned dependencies"])
p("C32", "Build identities survive conversion to text and back",
  "Converting a build identity to text and back gives the same identity, for all identities.",
  ["inputs"], "all 160-bit identities", "Tests convert a few.",
  ["core/build/id.cpp"], [("toString/Id", "core/build/id.cpp")], ["string"])
p("C33", "Command line options are parsed exactly or rejected",
  "Every argument vector is either decoded into exactly the option values it spells or rejected with an error.",
  ["inputs"], "every argument vector", "Tests parse a few lines.",
  ["core/cmd_line_parser/command_line.hpp", "core/bin/cmd_line_options.hpp"], [("parser", "core/cmd_line_parser/command_line.cpp")], ["option values"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(
    "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
