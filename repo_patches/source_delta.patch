From 64946b966ccb7cd674a6d15bcb61f60a7d7fd9de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 01/37] fix: a step whose recipe cannot be started is a failed
 step

An exception from runIfNecessary left the result of the step Pending, so
the main loop waited forever for the steps that depend on it.
---
 core/db/task_list.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..219e20e 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,7 +95,21 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
-					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
+					auto result = [&task, force_recompilation, invoker, task_results, index]() {
+						try
+						{
+							return task.runIfNecessary(force_recompilation, invoker);
+						}
+						catch(std::exception const& err)
+						{
+							std::string msg{task.node().path()};
+							msg += ": ";
+							msg += err.what();
+							task_results[index] = TaskResult::Failure;
+							throw std::runtime_error{std::move(msg)};
+						}
+					}();
+					if(result)
 					{
 						auto const build_failed = failed(*result);
 						compilation_log.write(task, *result);
-- 
2.43.0


From 6702ce6b66cfaf3078287d465435b676f0041792 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 02/37] fix: a child process sees the end of its standard input

The write end of the standard input pipe was kept open until the child had
been waited for, and the pipe ends were inherited by children started
meanwhile, so a child that reads its input hung forever.
---
 core/exec/execve.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..76088a6 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
@@ -132,12 +132,13 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +225,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From 6690e709a511878dbf85bc7fb396d5da36483860 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 03/37] fix: wait for the child of a failed launch

It was left behind as a zombie process.
---
 core/exec/execve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 76088a6..f242bcb 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -213,6 +213,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	uint32_t val{};
 	if(auto n = exec_err.read(&val, sizeof(val)); n == sizeof(val))
 	{
+		::waitpid(pid, nullptr, 0);
 		errno = val;
 		std::string msg{"Failed to launch '"};
 		msg += executable;
-- 
2.43.0


From 0d9b9594fa0e2f433b33f98caa5f0615b24f4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 04/37] fix: throw an exception object when a pipe cannot be
 created

Nothing catches a char const*, so the program was terminated.
---
 core/exec/execve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index f242bcb..77f3013 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From 3a70206ba4aa1d601b804501b0bc1aac8a1cd3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 05/37] fix: advance in the output of a recipe while reading it

The same bytes were delivered over and over again: an answer longer than
the read buffer was read wrong, and one without a JSON value never ended.
---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From fbab24f295f215680e4aa9fc125cb7fa837f9833 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 06/37] fix: a read error is not an end of file

Source files were silently loaded incompletely.
---
 core/io/input_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..9803ea9 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -41,7 +41,9 @@ namespace Maike::Io
 
 		size_t read(std::byte* buffer, size_t n)
 		{
-			return ::read(m_handle, buffer, n);
+			auto ret = ::read(m_handle, buffer, n);
+			if(ret == -1) { throw std::runtime_error{"Failed to read from file"}; }
+			return ret;
 		}
 
 		void reset()
-- 
2.43.0


From 7bfc863042ac005070d7269248ace0aa6c23495d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 07/37] fix: keep the last characters before the end of a JSON
 document

They were dropped, so that truncated metadata was taken for empty metadata.
---
 core/key_value_store/json_handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..477fd2f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_eof{false}, m_has_data{false}
 		{
 		}
 
@@ -39,10 +39,14 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_eof)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -63,6 +67,7 @@ namespace
 
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
+		bool m_eof;
 		bool m_has_data;
 	};
 }
-- 
2.43.0


From 40e524108fe9aa1d3fdb4c61517026bbe1dcbbad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 08/37] fix: remove the targets of a failed step

A target left behind by a failed recipe was regarded as up to date by the
next build, which then succeeded with a broken target.
---
 core/db/task.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/db/task.cpp b/core/db/task.cpp
index b518e2b..dafbef2 100644
--- a/core/db/task.cpp
+++ b/core/db/task.cpp
@@ -2,6 +2,8 @@
 
 #include "./task.hpp"
 
+#include <algorithm>
+
 Maike::Db::Task::Task(DependencyGraph const& g,
                       SourceFileRecordConst node,
                       Build::Info const& build_info,
@@ -12,6 +14,20 @@ Maike::Db::Task::Task(DependencyGraph const& g,
 {
 }
 
+namespace
+{
+	// A failed recipe may have left incomplete targets behind. These must not be regarded as up to
+	// date in the next build.
+	void removeTargets(Maike::Db::SourceFileRecordConst const& node)
+	{
+		auto const& targets = node.sourceFileInfo().targets();
+		std::for_each(std::begin(targets), std::end(targets), [&src_file = node.path()](auto const& item) {
+			std::error_code ec;
+			if(item.name() != src_file && is_regular_file(item.name(), ec)) { remove(item.name(), ec); }
+		});
+	}
+}
+
 std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompilation force,
                                                                    Invoker invoker)
 {
@@ -20,6 +36,7 @@ std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompil
 	   || !isUpToDate(m_node, m_use_deps))
 	{
 		auto result = invoker.execve(m_cmd);
+		if(failed(result)) { removeTargets(m_node); }
 		m_t_completed = Clock::now();
 		return result;
 	}
-- 
2.43.0


From 9daa69edbbc784f7dcae5b5f82c1a08850232a8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 09/37] fix: only use and join worker threads that were created

A failing pthread_create was ignored: an uninitialised handle was joined, and
without any worker the program waited forever.
---
 core/sched/thread_pool.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/sched/thread_pool.cpp b/core/sched/thread_pool.cpp
index d16690d..028b986 100644
--- a/core/sched/thread_pool.cpp
+++ b/core/sched/thread_pool.cpp
@@ -5,22 +5,28 @@
 
 #include "./thread_pool.hpp"
 
+#include <stdexcept>
+
 Maike::Sched::ThreadPool::ThreadPool(ThreadCount n_threads):
    m_terminate{false},
    m_n_threads{n_threads.value()},
    m_threads{std::make_unique<pthread_t[]>(m_n_threads)}
 {
-	std::for_each(m_threads.get(), m_threads.get() + m_n_threads, [this](auto& item) {
-		pthread_create(
-		   &item,
-		   nullptr,
-		   [](void* pool) {
-			   auto& self = *reinterpret_cast<ThreadPool*>(pool);
-			   self.performTasks();
-			   return static_cast<void*>(nullptr);
-		   },
-		   this);
+	auto const end = m_threads.get() + m_n_threads;
+	auto const last = std::find_if(m_threads.get(), end, [this](auto& item) {
+		return pthread_create(
+		          &item,
+		          nullptr,
+		          [](void* pool) {
+			          auto& self = *reinterpret_cast<ThreadPool*>(pool);
+			          self.performTasks();
+			          return static_cast<void*>(nullptr);
+		          },
+		          this)
+		       != 0;
 	});
+	m_n_threads = last - m_threads.get();
+	if(m_n_threads == 0) { throw std::runtime_error{"Failed to create any worker thread"}; }
 }
 
 Maike::Sched::ThreadPool::~ThreadPool()
-- 
2.43.0


From c6641b25d2773e811a25b0219bf8708268266a1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 10/37] fix: a failing stat does not make a file older than its
 targets

An input that could not be examined was regarded as unchanged.
---
 core/utils/fs.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/utils/fs.cpp b/core/utils/fs.cpp
index 4522b2c..cf5c8cd 100644
--- a/core/utils/fs.cpp
+++ b/core/utils/fs.cpp
@@ -17,6 +17,12 @@ namespace
 		throw std::runtime_error{std::move(msg)};
 	}
 
+	void throwUnlessMissing(Maike::fs::path const& path, std::error_code const& ec)
+	{
+		if(ec && ec != std::errc::no_such_file_or_directory && ec != std::errc::not_a_directory)
+		{ throw Maike::fs::filesystem_error{"Failed to get modification time", path, ec}; }
+	}
+
 	Maike::fs::path getExecPrefix()
 	{
 		return read_symlink(Maike::fs::path{"/proc/self/exe"}).parent_path().parent_path();
@@ -48,6 +54,9 @@ bool Maike::isOlder(fs::path const& a, fs::path const& b)
 	auto t_a = last_write_time(a, ec_a);
 	auto t_b = last_write_time(b, ec_b);
 
+	throwUnlessMissing(a, ec_a);
+	throwUnlessMissing(b, ec_b);
+
 	if(ec_a && ec_b) { filesDoNotExist(a, b); }
 
 	if(ec_a) { return true; }
-- 
2.43.0


From 71f7b9e850017649ab4c523f01723c3622625575 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 11/37] fix: generic.py reports that its command failed

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 3255e06b80335239c2f732fc26f3fa38d092570c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 12/37] fix: md2htmlpart.py reports that pandoc failed

---
 recipes/md2htmlpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..7ba1168 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,8 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		return pandoc_res.returncode
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From 55da012ecdbf905e222b7338884f34379265bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 13/37] fix: wake all threads that wait for a counter or a task
 result

With several waiters, the only notification could go to one whose condition
is still false, or all but one slept forever.
---
 core/sched/signaling_counter.hpp | 4 ++--
 core/sched/thread_pool.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/sched/signaling_counter.hpp b/core/sched/signaling_counter.hpp
index 8b5a52d..29df654 100644
--- a/core/sched/signaling_counter.hpp
+++ b/core/sched/signaling_counter.hpp
@@ -29,7 +29,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			++m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
@@ -37,7 +37,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			--m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
diff --git a/core/sched/thread_pool.hpp b/core/sched/thread_pool.hpp
index de8731a..a5ebb3d 100644
--- a/core/sched/thread_pool.hpp
+++ b/core/sched/thread_pool.hpp
@@ -47,14 +47,14 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			m_result = std::move(obj);
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		void set(std::exception_ptr except)
 		{
 			std::lock_guard lock{m_mtx};
 			m_except = except;
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		~AsyncTaskResult()
-- 
2.43.0


From 781d75c364592400e077ec53093f6abb72b3e788 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 14/37] fix: quote printed commands so that a shell reads them
 back

A backslash does not escape anything within single quotes.
---
 core/exec/command.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..40012f2 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,7 +12,7 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
+			if(ch_in == '\'') { ret += "'\\'"; }
 			ret += ch_in;
 		});
 		ret += "'";
-- 
2.43.0


From 21342a85941b1b6dd07e9412542d2f577bafec4d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 15/37] fix: log the output of a recipe completely

It was cut at the first null character, together with the rest of the record.
---
 core/db/compilation_log.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..bb8e2a6 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -75,8 +75,8 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	append_log(stdout_buff, result.stdout());
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
-	fputs(stderr_buff.c_str(), stderr);
+	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
+	fwrite(stderr_buff.data(), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
 
-- 
2.43.0


From 58dbb19bbaad4ddf2bbb2cadb67f79534f6f0276 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 16/37] fix: depend on the default recipe also with own
 compiler settings

A source file that only changes the settings of the default compiler did not
depend on its recipe, and was not rebuilt when the recipe changed.
---
 core/source_tree_loader/source_file_load_ctxt.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..a138c6c 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -222,9 +222,14 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
-		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
 	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
 
+	{
+		auto const& recipe_provider =
+		   compiler && compiler->recipe() != "" ? *compiler : loader.compiler();
+		if(recipe_provider.recipe() != "") { builtin_deps.push_back(makeDependency(recipe_provider)); }
+	}
+
 	auto const rebuild_policy = [](auto const& tags) {
 		if(auto rebuild_policy = tags.template getIf<Db::RebuildPolicy>("rebuild"); rebuild_policy)
 		{ return *rebuild_policy; }
-- 
2.43.0


From 56403e2187bdb03393cf0a0e17eaa2d86d23d411 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 17/37] fix: do not fall back to a system recipe because of a
 system error

If the recipe of the project cannot be examined, another one must not be used
silently.
---
 core/source_tree_loader/command_dictionary.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/command_dictionary.cpp b/core/source_tree_loader/command_dictionary.cpp
index 9504cb4..3e63af3 100644
--- a/core/source_tree_loader/command_dictionary.cpp
+++ b/core/source_tree_loader/command_dictionary.cpp
@@ -20,7 +20,10 @@ Maike::SourceTreeLoader::CommandDictionary::get(fs::path const& cmd) const
 	auto res = [&cmd](auto const& search_paths) {
 		auto i = std::find_if(std::begin(search_paths), std::end(search_paths), [&cmd](auto const& item) {
 			std::error_code ec;
-			return is_regular_file(item / cmd, ec);
+			auto const file_status = status(item / cmd, ec);
+			if(file_status.type() == fs::file_type::none)
+			{ throw fs::filesystem_error{"Failed to look up command", item / cmd, ec}; }
+			return is_regular_file(file_status);
 		});
 
 		if(i == std::end(search_paths))
-- 
2.43.0


From fe08dc7c31bb532b768f8c2f923ca4a7b4fc559a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 18/37] fix: recognise a directory recipe in the root of the
 source directory

`./mkdir.py` was not recognised as `mkdir.py`, which gave a false dependency
cycle between the recipe and its directory.
---
 core/source_tree_loader/source_file_loader_delegator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_loader_delegator.cpp b/core/source_tree_loader/source_file_loader_delegator.cpp
index 755d5e2..9646029 100644
--- a/core/source_tree_loader/source_file_loader_delegator.cpp
+++ b/core/source_tree_loader/source_file_loader_delegator.cpp
@@ -12,7 +12,7 @@ Maike::Db::SourceFileInfo Maike::SourceTreeLoader::SourceFileLoaderDelegator::lo
 	SourceFileLoadContext load_ctxt{src_path, src_dir, target_dir};
 
 	std::vector<Db::Dependency> deps;
-	if(src_dir != src_path && src_path != m_dir_compiler.get().recipe())
+	if(src_dir != src_path && src_path.lexically_normal() != m_dir_compiler.get().recipe().lexically_normal())
 	{
 		deps.push_back(Db::Dependency{
 		   load_ctxt.sourceFileDir(), Db::SourceFileOrigin::Project, std::vector<Db::Property>{}});
-- 
2.43.0


From c5ad3f7be251c0811a766e6da90c7694ed3b5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:07 +0000
Subject: [PATCH 19/37] fix: make_lib.py drops members that do not belong to
 the library any more

---
 recipes/make_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/make_lib.py b/recipes/make_lib.py
index 9b3a5a1..81900f0 100755
--- a/recipes/make_lib.py
+++ b/recipes/make_lib.py
@@ -31,6 +31,8 @@ def filter_deps(dep_items):
 
 def compile(build_args):
 	args = [compiler, 'rcs']
+	if os.path.exists(build_args['targets'][0]):
+		os.remove(build_args['targets'][0]) # ar would keep members that are not part of the library any more
 	args.append(build_args['targets'][0])
 	args.extend(filter_deps(collect_deps(build_args['dependencies'])))
 	result = subprocess.run(args)
-- 
2.43.0


From 9b38b0d480d3b3fb3dd1d087db6e21b92c7b0eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:31 +0000
Subject: [PATCH 20/37] fix: make_directory.py fails when something else than a
 directory is in the way

mkdir reports EEXIST for any kind of file. When a regular file had the name
of the directory, the recipe claimed success, and the steps that put their
targets in the directory failed in a way that was hard to understand.
---
 recipes/make_directory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/make_directory.py b/recipes/make_directory.py
index 4001b6e..8ecffb7 100755
--- a/recipes/make_directory.py
+++ b/recipes/make_directory.py
@@ -14,7 +14,8 @@ def mkdir(path):
 		else:
 			os.mkdir(path)
 	except FileExistsError:
-		pass
+		if not os.path.isdir(path):
+			raise
 
 def compile(dict):
 	for target in dict["targets"]:
-- 
2.43.0


From ac0681fdc383fd37f68fd07787feff603520bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:01 +0000
Subject: [PATCH 21/37] fix: vcslog.py does not destroy the cached log when it
 cannot write it

The log is read from the cache when there is no repository. It was then
written back in place, so a failing write (full disk) lost it for good, and
every later build failed.
---
 recipes/vcslog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recipes/vcslog.py b/recipes/vcslog.py
index 9063b33..07c58fd 100755
--- a/recipes/vcslog.py
+++ b/recipes/vcslog.py
@@ -47,8 +47,11 @@ if __name__ == '__main__':
 			with open(target, 'w') as f:
 				json.dump(data, f)
 			mkdir(src_dir + '/__buildcache')
-			with open(cache, 'w') as f:
+			# data may be from the cache. If so, the cache is the only copy: do
+			# not open it for writing, since the write may fail.
+			with open(cache + '.new', 'w') as f:
 				json.dump(data, f)
+			os.replace(cache + '.new', cache)
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 552e5a9ae9f7b547c9ba8ab8aea563710ead7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 22/37] fix: ask the loader's recipe for tags when the file
 sets use_get_tags without a recipe of its own

---
 core/source_tree_loader/source_file_load_ctxt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index a138c6c..4af0b31 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -222,7 +222,11 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
-	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
+	}(load_ctxt,
+	  // A compiler without its own recipe uses the one of the loader, as it does for compilation
+	  compiler && compiler->useGetTags() ? loader.compiler() | *compiler :
+	                                       (compiler ? *compiler : loader.compiler()),
+	  src_path);
 
 	{
 		auto const& recipe_provider =
-- 
2.43.0


From de09b376b796c0f3b2e2110bfa59ac2c91ca85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 23/37] fix: an include that directly follows a directive
 without arguments (#else, #endif) was not seen

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..3d6a772 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -158,7 +158,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -174,6 +175,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
+					case '\n': state = State::Newline; break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
 						else
-- 
2.43.0


From 2b0c8583000326f324b0f5df567debd9842695fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 24/37] fix: a comment that ends with **/ was not terminated

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 3d6a772..f21f8bb 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -113,6 +113,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
@@ -369,6 +370,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
-- 
2.43.0


From 2a8ae09ca679c130b06470c3e5981ff2db872582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 25/37] fix: a right parenthesis inside a raw string hid
 everything that follows

---
 .../cxx/source_file_loader.cpp                         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index f21f8bb..0b45565 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -152,7 +152,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
@@ -431,8 +436,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From 5ea68776e1e73900454b143f81863b0352c392b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:00 +0000
Subject: [PATCH 26/37] fix: /* or R" inside a line comment hid everything that
 follows

---
 .../cxx/source_file_loader.cpp                 | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 0b45565..6eeb265 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -30,6 +30,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -82,12 +83,17 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
 
 					default: state = State::SkipLine;
 				}
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -263,6 +269,7 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentFirst,
 		TagSymbol,
 		Tag,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -337,7 +344,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
 				}
 				break;
 
@@ -346,6 +353,14 @@ void Cxx::SourceFileLoader::filterInput(
 				tags.putchar(static_cast<std::byte>(ch_in));
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
+				}
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -388,6 +403,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From f7d5ed44ace36deace70ebf9570e7dcf819b2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:00 +0000
Subject: [PATCH 27/37] fix: #error "text" was taken for an include directive

---
 .../cxx/source_file_loader.cpp                       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 6eeb265..b32c829 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -183,9 +183,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
 						break;
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
 						break;
 					case '\n': state = State::Newline; break;
 					default:
@@ -203,9 +205,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
+						break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From 384649c1600b6f9e6a0cab7008236ee271724318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 28/37] fix: cxx_compiler.py finds generated headers also in an
 absolute target directory

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..5c659fa 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -24,7 +24,7 @@ def format_iquote(src_dir, target_dir, dirs):
 		else:
 			ret.append('-iquote%s/%s'%(src_dir, item))
 
-		ret.append('-iquote%s/%s/%s'%(os.getcwd(), target_dir, item))
+		ret.append('-iquote%s'%os.path.join(os.getcwd(), target_dir, item))
 	return ret
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
-- 
2.43.0


From 9780336f186e1e275e07d55ce3b7ab6ed5a209ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 29/37] fix: doc2html.py processes a document in the root of
 the source directory

---
 recipes/doc2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index d3c37b8..3592510 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -12,7 +12,7 @@ def compile(args):
 	target_dir = args['build_info']['target_dir']
 	targets = args['targets']
 	source_file = args['source_file']
-	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file), args['build_info']['source_dir'])
+	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
 		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
-- 
2.43.0


From 0e95d33e4e2a2b9aa6fc8f60ff3122783aa10065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:35 +0000
Subject: [PATCH 30/37] fix: the record after output without a newline at its
 end starts on a line of its own

---
 core/db/compilation_log.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index bb8e2a6..ccc9666 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -73,6 +73,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	if(std::size(stderr_buff) > 0) { stderr_buff += "\n"; }
 
 	append_log(stdout_buff, result.stdout());
+	if(std::size(stdout_buff) > 0 && stdout_buff.back() != '\n') { stdout_buff += '\n'; }
 
 	std::lock_guard lock{m_output_mutex};
 	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
-- 
2.43.0


From 946783b1a1348e6323c99eade6b2cf63d613e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 31/37] fix: md2htmlpart: keep all text of a heading, and
 accept headings that start with an element

---
 recipes/md2htmlpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index 7ba1168..1783b51 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -25,7 +25,7 @@ def convert(src_file, target):
 	for section in find_elements(root, 'section', []):
 		for elem in section.findall('./*'):
 			if elem.tag.startswith('h'):
-				section.attrib['title'] = elem.text
+				section.attrib['title'] = ''.join(elem.itertext())
 				section.attrib.pop('class', None)
 				section.remove(elem)
 				break
-- 
2.43.0


From a110a9176dd959c48e02b8aec674f4ccacb4b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 32/37] fix: cxx_compiler: a std_revision with nothing but max
 is not an error

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 5c659fa..5941962 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,6 +147,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From 25cb975d777ac43e27264d1ee42dc4deea9e29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 33/37] fix: report when a configuration dump, target list or
 dependency graph cannot be written

---
 core/bin/maike.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..5beae1d 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -252,6 +252,12 @@ void dumpConfig(Maike::Config const& cfg, Maike::fs::path const&)
 	store(Maike::KeyValueStore::Compound{}.set("maikeconfig", cfg).handleReference(), stdout);
 }
 
+void flushStdout()
+{
+	if(fflush(stdout) != 0 || ferror(stdout))
+	{ throw std::runtime_error{"Failed to write to standard output"}; }
+}
+
 class Logger
 {
 public:
@@ -321,6 +327,7 @@ int main(int argc, char** argv)
 		if(cmdline.hasOption<Maike::CmdLineOption::ConfigDump>())
 		{
 			dumpConfig(cfg, cmdline.option<Maike::CmdLineOption::ConfigDump>());
+			flushStdout();
 			return 0;
 		}
 
@@ -367,12 +374,14 @@ int main(int argc, char** argv)
 			printTargets(src_tree.targets(),
 			             build_info.targetDir(),
 			             cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			flushStdout();
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraph>())
 		{
 			printDepGraph(src_tree.dependencyGraph(), cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			flushStdout();
 			return 0;
 		}
 
-- 
2.43.0


From 51116e22ca802a05bb3d0f71ce046ace029d1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 34/37] fix: start collecting the output of a child before it
 is launched

---
 core/exec/execve.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 77f3013..95e9fe6 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -131,21 +131,42 @@ namespace
 	}
 
 
-	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
+	// Collects the output of a child process. The thread is started before there is any child process,
+	// so that a failure to do so leaves nothing behind. It finishes when the write end of the pipe has
+	// been closed by everyone.
+	class OutputReader
+	{
+	public:
+		explicit OutputReader(Pipe& pipe, void* io_redirector, Maike::Io::Redirector::Reader reader):
+		   m_pipe{pipe},
+		   m_thread{read, io_redirector, pipe.readEnd(), reader}
+		{
+		}
+
+		OutputReader(OutputReader&&) = delete;
+		OutputReader& operator=(OutputReader&&) = delete;
+
+		~OutputReader()
+		{
+			if(m_pipe.writeEnd() != -1) { m_pipe.closeWriteEnd(); }
+			m_thread.join();
+		}
+
+	private:
+		Pipe& m_pipe;
+		std::thread m_thread;
+	};
+
+	Maike::Exec::ExitStatus
+	communicateWith(pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin)
 	{
 		signal(SIGPIPE, SIG_IGN);
-		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
-		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
 		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
 		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
 
-		stdout_proc.join();
-		stderr_proc.join();
-
 		if(WIFEXITED(status)) { return Maike::Exec::ExitStatus{}.returnCode(WEXITSTATUS(status)); }
 		else if(WIFSIGNALED(status))
 		{
@@ -175,6 +196,9 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	Pipe stderr;
 	Pipe exec_err;
 
+	OutputReader stdout_reader{stdout, io_redirector.handle(), io_redirector.stdout()};
+	OutputReader stderr_reader{stderr, io_redirector.handle(), io_redirector.stderr()};
+
 	std::unique_lock lock{exec_mutex};
 	auto pid = ::fork();
 	constexpr decltype(pid) ForkFailed = -1;
@@ -226,7 +250,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin);
 }
 
 namespace
-- 
2.43.0


From c37d268837947b6d3a4679e52673f7f176f72f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 35/37] fix: wait for running build steps also when no further
 step can be started

---
 core/db/task_list.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index 219e20e..3fda299 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -73,6 +73,8 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 	};
 
 	Sched::SignalingCounter<size_t> counter{0};
+	// The tasks refer to local variables, so wait for them also if an exception leaves this function
+	ScopeExitHandler wait_for_tasks{[&counter]() { counter.wait(0); }};
 	size_t num_tasks = 0;
 	while(!tasks.empty())
 	{
-- 
2.43.0


From 4ed6adae1d7120129370cb37414fc1053fc1d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 36/37] fix: a step that ends with an unexpected exception no
 longer leaves its dependents waiting

---
 core/db/task_list.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index 3fda299..946fe33 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -97,6 +97,11 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
+					// Those that depend on this task would wait forever for a result that never comes
+					ScopeExitHandler set_result{[task_results, index]() {
+						if(task_results[index] == TaskResult::Pending)
+						{ task_results[index] = TaskResult::Failure; }
+					}};
 					auto result = [&task, force_recompilation, invoker, task_results, index]() {
 						try
 						{
-- 
2.43.0


From c0d16118e6d0b75d4f91056eb3c48f78e0f89539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 37/37] fix: the manual page step fails if pandoc fails

---
 doc/manpage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/manpage.py b/doc/manpage.py
index f5f39e6..e176c8d 100755
--- a/doc/manpage.py
+++ b/doc/manpage.py
@@ -88,7 +88,7 @@ def compile(args):
 	content['date'] = datetime.datetime.fromtimestamp(timestamp, datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S UTC')
 	md_output = document.substitute(content)
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-s', '-t', 'man', '-o', targets[0]], input=md_output, text=True)
-	return 0
+	return pandoc_res.returncode
 
 if __name__ == '__main__':
 	if sys.argv[1] == 'compile':
-- 
2.43.0

