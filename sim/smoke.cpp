#include "world.h"
#include <cstdio>
#include <cstring>
#include <sys/personality.h>
#include <unistd.h>
using namespace sim;
extern "C" int maike_main(int argc, char** argv);
static int prog(Proc& p) {
	std::string s = p.argv.size() > 1 ? p.argv[1] : "";
	if(s == "configure") return 0;
	if(s == "get_tags") { p_write(p, 1, "{}", 2); return 0; }
	if(s == "compile") {
		json_t* j = json_loads(p.argv[2].c_str(), 0, nullptr); json_t* t = json_object_get(j, "targets"); size_t i; json_t* v;
		json_array_foreach(t, i, v) { std::string n = json_string_value(v); if(n.back()=='/' || strstr(p.exe.c_str(),"mkdir")) p_mkdirs(p, n); else p_writefile(p, n, "OUT", 3, 1000); }
		p_write(p, 1, "hello\n", 6); json_decref(j); return 0;
	}
	return 1;
}
int main(int argc, char** argv) {
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
	rt_prepare(); programs["r"] = prog; K.fs.cwd = "/w"; K.fs.mkdirs("/w", 1);
	auto P = [](const char* n, const char* d, int m) { K.fs.put(n, d, m, K.base_time - 1000000000000ull); };
	P("/w/maikeconfig.json", R"({"maikeconfig":{"dir_compiler":{"config":{},"recipe":"mkdir.r"},"source_file_info_loaders":{"cxx":{"compiler":{"recipe":"cxx.r","config":{}},"config":{},"loader":"cxx_src_loader"}},"source_tree_loader":{"file_info_loaders":{".cpp":"cxx",".hpp":"cxx"},"input_filter":["^__.*"],"fullpath_input_filter":[],"recursive":1}}})", 0644);
	P("/w/mkdir.r", "#!sim r\n", 0755); P("/w/cxx.r", "#!sim r\n", 0755);
	P("/w/a.cpp", "//@ {\"target\":{\"name\":\"a.o\"}}\n#include \"b.hpp\"\n", 0644); P("/w/b.hpp", "// x\n", 0644);
	P("/w/sub/c.cpp", "//@ {\"target\":{\"name\":\"c.o\",\"dependencies\":[{\"ref\":\"a.o\",\"origin\":\"generated\"}]}}\n", 0644);
	u64 seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	for(int k = 0; k < 2; ++k) {
		Ctx c; c.seed = seed; SchedSpec sp; sp.seed = seed; sp.strategy = argc > 2 ? atoi(argv[2]) : 0; sp.race = true; sp.mem_interval = argc > 3 ? atoi(argv[3]) : 0; sp.short_den = 4; sp.fault_mask = 1 << F_SHORT | 1 << F_SPURIOUS;
		auto o = run_inv(c, sp, []() { const char* av[] = {"maike2", "--num-workers=3", nullptr}; return maike_main(2, (char**)av); });
		printf("exit %d points %lu acc %lu sig %lx fibers %lu procs %lu\n", o.exit_status, o.st.points, o.st.accesses, o.st.sig, o.st.fibers, o.st.procs);
		for(auto& f : o.findings) printf("FINDING %s: %s\n", f.cls.c_str(), f.msg.c_str());
		printf("--- out\n%s--- err\n%s", o.out.c_str(), o.err.c_str());
		if(argc > 4) for(auto& e : o.events) printf("%lu t=%lu k=%d pid=%d f=%d n=%ld %.100s | %.100s\n", e.seq, e.t, e.kind, e.pid, e.fiber, e.n, e.a.c_str(), e.b.c_str());
	}
	for(auto& e : K.fs.m) printf("%s %lu\n", e.first.c_str(), e.second->mtime);
}
