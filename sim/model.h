// A generated project and the reference model of what the build tool must make of it.
#pragma once
#include "world.h"
#include <filesystem>

namespace sim {
namespace sfs = std::filesystem;
using std::string; using std::vector; using std::map; using std::set;

struct MDep { string ref, origin; map<string, string> props; };       // as written in the tags ("" origin: default)
struct MTarget { string name; vector<MDep> deps; vector<string> pkg; };
enum Kind { K_CXX, K_HDR, K_TEST, K_APP, K_LIB, K_RULE, K_GEN, K_GREP, K_EXT, K_PLAIN, K_RCP, K_MAX };
struct MFile {
	int kind = K_PLAIN; string rel; vector<MTarget> targets; vector<MDep> deps, extra; vector<string> inc, sysinc;
	bool get_tags = false; vector<MTarget> gt_targets; vector<MDep> gt_deps, gt_extra; bool gt_big = false;
	bool has_comp = false; string c_recipe; map<string, string> c_cfg; bool always = false;   // setting values that start with \x01 are raw JSON
	int tform = 0; bool reb_explicit = false; u32 noise = 0;   // spelling of the target list, of the rebuild policy; C++ text between the includes
	int version = 0; size_t pad = 0; bool exec = false; bool removed = false; string raw; bool use_raw = false;
	int configure = 0;       // recipe files: 0 silent, 1 answers with a changed configuration, 2 with a big one, 3 blanks only
};
struct Loader { string loader, recipe; map<string, string> cfg; bool link = false; bool get_tags = false; };
struct Proj {
	string srcdir = ".", tgtdir = "__targets"; bool exp_src = false, exp_tgt = false, recursive = true;
	vector<string> dirs;                         // relative, "" is the root
	vector<MFile> files; map<string, Loader> loaders; string dir_recipe; map<string, string> dir_cfg; map<string, MFile> sysrec;
	int cfg_split = 0;                           // second configuration file
	string cfg_file;                             // a configuration file to be used instead
	set<string> filtered;                        // relative paths (prefixes) that must not be loaded
	string rel2path(const string& rel) const;    // path as the tool names it
	string vpath(const string& p) const { return K.fs.abs(p); }
	int find(const string& rel) const { for(size_t i = 0; i < files.size(); ++i) if(!files[i].removed && files[i].rel == rel) return (int)i; return -1; }
};
struct MEdge { string name, origin; map<string, string> props; int to = -1; };
struct MNode { string path; int file = -1; bool dir = false, tgt = false, ext = false; vector<MEdge> edges; vector<string> targets; int producer = -1; string recipe; map<string, string> cfg; bool always = false; bool use_tdeps = false; vector<MDep> tmp; vector<MEdge> tdeps; vector<MEdge> extra;
	vector<int> closure; bool task() const { return !targets.empty(); } };
struct Model {
	bool ok = true; string why; string detail; vector<MNode> nodes; map<string, int> idx; map<string, int> target_of; vector<std::pair<string, string>> configures; // program and settings of every configuration request
	// target_of: target name -> node index of the source
	const MNode* get(const string& p) const { auto i = idx.find(p); return i == idx.end() ? nullptr : &nodes[i->second]; }
};

string dirname_rel(const string& r);
json_t* jdep(const MDep& d); string jdump(json_t* j); string canon(json_t* j); u64 hashs(const string& s, u64 h = 1469598103934665603ull);
string render(const Proj& p, const MFile& f); string render_config(const Proj& p, int part = 0); vector<string> config_args(const Proj& p);
void gen_project(Ctx& c, Proj& p, int size);
void install(const Proj& p, u64 mtime_base, u64 spread);  // write everything into the VFS
void put_file(const Proj& p, const MFile& f, u64 mtime);
Model build_model(const Proj& p);
struct Expect { const Proj& p; const Model& m; map<string, string> memo; Expect(const Proj& p, const Model& m) : p(p), m(m) {} string content(int node); string target(int src, const string& t); string text(const string& vp); };
string step_hash(const string& exe_text, const string& cfg, const string& src, const string& src_text, vector<std::pair<string, string>> deps);
string recipe_exe(const Proj& p, const MNode& n);
set<int> run_set(const Proj& p, const Model& m, const Vfs& fs, bool force, const set<int>* only);
set<int> needed(const Model& m, const string& target);
const char* kind_ext(int k);
}
