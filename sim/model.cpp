#include "model.h"
#include <algorithm>
#include <cstring>
#include <unistd.h>

namespace sim {
string dirname_rel(const string& r) { auto i = r.rfind('/'); return i == string::npos ? "" : r.substr(0, i); }
static string basename_(const string& r) { auto i = r.rfind('/'); return i == string::npos ? r : r.substr(i + 1); }
u64 hashs(const string& s, u64 h) { for(char c : s) h = (h ^ (u8)c) * 0x100000001b3ull; h ^= h >> 32; return h * 0x9e3779b97f4a7c15ull; }
string jdump(json_t* j) { char* s = json_dumps(j, JSON_COMPACT | JSON_ENCODE_ANY); string r = s ? s : ""; free(s); return r; }
string canon(json_t* j) { if(!j) return "null"; char* s = json_dumps(j, JSON_COMPACT | JSON_SORT_KEYS | JSON_ENCODE_ANY); string r = s ? s : ""; free(s); return r; }
static json_t* jval(const string& v) { return v.size() && v[0] == 1 ? json_loads(v.c_str() + 1, JSON_DECODE_ANY, nullptr) : json_string(v.c_str()); }
static json_t* jmap(const map<string, string>& m) { json_t* j = json_object(); for(auto& e : m) json_object_set_new(j, e.first.c_str(), jval(e.second)); return j; }
// the settings of a file on top of those of its loader: objects are merged, lists are joined, anything else is replaced
static json_t* jmerge(json_t* a, json_t* b) {
	if(json_is_array(a) && json_is_array(b)) { json_t* r = json_array(); size_t k; json_t* v; json_array_foreach(a, k, v) json_array_append(r, v); json_array_foreach(b, k, v) json_array_append(r, v); return r; }
	if(json_is_object(a) && json_is_object(b)) { json_t* r = json_copy(a); const char* k; json_t* v; json_object_foreach(b, k, v) { json_t* o = json_object_get(a, k); json_object_set_new(r, k, o ? jmerge(o, v) : json_incref(v)); } return r; }
	return json_incref(b);
}
static string merge_val(const string& a, const string& b) { json_t *x = jval(a), *y = jval(b), *z = jmerge(x, y); string r = json_is_string(z) ? string(json_string_value(z)) : "\x01" + canon(z); json_decref(x); json_decref(y); json_decref(z); return r; }
json_t* jdep(const MDep& d) { json_t* j = jmap(d.props); json_object_set_new(j, "ref", json_string(d.ref.c_str())); if(!d.origin.empty()) json_object_set_new(j, "origin", json_string(d.origin.c_str())); return j; }
static json_t* jdeps(const vector<MDep>& v) { json_t* a = json_array(); for(auto& d : v) json_array_append_new(a, jdep(d)); return a; }
static json_t* jtgt(const MTarget& t) { json_t* j = json_object(); json_object_set_new(j, "name", json_string(t.name.c_str())); if(!t.deps.empty()) json_object_set_new(j, "dependencies", jdeps(t.deps)); if(!t.pkg.empty()) { json_t* a = json_array(); for(auto& s : t.pkg) json_array_append_new(a, json_string(s.c_str())); json_object_set_new(j, "pkgconfig_libs", a); } return j; }
static json_t* jtags(const vector<MTarget>& ts, const vector<MDep>& deps, const vector<MDep>& extra, int tform) {
	json_t* j = json_object();
	size_t one = ts.size() == 1 ? tform != 1 : tform == 2 && !ts.empty(); if(one) json_object_set_new(j, "target", jtgt(ts[0])); if(ts.size() > one) { json_t* a = json_array(); for(size_t k = one; k < ts.size(); ++k) json_array_append_new(a, jtgt(ts[k])); json_object_set_new(j, "targets", a); }
	if(!deps.empty()) json_object_set_new(j, "dependencies", jdeps(deps)); if(!extra.empty()) json_object_set_new(j, "dependencies_extra", jdeps(extra));
	return j;
}
const char* kind_ext(int k) { static const char* e[] = {".cpp", ".hpp", ".test.cpp", ".app", ".lib", ".rule", ".gen", ".gr", ".x", ".txt", ".rcp"}; return e[k]; }

string Proj::rel2path(const string& rel) const { if(rel.empty()) return srcdir; return srcdir == "." ? rel : srcdir + "/" + rel; }

static string padtext(size_t n, u64 seed) { string s; while(s.size() < n) { s += "pad " + hex(Rng::mix(seed + s.size())) + " lorem\n"; } return s; }
static string prefix_lines(const string& pre, const string& s) { string r; size_t i = 0; while(i < s.size()) { size_t j = s.find('\n', i); if(j == string::npos) j = s.size(); r += pre + s.substr(i, j - i) + "\n"; i = j + 1; } return r; }

// C++ text that is not an include directive, and the ways to write one
struct CxxNoise {
	u64 s; bool on; CxxNoise(u32 seed) : s(seed * 2654435761ull), on(seed != 0) {} u64 n(u64 k) { s = Rng::mix(s + 1); return s % k; }
	string head() { if(!on) return ""; static const char* t[] = {"", "/** documented\n * file\n **/\n", "// src/*.hpp\n", "/* #include \"nope.hpp\" */\n", "#pragma once\n", "\n\n", "/***/\n// R\"(\n"}; return t[n(7)]; }
	string text() { if(!on) return ""; string r; for(u64 k = n(4); k--;) { static const char* t[] = {"// #include \"nope.hpp\"\n", "/* c\n#include \"nope.hpp\"\n **/\n", "#ifdef X\n#else\n", "#endif\n", "#  define N(x) (x/2)\n", "#error \"unsupported\"\n", "auto r = R\"(a ) b\n#include \"nope.hpp\"\n f())\";\n", "auto q = R\"x(a)y\" g() )x\";\n", "int a = b / c; // dir/*\n", "char const* t = \"#include <nope>\";\n", "#\n", "/* * / ** nope */ int z;\n", "#undef \"nope\n", "// it's R\"(\n", "\n \t\n", "#warning <nope>\n", "#if A < B\n#endif\n", "auto u = R\"y(#include <nope>\n)x\"\n#include \"nope.hpp\"\n)y\";\n", "auto k =\nR\"zz(\n//@ ]no tag[\n#include \"nope.hpp\"\n)z\" )zz\";\n", "/*\n//@ ]no tag[\n*/\n", "int d; //@ ]no tag[\n", "// @ no tag\n", "auto w = R\"(//@ {\n//@ {\n)\" \"x\";\n", "/*//@*/ int m; /*\n//@ [\n**//**/\n"}; r += t[n(25)]; } return r; }
	string script() { if(!on) return ""; string r; for(u64 k = n(4); k--;) { static const char* t[] = {"# @ ]no tag[\n", "##@ ]no tag[\n", "x #@ ]no tag[\n", "#\n", "\n \t\n", "#!/x #@\n", "y\n", "@#@ {\n"}; r += t[n(8)]; } return r; }
	string inc(const string& what) { if(!on) return "#include " + what + "\n"; static const char* b[] = {"#include ", "#include", "# include\t", "\t #include  ", "#include "}; static const char* e[] = {"\n", " // why\n", " /* x */\n", "\r\n", "\n"}; string r = b[n(5)]; return r + what + e[n(5)]; }
};
string render(const Proj& p, const MFile& f) {
	if(f.use_raw) return f.raw;
	(void)p; json_t* t = jtags(f.targets, f.deps, f.extra, f.tform);
	if(f.has_comp) { json_t* c = json_object(); if(!f.c_recipe.empty()) json_object_set_new(c, "recipe", json_string(f.c_recipe.c_str())); json_object_set_new(c, "config", jmap(f.c_cfg)); if(f.get_tags) json_object_set_new(c, "use_get_tags", json_integer(1)); json_object_set_new(t, "compiler", c); }
	if(f.always || f.reb_explicit) json_object_set_new(t, "rebuild", json_string(f.always ? "always" : "only_if_out_of_date"));
	string gt; if(f.get_tags) { json_t* g = jtags(f.gt_targets, f.gt_deps, f.gt_extra, f.tform); gt = jdump(g); json_decref(g); }
	string r; u64 sd = hashs(f.rel); CxxNoise nz(f.noise);
	switch(f.kind) {
		case K_CXX: case K_HDR: case K_TEST: {
			r += nz.head();
			string tg; if(json_object_size(t) || f.version % 2 == 0) { char* s = json_dumps(t, sd % 2 ? JSON_INDENT(1) : JSON_COMPACT); tg = prefix_lines("//@ ", s); free(s); }
			u64 where = nz.on ? nz.n(4) : 0; if(where == 3) { string z; for(char ch : tg) { z += ch; if(ch == '\n' && nz.n(4) == 0) z += nz.text(); } tg = z; } if(where != 2) r += tg; // the metadata may be anywhere
			if(!gt.empty()) r += string("// GT") + (f.gt_big ? "B " : " ") + gt + "\n";
			for(auto& i : f.sysinc) r += nz.text() + nz.inc("<" + i + ">"); for(size_t k = 0; k < f.inc.size(); ++k) { r += nz.text(); if(k == 1 && f.pad) r += "/* " + padtext(f.pad / 2, sd) + "*/\n"; r += nz.inc("\"" + f.inc[k] + "\""); } r += nz.text();
			if(where == 2) r += tg; r += "int v" + std::to_string(f.version) + ";\n"; if(f.pad) r += "/*" + padtext(f.pad, sd) + "*/\n"; break; }
		case K_APP: case K_LIB: case K_RULE:
			json_object_set_new(t, "version", json_integer(f.version)); if(f.pad) json_object_set_new(t, "pad", json_string(padtext(f.pad, sd).c_str())); if(!gt.empty()) json_object_set_new(t, f.gt_big ? "GTB" : "GT", json_string(gt.c_str()));
			{ char* s = json_dumps(t, sd % 2 ? JSON_INDENT(2) : 0); r = s; free(s); } if((sd >> 8) % 8 == 0) r = string((size_t)((sd >> 16) % (f.pad ? 9000 : 200)), (sd >> 12) % 2 ? '\n' : ' ') + r; break;
		case K_EXT: r = "#!sim recipe\n"; if(f.configure) r += "# CONFIGURE " + std::to_string(f.configure) + "\n"; r += nz.script(); if(json_object_size(t)) { char* s = json_dumps(t, sd % 2 ? JSON_INDENT(1) : 0); string tl = prefix_lines("#@ ", s); free(s); if(f.noise) { string z; for(char ch : tl) { z += ch; if(ch == '\n' && nz.n(4) == 0) z += nz.script(); } tl = z; } r += tl; } r += nz.script(); if(!gt.empty()) r += string("# GT") + (f.gt_big ? "B " : " ") + gt + "\n"; r += "v " + std::to_string(f.version) + "\n" + (f.pad ? padtext(f.pad, sd) : ""); break;
		case K_RCP: r = "#!sim recipe\n"; if(f.configure) r += "# CONFIGURE " + std::to_string(f.configure) + "\n"; r += "v " + std::to_string(f.version) + "\n"; break;
		default: r = "text v" + std::to_string(f.version) + "\n" + (f.pad ? padtext(f.pad, sd) : "");
	}
	json_decref(t); return r;
}

static json_t* jcomp(const string& recipe, const map<string, string>& cfg, bool gt) {
	json_t* c = json_object(); json_object_set_new(c, "recipe", json_string(recipe.c_str())); json_object_set_new(c, "config", jmap(cfg)); json_object_set_new(c, "use_get_tags", json_integer(gt)); return c;
}
// split a configuration object over two files, the second of which completes and overrides the first
static void split(json_t* o, u64& s, json_t*& a, json_t*& b, bool top) {
	auto n = [&](u64 k) { s = Rng::mix(s + 1); return s % k; };
	if(json_is_object(o)) { a = json_object(); b = json_object(); const char* k; json_t* v; json_object_foreach(o, k, v) {
			u64 z = n(6); string key = k; if((z == 0 || z == 4) && !top) { json_object_set(a, k, v); continue; } if(z == 1 && !top) { json_object_set(b, k, v); continue; }
			if(json_is_object(v) || json_is_array(v)) { json_t *x, *y; split(v, s, x, y, false); json_object_set_new(a, k, x); json_object_set_new(b, k, y); }
			else if(json_is_string(v)) { json_object_set_new(a, k, json_string("overridden")); json_object_set(b, k, v); } else if(json_is_integer(v)) { json_object_set_new(a, k, json_integer(json_integer_value(v) + 1)); json_object_set(b, k, v); } else { json_object_set(a, k, v); } } return; }
	a = json_array(); b = json_array(); size_t k, m = json_array_size(o) ? n(json_array_size(o) + 1) : 0; json_t* v; json_array_foreach(o, k, v) json_array_append(k < m ? a : b, v);
}
vector<string> config_args(const Proj& p) { if(!p.cfg_file.empty()) return {"--configfiles=" + p.cfg_file}; if(!p.cfg_split) return {}; return {"--configfiles=" + p.rel2path("maikeconfig.json") + "," + (p.cfg_split % 2 ? "/w/" : "") + ".maikeconfig2.json"}; }
string render_config(const Proj& p, int part) {
	json_t* r = json_object(); json_t* m = json_object(); json_object_set_new(r, "maikeconfig", m);
	json_object_set_new(m, "dir_compiler", jcomp(p.dir_recipe, p.dir_cfg, false));
	json_t* ls = json_object();
	for(auto& l : p.loaders) { json_t* j = json_object(); json_object_set_new(j, "compiler", jcomp(l.second.recipe, l.second.cfg, l.second.get_tags)); json_t* cf = json_object(); if(l.second.loader == "cxx_src_loader") { json_t* a = json_array(); if(p.cfg_split % 3 != 1) json_array_append_new(a, json_string("^nowhere/")); json_array_append_new(a, json_string("\\.gen\\.hpp$")); if(p.cfg_split % 3) json_array_append_new(a, json_string("\\.nope$")); json_object_set_new(cf, "generated_includes", a); } if(l.second.loader == "generic") { json_object_set_new(cf, "target_filename_ext", json_string(".out")); json_object_set_new(cf, "filename_ext_replacement_mode", json_string(l.first == "gr" ? "replace" : "append")); } json_object_set_new(j, "config", cf); json_object_set_new(j, "loader", json_string(l.second.loader.c_str())); json_object_set_new(ls, l.first.c_str(), j); }
	json_object_set_new(m, "source_file_info_loaders", ls);
	json_t* st = json_object(); json_t* ext = json_object();
	static const std::pair<const char*, const char*> em[] = {{".cpp", "cxx"}, {".hpp", "cxx"}, {".test.cpp", "test"}, {".app", "app"}, {".lib", "lib"}, {".rule", "rule"}, {".gen", "gen"}, {".gr", "gr"}, {".x", "ext"}};
	for(auto& e : em) json_object_set_new(ext, e.first, json_string(e.second)); json_object_set_new(st, "file_info_loaders", ext);
	json_t* f = json_array(); for(auto s : {"^__.*$", "^\\..*$", "^skip_.*$", "^tgt_.*$"}) json_array_append_new(f, json_string(s)); json_object_set_new(st, "input_filter", f);
	f = json_array(); json_array_append_new(f, json_string("^d0/excluded$")); json_object_set_new(st, "fullpath_input_filter", f); json_object_set_new(st, "recursive", json_integer(p.recursive ? 1 : 0));
	json_object_set_new(m, "source_tree_loader", st); if(p.cfg_split && part >= 0) { json_t *a, *b; u64 sd = (u64)p.cfg_split * 77777; split(r, sd, a, b, true); json_decref(r); r = part ? b : a; json_decref(part ? a : b); }
	char* s = json_dumps(r, JSON_INDENT(1)); string o = s; free(s); json_decref(r); return o;
}

// ---------------------------------------------------------------- generation
static string rel_target(const MFile& f, const string& name) { string d = dirname_rel(f.rel); return d.empty() ? name : d + "/" + name; }
static vector<string> all_targets(const MFile& f) {
	vector<string> r; if(f.kind == K_GEN) r.push_back(basename_(f.rel) + ".out"); else if(f.kind == K_GREP) { string b = basename_(f.rel); r.push_back(b.substr(0, b.rfind('.')) + ".out"); }
	for(auto& t : f.targets) r.push_back(t.name); if(f.get_tags) for(auto& t : f.gt_targets) r.push_back(t.name); return r;
}
static string make_ref(Ctx& c, const string& from_dir, const string& rel) { // textual reference to rel (relative to the source dir) from a file in from_dir
	string d = dirname_rel(rel); int k = (int)c.pick(3);
	if(k == 0) { // relative if in or below the same directory
		if(from_dir.empty()) return "./" + rel; if(rel.compare(0, from_dir.size() + 1, from_dir + "/") == 0) return "./" + rel.substr(from_dir.size() + 1); }
	if(k == 1 && !from_dir.empty()) { string up = "."; size_t n = 1 + (size_t)std::count(from_dir.begin(), from_dir.end(), '/'); for(size_t i = 0; i < n; ++i) up += "/.."; return up + "/" + rel; }
	return rel;
}
static void add_props(Ctx& c, MDep& d) { if(c.chance(1, 3)) d.props["rel"] = c.chance(1, 2) ? "implementation" : "misc"; if(c.chance(1, 8)) d.props["note"] = "it's a \"q\" \\ x"; }

void gen_project(Ctx& c, Proj& p, int size) {
	if(c.chance(1, 4)) { p.exp_src = true; p.srcdir = c.chance(1, 2) ? "proj" : "a/proj2"; p.tgtdir = basename_(p.srcdir) + "_targets"; }
	if(c.chance(1, 4)) { p.exp_tgt = true; static const char* td[] = {"__tgt", "tgt_out/x", "/w/tgt_abs"}; p.tgtdir = td[c.pick(3)]; }
	p.recursive = !c.chance(1, 16);
	u32 theme = c.pick(6); p.dirs.push_back(""); int nd = p.recursive ? (int)c.pick(5) : 0; for(int i = 0; i < nd; ++i) { string par = p.dirs[c.pick((u32)p.dirs.size())]; static const char* weird[] = {"", " s", "'q", "\xc3\xa9", "+", "&b", ";", "(2)", "$d", "#", "!", "~", "*", "`"}; string n = "d" + std::to_string(i) + (c.chance(1, 6) ? weird[1 + c.pick(13)] : ""); if(theme == 4) n = "d" + std::to_string(i / 2); if(theme == 5) n = (i % 2 ? "D" : "d") + std::to_string(i / 2); n = par.empty() ? n : par + "/" + n; if(std::find(p.dirs.begin(), p.dirs.end(), n) == p.dirs.end()) p.dirs.push_back(n); }
	// recipes
	static const char* rn[] = {"mk", "cxx", "ln", "gen", "rl"}; string rname[5];
	for(int i = 0; i < 5; ++i) {
		u32 k = c.pick(9); if(k == 8) k = 7; MFile r; r.kind = K_RCP; r.exec = true; r.configure = c.chance(1, 3) ? 1 + (int)c.pick(3) : 0;
		bool x = k == 4 || k == 5; r.kind = x ? K_EXT : K_RCP; static const char* odd[] = {";a", "&", "(1)", "$X", "*", "!", "#1", "~", "|", "`", "<", ">", "?", "[x]", "=", "'", " s"}; string base = string(rn[i]) + (c.chance(1, 8) ? odd[c.pick(17)] : "") + (x ? ".x" : ".rcp");
		if(k == 0 || k == 4 || !p.recursive) { r.rel = base; p.files.push_back(r); rname[i] = base; }
		else if(k == 1 || k == 5 || k == 6) { r.rel = "tools/" + base; if(std::find(p.dirs.begin(), p.dirs.end(), "tools") == p.dirs.end()) p.dirs.push_back("tools"); p.files.push_back(r); rname[i] = r.rel; }
		else if(k == 7) { r.rel = base; p.files.push_back(r); rname[i] = base; MFile s = r; s.version = 77; s.rel = base; p.sysrec[base] = s; } // shadows the system's
		else { r.rel = base; r.kind = K_RCP; p.sysrec[base] = r; rname[i] = base; }
	}
	// recipes of the same file name elsewhere
	string alt[5]; if(p.recursive) for(int i = 1; i < 5; ++i) if(c.chance(1, 4)) { MFile r; r.kind = K_RCP; r.exec = true; r.version = 40 + i; r.configure = c.chance(1, 3) ? 1 : 0; r.rel = "alt/" + rname[i].substr(rname[i].rfind('/') + 1); if(r.rel.size() > 2 && r.rel.substr(r.rel.size() - 2) == ".x") r.kind = K_EXT; if(std::find(p.dirs.begin(), p.dirs.end(), "alt") == p.dirs.end()) p.dirs.push_back("alt"); p.files.push_back(r); alt[i] = r.rel; }
	auto rcp = [&](int i) { return !alt[i].empty() && c.chance(1, 2) ? alt[i] : rname[i]; };
	p.dir_recipe = rname[0];
	if(c.chance(1, 3)) p.dir_cfg["mode"] = "x"; if(c.chance(1, 5)) p.cfg_split = 1 + (int)c.pick(1000);
	static const char* lopts[] = {"\x01{\"std\":17,\"warn\":{\"level\":1,\"on\":[\"a\",\"b\"]},\"defs\":[\"X=1\"],\"name\":\"l\"}", "\x01{\"warn\":{\"on\":[]},\"ratio\":0.5,\"defs\":[{\"k\":[1]},2,\"it's\"]}", "\x01{}"}, *fopts[] = {"\x01{\"std\":20,\"warn\":{\"level\":2,\"on\":[\"c\",\"a\"],\"deep\":{\"x\":[]}},\"defs\":[\"Y \\\"2\\\"\"],\"name\":\"f\"}", "\x01{\"defs\":[],\"warn\":{}}", "\x01{\"own\":{\"z\":-1},\"ratio\":1.25}"};
	auto cfg = [&](const char* a) { map<string, string> m; m["id"] = a; if(c.chance(1, 3)) m["opts"] = lopts[c.pick(3)]; if(c.chance(1, 6)) m["level"] = "\x01" "3"; if(c.chance(1, 4)) m["flags"] = "-O2 'a b' \\n \"z\""; return m; };
	p.loaders["cxx"] = {"cxx_src_loader", rname[1], cfg("cxx")}; p.loaders["test"] = {"cxx_src_loader", rcp(1), cfg("test"), true}; p.loaders["test"].cfg["actions"] = "\x01[\"link\"]"; p.loaders["app"] = {"app", rname[2], cfg("app")}; p.loaders["lib"] = {"lib", rcp(2), cfg("lib")};
	p.loaders["rule"] = {"maikerule", "", cfg("rule")}; p.loaders["gen"] = {"generic", rname[3], cfg("gen")}; p.loaders["gr"] = {"generic", rcp(3), cfg("gr")}; p.loaders["ext"] = {"extension", "", cfg("ext")};
	if(c.chance(1, 6)) p.loaders["cxx"].get_tags = true;
	bool defgt = p.loaders["cxx"].get_tags; bool weirdnames = c.chance(1, 6);
	// files
	set<std::pair<string, string>> used; size_t first = p.files.size(); int n = 1 + (int)c.pick((u32)size);
	int style = (int)c.pick(5); // 0 mixed 1 chain 2 wide 3 headers heavy 4 own recipes
	if(style == 4) n = std::max(n, 8);
	for(int i = 0; i < n; ++i) {
		MFile f; static const int kk0[] = {K_CXX, K_HDR, K_CXX, K_RULE, K_GEN, K_LIB, K_APP, K_TEST, K_EXT, K_GREP, K_PLAIN}; static const int kk3[] = {K_HDR, K_CXX, K_HDR, K_CXX, K_RULE, K_TEST, K_LIB, K_APP, K_HDR, K_HDR, K_CXX};
		static const int kk4[] = {K_RULE, K_CXX, K_RULE, K_RULE, K_RULE, K_RULE, K_APP, K_RULE, K_RULE, K_HDR, K_RULE}; f.kind = (style == 4 ? kk4 : style == 3 ? kk3 : kk0)[c.pick(11)];
		string d = p.dirs[c.pick((u32)p.dirs.size())]; if(!p.recursive) d = ""; string base = "f" + std::to_string(i), hk = f.kind == K_HDR ? "/h" : ""; if(theme >= 4 && c.chance(2, 3)) { // a few names that recur in every directory, or names that differ in case only
			string b; static const char* nm[] = {"util", "main", "util_a"}; if(theme == 4) b = nm[c.pick(3)]; else { b = i && c.chance(3, 4) ? basename_(p.files.back().rel) : "name"; b = b.substr(0, b.find('.')); for(char& ch : b) if(isalpha((unsigned char)ch)) { ch = (char)(ch ^ 32); break; } if(b[0] == 'd' || b[0] == 'D' || b.find_first_not_of("fFnName0123456789") != string::npos) b = "naMe"; } if(used.insert({b + hk, d}).second) base = b; }
		else if(c.chance(1, 5) && p.files.size() > first) { auto& g = p.files[first + c.pick((u32)(p.files.size() - first))]; string gb = basename_(g.rel); gb = gb.substr(0, gb.find('.')); if(used.insert({gb + hk, d}).second) base = gb; } else if(weirdnames && i % 3 == 1) base += i % 2 ? " x'y" : "\xc3\xa5\\b"; 
		used.insert({base + hk, d}); f.rel = (d.empty() ? "" : d + "/") + base + kind_ext(f.kind); f.exec = f.kind == K_EXT;
		if(c.chance(1, 8)) { static const size_t ps[] = {200, 4096, 5000, 70000}; f.pad = ps[c.pick(4)]; }
		// what it may refer to
		vector<string> hdrs, gens, genh, srcs;
		for(size_t j = first; j < p.files.size(); ++j) { auto& g = p.files[j]; if(g.kind == K_HDR) hdrs.push_back(g.rel); for(auto& t : all_targets(g)) { string rt = rel_target(g, t); gens.push_back(rt); if(t.size() > 8 && t.compare(t.size() - 8, 8, ".gen.hpp") == 0) genh.push_back(rt); } srcs.push_back(g.rel); }
		auto mkdep = [&](bool prefer_gen) { MDep x; x.origin = "generated"; bool g = !gens.empty() && (prefer_gen || srcs.empty() || c.chance(2, 3)); if(style == 1 && !gens.empty() && g) x.ref = make_ref(c, d, gens.back()); else if(g) x.ref = make_ref(c, d, gens[c.pick((u32)gens.size())]); else if(!srcs.empty()) { x.ref = make_ref(c, d, srcs[c.pick((u32)srcs.size())]); x.origin = "project"; } else { x.ref = "syslib" + std::to_string(c.pick(3)); x.origin = "system"; } add_props(c, x); return x; };
		auto ndeps = [&]() -> u32 { if(style == 2) return c.chance(1, 5); if(style == 1) return 1 + c.pick(2); static const u32 nn[] = {0, 1, 1, 2, 3}; return nn[c.pick(5)]; };
		auto mktarget = [&](const string& nm) { MTarget t; t.name = nm; return t; };
		switch(f.kind) {
			case K_HDR: { for(u32 k = c.pick(3); k-- && !hdrs.empty();) f.inc.push_back(make_ref(c, d, hdrs[c.pick((u32)hdrs.size())])); if(!genh.empty() && c.chance(1, 4)) f.inc.push_back(make_ref(c, d, genh[c.pick((u32)genh.size())])); if(c.chance(1, 4)) f.sysinc.push_back(c.chance(1, 3) ? "__config" : "vector"); if(c.chance(1, 5)) { auto x = mkdep(true); if(x.origin == "generated" && c.chance(1, 2)) x.origin = ""; f.deps.push_back(x); } break; }
			case K_CXX: case K_TEST: {
				for(u32 k = c.pick(4); k-- && !hdrs.empty();) f.inc.push_back(make_ref(c, d, hdrs[c.pick((u32)hdrs.size())])); if(!genh.empty() && c.chance(1, 2)) f.inc.push_back(make_ref(c, d, genh[c.pick((u32)genh.size())])); if(c.chance(1, 4)) f.sysinc.push_back(c.chance(1, 2) ? "vector" : c.chance(1, 2) ? "map" : "__config");
				f.targets.push_back(mktarget(base + (f.kind == K_TEST ? ".test" : ".o"))); if(c.chance(1, 8)) f.targets.push_back(mktarget(base + ".d"));
				if(c.chance(1, 3)) for(u32 k = ndeps(); k--;) f.targets[0].deps.push_back(mkdep(true)); if(c.chance(1, 6)) f.targets[0].pkg.push_back("pkg-a"); if(c.chance(1, 5)) for(u32 k = ndeps(); k--;) f.deps.push_back(mkdep(false)); if(c.chance(1, 6)) { MDep x; x.ref = c.chance(1, 2) ? "pthread" : "__m"; x.props["rel"] = "external"; f.targets[0].deps.push_back(x); } if(f.targets.size() > 1 && c.chance(1, 2)) for(u32 k = ndeps(); k--;) f.targets[1].deps.push_back(mkdep(true)); break; }
			case K_APP: case K_LIB: f.targets.push_back(mktarget(base + (f.kind == K_APP ? ".bin" : ".a"))); for(u32 k = ndeps(); k--;) f.deps.push_back(mkdep(true)); if(c.chance(1, 2)) for(u32 k = ndeps(); k--;) f.targets[0].deps.push_back(mkdep(true)); if(c.chance(1, 4)) { f.targets.push_back(mktarget(base + ".map")); for(u32 k = 1 + c.pick(2); k--;) f.targets[1].deps.push_back(mkdep(true)); } break;
			case K_RULE: { u32 nt = 1 + (c.chance(1, 3) ? 1 + c.pick(2) : 0); for(u32 k = 0; k < nt; ++k) { f.targets.push_back(mktarget(base + (k == 0 && c.chance(1, 2) ? ".gen.hpp" : ".r" + std::to_string(k)))); if(c.chance(1, 4)) f.targets.back().deps.push_back(mkdep(true)); } for(u32 k = ndeps(); k--;) f.deps.push_back(mkdep(false)); f.has_comp = true; f.c_recipe = style == 4 && c.chance(3, 4) ? rname[4] : rcp(4); f.c_cfg["r"] = base; break; }
			case K_EXT: if(c.chance(3, 4)) f.targets.push_back(mktarget(base + ".e")); for(u32 k = ndeps(); k--;) f.deps.push_back(mkdep(false)); break;
			default: break;
		}
		if((f.kind == K_CXX || f.kind == K_APP || f.kind == K_EXT || f.kind == K_LIB || f.kind == K_TEST) && c.chance(1, 5)) { f.has_comp = true; if(c.chance(1, 3)) f.c_cfg["opts"] = fopts[c.pick(3)]; if(c.chance(1, 5)) f.c_cfg["level"] = "\x01" "7"; if(c.chance(1, 4)) f.c_cfg["actions"] = "\x01[\"run\"]"; f.c_cfg["own"] = "y" + base; if(c.chance(1, 2)) f.c_recipe = rcp(3 + (int)c.pick(2)); if(c.chance(1, 3)) f.c_cfg["id"] = "over"; }
		bool gt_ok = (f.kind == K_RULE || f.has_comp) ? c.chance(1, 3) : false; if((f.kind == K_CXX || f.kind == K_HDR) && !f.has_comp && defgt) gt_ok = true;
		if(gt_ok) { f.get_tags = true; if(c.chance(1, 2)) { f.gt_targets.push_back(mktarget(base + (f.kind == K_HDR ? ".hgt" : ".gt"))); } for(u32 k = ndeps(); k--;) f.gt_deps.push_back(mkdep(true)); f.gt_big = c.chance(1, 4); }
		if(c.chance(1, 20) && !all_targets(f).empty() && f.kind != K_GEN && f.kind != K_GREP) f.always = true;
		f.tform = (int)c.pick(3); if(!f.always && c.chance(1, 16)) f.reb_explicit = true; if((f.kind == K_CXX || f.kind == K_HDR || f.kind == K_TEST || f.kind == K_EXT) && c.chance(1, 3)) f.noise = 1 + c.pick(100000);
		p.files.push_back(f);
	}
	// headers name the implementation of what they declare
	vector<std::pair<size_t, string>> impl; for(size_t j = first; j < p.files.size(); ++j) for(auto& t : all_targets(p.files[j])) impl.push_back({j, rel_target(p.files[j], t)});
	if(!impl.empty()) for(size_t j = first; j < p.files.size(); ++j) if((p.files[j].kind == K_HDR || p.files[j].kind == K_CXX) && c.chance(p.files[j].kind == K_HDR ? 2 : 1, 6)) { MDep x; auto& t = impl[c.pick((u32)impl.size())]; x.ref = make_ref(c, dirname_rel(p.files[j].rel), t.second); if(c.chance(1, 2)) x.origin = "generated"; x.props["rel"] = "implementation"; p.files[j].extra.push_back(x); }
	if(c.chance(1, 5)) { MFile j; j.use_raw = true; j.raw = "//@ {\"target\":{\"name\":\"f0.o\"}\n broken"; j.rel = (c.chance(1, 2) || !p.recursive ? "" : p.dirs.back() + (p.dirs.back().empty() ? "" : "/")) + "skip_me.cpp"; p.filtered.insert(j.rel); p.files.push_back(j); }
	if(c.chance(1, 6) && nd > 0 && p.dirs.size() > 1 && p.dirs[1] == "d0") { MFile j; j.use_raw = true; j.raw = "//@ {{{"; j.rel = "d0/excluded/bad.cpp"; p.filtered.insert("d0/excluded"); p.filtered.insert(j.rel); p.files.push_back(j); }
	Model m = build_model(p); if(!m.ok) { for(auto& f : p.files) f.extra.clear(); m = build_model(p); if(!m.ok) { fprintf(stderr, "generator: %s %s\n", m.why.c_str(), m.detail.c_str()); _exit(70); } }
}

void put_file(const Proj& p, const MFile& f, u64 mt) { K.fs.put(p.vpath(p.rel2path(f.rel)), render(p, f), f.exec ? 0755 : 0644, mt); }
void install(const Proj& p, u64 base, u64 spread) {
	K.fs.mkdirs("/w", base); K.fs.mkdirs("/sys/lib/maike2/recipes", base); u64 k = 0;
	auto mt = [&]() { return base + (spread ? Rng::mix(k++) % spread : 0); };
	for(auto& d : p.dirs) K.fs.mkdirs(p.vpath(p.rel2path(d)), base);
	for(auto& f : p.files) if(!f.removed) put_file(p, f, mt());
	for(auto& s : p.sysrec) K.fs.put("/sys/lib/maike2/recipes/" + s.first, render(p, s.second), 0755, mt());
	// files that happen to have the name of an external dependency: newer than everything, of no concern
	for(const char* d : {"__config", "__m", "vector", "map", "pthread", "syslib0", "syslib1", "pkg-a"}) if(d[0] == '_' || p.srcdir != ".") K.fs.put(string("/w/") + d, "decoy", 0644, base + 900000000000000ull);
	K.fs.put(p.vpath(p.rel2path("maikeconfig.json")), render_config(p), 0644, base); if(p.cfg_split) K.fs.put("/w/.maikeconfig2.json", render_config(p, 1), 0644, base);
	{ string t = p.vpath(p.tgtdir), d = t.substr(0, t.rfind('/')); if(!d.empty()) K.fs.mkdirs(d, base); }
}

// ---------------------------------------------------------------- the model
static string norm(const string& s) { return sfs::path(s).lexically_normal().string(); }
static string resolve_ref(const Proj& p, const string& file_dir_path, const string& ref, const string& origin) {
	if(origin != "project" && origin != "generated") return ref;
	string rel; // relative to the source directory
	if(ref.compare(0, 2, "./") == 0) rel = norm(file_dir_path.empty() ? ref : file_dir_path + "/" + ref); else rel = norm(ref);
	if(origin == "generated") return norm(p.tgtdir + "/" + rel);
	return norm(p.rel2path(rel));
}
static int configure_mode(const MFile* f) { return f ? f->configure : 0; }
static const MFile* recipe_file(const Proj& p, const string& r, string& path, string& origin) {
	if(r.empty()) { path = ""; origin = "project"; return nullptr; }
	int i = p.find(r); if(i >= 0) { path = norm(p.rel2path(r)); origin = "project"; return &p.files[i]; }
	auto s = p.sysrec.find(r); if(s != p.sysrec.end()) { path = "/sys/lib/maike2/recipes/" + r; origin = "system"; return &s->second; }
	path = "?"; origin = "?"; return nullptr;
}
static void do_configure(const MFile* f, map<string, string>& cfg) { int k = configure_mode(f); if(k == 1 || k == 2) { cfg["configured"] = f->rel + " v" + std::to_string(f->version); } }
static string canon_map(const map<string, string>& m) { json_t* j = jmap(m); string r = canon(j); json_decref(j); return r; }
Model build_model(const Proj& p) {
	Model m; map<sfs::path, MNode> nodes; set<string> dirset;
	auto fail = [&](const string& w, const string& d) { if(m.ok) { m.ok = false; m.why = w; m.detail = d; } };
	string dpath, dorigin; auto drf = recipe_file(p, p.dir_recipe, dpath, dorigin); if(dorigin == "?") fail("recipe", p.dir_recipe); else if(dpath.size()) m.configures.push_back({p.vpath(dpath), canon_map(p.dir_cfg)});
	for(auto& l : p.loaders) { string a, b; recipe_file(p, l.second.recipe, a, b); if(a.size() && b != "?") m.configures.push_back({p.vpath(a), canon_map(l.second.cfg)}); }
	auto filtered = [&](const string& rel) { for(auto& f : p.filtered) if(rel == f || rel.compare(0, f.size() + 1, f + "/") == 0) return true; return false; };
	set<string> dirs; dirs.insert("");
	if(p.recursive) { for(auto& d : p.dirs) for(string x = d; !x.empty(); x = dirname_rel(x)) dirs.insert(x); for(auto& f : p.files) if(!f.removed) for(string x = dirname_rel(f.rel); !x.empty(); x = dirname_rel(x)) dirs.insert(x); }
	for(auto& d : dirs) {
		if(filtered(d)) continue; MNode n; n.path = norm(p.rel2path(d)); n.dir = true;
		if(!d.empty()) n.edges.push_back({norm(p.rel2path(dirname_rel(d))), "project", {}});
		n.edges.push_back({dpath, dorigin, {}}); n.targets.push_back(norm(p.tgtdir + "/" + (d.empty() ? "." : d))); n.recipe = dpath; n.cfg = p.dir_cfg; do_configure(drf, n.cfg); nodes[n.path] = n;
	}
	auto plain = [&](const string& rel) { MNode n; n.path = norm(p.rel2path(rel)); nodes[n.path] = n; };
	plain("maikeconfig.json");
	for(size_t i = 0; i < p.files.size(); ++i) {
		auto& f = p.files[i]; if(f.removed || filtered(f.rel)) continue; string d = dirname_rel(f.rel); if(!p.recursive && !d.empty()) continue;
		MNode n; n.path = norm(p.rel2path(f.rel)); n.file = (int)i; if(f.kind == K_PLAIN || f.kind == K_RCP) { nodes[n.path] = n; continue; }
		static const char* ln[] = {"cxx", "cxx", "test", "app", "lib", "rule", "gen", "gr", "ext"}; auto& L = p.loaders.at(ln[f.kind]); n.always = f.always; n.use_tdeps = f.kind == K_LIB || (f.kind == K_TEST && L.link);
		if(n.path != dpath) n.edges.push_back({norm(p.rel2path(d)), "project", {}});
		for(auto& s : f.sysinc) n.edges.push_back({s, "system", {}});
		for(auto& s : f.inc) { string o = s.size() > 8 && s.compare(s.size() - 8, 8, ".gen.hpp") == 0 ? "generated" : "project"; n.edges.push_back({resolve_ref(p, d, s, o), o, {}}); }
		auto add = [&](const vector<MDep>& v, vector<MEdge>& out, const char* def) { for(auto& x : v) { string o = x.origin.empty() ? def : x.origin; out.push_back({resolve_ref(p, d, x.ref, o), o, x.props}); } };
		add(f.deps, n.edges, "generated"); if(f.get_tags) add(f.gt_deps, n.edges, "generated"); add(f.extra, n.extra, "generated"); if(f.get_tags) add(f.gt_extra, n.extra, "generated");
		string dp, dor; auto drc = recipe_file(p, L.recipe, dp, dor); if(dor == "?") fail("recipe", L.recipe); n.recipe = dp; string ror = dor; map<string, string> cfg = L.cfg; do_configure(drc, cfg);
		if(f.has_comp) { string fp, fo; map<string, string> fc = f.c_cfg; if(!f.c_recipe.empty()) { auto fr = recipe_file(p, f.c_recipe, fp, fo); if(fo == "?") fail("recipe", f.c_recipe); m.configures.push_back({p.vpath(fp), canon_map(fc)}); do_configure(fr, fc); n.recipe = fp; ror = fo; } for(auto& e : fc) { auto i = cfg.find(e.first); if(i == cfg.end()) cfg[e.first] = e.second; else i->second = merge_val(i->second, e.second); } }
		if(!n.recipe.empty()) n.edges.push_back({n.recipe, ror, {}});
		n.cfg = cfg;
		for(auto& t : all_targets(f)) n.targets.push_back(norm(p.tgtdir + "/" + rel_target(f, t)));
		nodes[n.path] = n;
		// target nodes later
	}
	// targets
	map<string, string> tsrc; vector<MNode> tn;
	for(auto& e : nodes) { auto& n = e.second; size_t k = 0; for(auto& t : n.targets) {
		if(t == n.path) { ++k; continue; } if(tsrc.count(t)) fail("duplicate", t); tsrc[t] = n.path; MNode x; x.path = t; x.tgt = true;
		if(n.file >= 0) { auto& f = p.files[n.file]; string d = dirname_rel(f.rel); vector<const MTarget*> ts; if(f.kind != K_GEN && f.kind != K_GREP) { for(auto& q : f.targets) ts.push_back(&q); if(f.get_tags) for(auto& q : f.gt_targets) ts.push_back(&q); }
			if(k < ts.size()) { for(auto& q : ts[k]->deps) { string o = q.origin.empty() ? "system" : q.origin; x.edges.push_back({resolve_ref(p, d, q.ref, o), o, q.props}); } for(auto& g : ts[k]->pkg) x.edges.push_back({g, "pkg-config", {}}); } }
		x.tdeps = x.edges; x.edges.clear();
		// extras from everything the source reaches among the source files
		set<string> seen; vector<string> st{n.path}; while(!st.empty()) { string q = st.back(); st.pop_back(); if(!seen.insert(q).second) continue; auto i = nodes.find(q); if(i == nodes.end()) continue; for(auto& ex : i->second.extra) if(ex.name != t) x.tdeps.push_back(ex); for(auto& ed : i->second.edges) st.push_back(ed.name); }
		x.edges = x.tdeps; x.edges.push_back({n.path, "project", {}}); tn.push_back(x); ++k; } }
	map<string, vector<MEdge>> tuse; for(auto& x : tn) { tuse[x.path] = x.tdeps; nodes.emplace(x.path, x); }
	// placeholders
	vector<string> ext; for(auto& e : nodes) for(auto& d : e.second.edges) if(d.origin == "system" || d.origin == "pkg-config") ext.push_back(d.name);
	for(auto& s : ext) if(!nodes.count(s)) { MNode n; n.path = s; n.ext = true; nodes[s] = n; }
	for(auto& e : nodes) if(e.second.use_tdeps) for(auto& t : e.second.targets) for(auto& d : tuse[t]) e.second.edges.push_back(d);
	for(auto& e : nodes) { m.idx[e.second.path] = (int)m.nodes.size(); m.nodes.push_back(e.second); }
	for(auto& n : m.nodes) for(auto& d : n.edges) { auto i = m.idx.find(d.name); if(i == m.idx.end()) fail("unresolved", d.name); else d.to = i->second; }
	for(auto& t : tsrc) m.target_of[t.first] = m.idx[t.second];
	for(auto& n : m.nodes) if(n.tgt) n.producer = m.target_of[n.path];
	// cycles and closures
	vector<int> st(m.nodes.size(), 0); 
	for(size_t r = 0; r < m.nodes.size(); ++r) { vector<std::pair<int, size_t>> s; if(st[r]) continue; s.push_back({(int)r, 0}); st[r] = 1;
		while(!s.empty()) { auto& [v, k] = s.back(); if(k == m.nodes[v].edges.size()) { st[v] = 2; s.pop_back(); continue; } int w = m.nodes[v].edges[k++].to; if(w < 0) continue; if(st[w] == 1) { fail("cycle", m.nodes[w].path); continue; } if(st[w] == 0) { st[w] = 1; s.push_back({w, 0}); } } }
	for(auto& n : m.nodes) if(n.task()) { set<int> seen; vector<int> q; for(auto& d : n.edges) if(d.to >= 0) q.push_back(d.to); while(!q.empty()) { int v = q.back(); q.pop_back(); if(!seen.insert(v).second) continue; for(auto& d : m.nodes[v].edges) if(d.to >= 0) q.push_back(d.to); } n.closure.assign(seen.begin(), seen.end()); }
	return m;
}

string recipe_exe(const Proj& p, const MNode& n) { return p.vpath(n.recipe.empty() ? n.path : n.recipe); }
string cfg_canon(const MNode& n) { return canon_map(n.cfg); }
string step_hash(const string& exe, const string& cfg, const string& src, const string& text, vector<std::pair<string, string>> deps) {
	std::sort(deps.begin(), deps.end()); u64 h = hashs(exe); h = hashs("\x01" + cfg, h); h = hashs("\x02" + src, h); h = hashs("\x03" + text, h); for(auto& d : deps) { h = hashs("\x04" + d.first, h); h = hashs("\x05" + d.second, h); } return hex(h);
}
string Expect::text(const string& vp) { auto n = K.fs.get(vp); return n && !n->dir ? n->data : "<missing>"; }
string Expect::content(int i) { auto& n = m.nodes[i]; if(n.ext) return "S"; if(n.dir) return "D"; if(n.tgt) { auto& s = m.nodes[n.producer]; return s.dir ? "D" : target(n.producer, n.path); } return text(p.vpath(n.path)); }
string Expect::target(int si, const string& t) {
	auto it = memo.find(t); if(it != memo.end()) return it->second; auto& n = m.nodes[si]; vector<std::pair<string, string>> deps; for(int d : n.closure) deps.push_back({m.nodes[d].path, content(d)});
	string r = "OUT " + t + "\n" + step_hash(text(recipe_exe(p, n)), cfg_canon(n), n.path, n.dir ? "D" : text(p.vpath(n.path)), deps) + "\n"; memo[t] = r; return r;
}
set<int> needed(const Model& m, const string& t) { set<int> r; auto i = m.target_of.find(t); if(i == m.target_of.end()) return r; if(m.nodes[i->second].task()) r.insert(i->second); for(int d : m.nodes[i->second].closure) if(m.nodes[d].task()) r.insert(d); return r; }
set<int> run_set(const Proj& p, const Model& m, const Vfs& fs, bool force, const set<int>* only) {
	set<int> run; bool ch = true;
	while(ch) { ch = false; for(size_t i = 0; i < m.nodes.size(); ++i) { auto& n = m.nodes[i]; if(!n.task() || run.count((int)i) || (only && !only->count((int)i))) continue; bool r = force || n.always;
		for(auto& t : n.targets) { if(r) break; auto tf = fs.get(fs.abs(t)); if(tf && tf->dir) continue; if(!tf) { r = true; break; }
			auto sf = fs.get(fs.abs(n.path)); if(sf && sf->mtime >= tf->mtime) { r = true; break; }
			for(int d : n.closure) { auto& x = m.nodes[d]; if(x.ext) continue; auto f = fs.get(fs.abs(x.path)); if(x.tgt && run.count(x.producer) && !m.nodes[x.producer].dir) { r = true; break; } if(f && f->dir) continue; if(f && f->mtime >= tf->mtime) { r = true; break; } } }
		if(r) { run.insert((int)i); ch = true; } } }
	return run;
}
}
