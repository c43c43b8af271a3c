// @repo base/generic_utils.cpp
// @flags -Dmkdir=vp_mkdir -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose
// @entry h_create reach=existed,created,denied,nested,slash time=300
// @entry h_create_fault reach=failed,created time=200
// @entry h_create_gone reach=refused time=60
// @entry h_paths reach=absolute,relative,nodir,slashed time=150
// @entry h_directory reach=none,dir time=60
// @entry h_procedure reach=done time=60
// @entry h_environment reach=set,unset time=30
// @entry h_library reach=loaded,missing,empty time=30
// @bound h_create: every path of up to 5 (thorough 7) characters of 'a', 'b' and '/', every set of existing directories among the path's ancestors, all permissions; h_create_fault: 4 (thorough 5) characters with any mkdir failing for another reason; h_paths, h_directory: every directory and file text of up to 3 (thorough 4) characters, all 256 byte values
// @assume mkdir, getenv, dlopen are models: mkdir follows POSIX over a symbolic set of directories; a file in place of a directory is outside
#include <oac.h>
#include <sup/oac-tree/generic_utils.h>
#include <cerrno>
#include <sys/types.h>
#include <sys/stat.h>
#include <set>
using namespace oac;
#ifdef VP_THOROUGH
static const int kLen = 7, kFault = 5, kTxt = 4;
#else
static const int kLen = 5, kFault = 4, kTxt = 3;
#endif
struct Fs
{ // directories by their components; "/" and (unless removed) the working directory exist
  std::set<std::string> dirs; std::map<std::string, unsigned> made; bool cwd = true; int calls = 0, failAt = -1, failed = 0;
  static std::vector<std::string> parts(const std::string& p) { std::vector<std::string> r; std::string c; for (char x : p + "/") { if (x != '/') { c += x; continue; } if (!c.empty()) r.push_back(c); c.clear(); } return r; }
  static std::string key(const std::string& p, size_t n) { auto v = parts(p); std::string k = !p.empty() && p[0] == '/' ? "/" : ""; for (size_t i = 0; i < n; i++) k += v[i] + "/"; return k; }
  bool has(const std::string& k) const { return k == "/" || (k.empty() ? cwd : dirs.count(k) > 0); }
  int mkdir(const std::string& p, unsigned mode)
  {
    vp_assume(++calls <= 40); if (calls > 20) CHECK(false, "creating a directory ends"); if (p.empty()) { errno = ENOENT; return -1; } if (calls == failAt) { ++failed; errno = EACCES; return -1; } auto v = parts(p); auto k = key(p, v.size()); if (v.empty() || has(k)) { errno = EEXIST; return -1; } if (!has(key(p, v.size() - 1))) { errno = ENOENT; return -1; } dirs.insert(k); made[k] = mode; return 0;
  }
};
static Fs* fs;
extern "C" int vp_mkdir(const char* p, mode_t m) { return fs->mkdir(p, m); }
static const char *envName = nullptr, *envValue = nullptr; static std::string lib; static bool libOk; static int libHandle, closed;
extern "C" char* getenv(const char* n) noexcept { if (!envName || !n) return nullptr; const char* e = envName; while (*e && *e == *n) ++e, ++n; return *e == *n ? const_cast<char*>(envValue) : nullptr; }
extern "C" void* vp_dlopen(const char* n, int) { lib = n; return libOk ? (void*)&libHandle : nullptr; }
extern "C" int vp_dlclose(void* h) { ++closed; return h == &libHandle ? 0 : -1; }
static std::string path(int max) { int n = 1 + vp::choose("length", max); std::string s; for (int i = 0; i < n; i++) s += "ab/"[vp::choose("character", 3)]; return s; }
static std::set<std::string> exist(Fs& f, const std::string& p) { size_t n = Fs::parts(p).size(); int k = n ? vp::choose("existing", (int)n + 1) : 0; for (int i = 1; i <= k; i++) f.dirs.insert(Fs::key(p, (size_t)i)); return f.dirs; }
HARNESS(h_create)
{
  Fs f; fs = &f; auto p = path(kLen); auto before = exist(f, p); unsigned mode = (unsigned)vp::below("mode", 01000) | 0; bool dflt = vp::flag("default"); size_t n = Fs::parts(p).size(); bool ok = dflt ? utils::CreateDir(p) : utils::CreateDir(p, mode);
  CHECK(ok, "a directory that can be created is created"); CHECK(f.has(Fs::key(p, n)), "the directory exists"); for (auto& d : f.dirs) { bool anc = false; for (size_t i = 1; i <= n; i++) anc = anc || d == Fs::key(p, i); CHECK(anc, "only ancestors are created"); CHECK(before.count(d) != f.made.count(d), "exactly the missing directories are created"); } auto k = Fs::key(p, n); if (f.made.count(k)) { CHECK(f.made[k] == (dflt ? 0755u : mode), "the directory has the requested permissions"); vp_reach("created"); if (f.made.size() > 1) vp_reach("nested"); } else vp_reach("existed"); if (n && p.back() == '/') vp_reach("slash"); int c = f.calls; CHECK(utils::CreateDir(p, mode) && f.calls > c && f.dirs.size() == n, "creating a directory again changes nothing"); Fs g; fs = &g; CHECK(!utils::CreateDir("") && !g.calls, "no name is refused"); vp_reach("denied");
}
HARNESS(h_create_fault)
{
  Fs f; fs = &f; auto p = path(kFault); auto before = exist(f, p); f.failAt = 1 + vp::choose("failing call", 3); bool ok = utils::CreateDir(p, 0700); bool there = f.has(Fs::key(p, Fs::parts(p).size())); CHECK(ok ? there : f.failed > 0 , "success is reported exactly when the directory exists or nothing failed"); if (f.failed) { CHECK(!ok || there, "a failure is reported"); vp_reach("failed"); } else vp_reach("created"); for (auto& d : f.dirs) CHECK(before.count(d) != f.made.count(d), "exactly missing directories are created");
}
HARNESS(h_create_gone)
{ // the working directory was removed
  Fs f; fs = &f; f.cwd = false; auto p = path(kFault); bool abs = p[0] == '/'; bool ok = utils::CreateDir(p); CHECK(ok == abs, "a directory without parent is refused"); if (!ok) { CHECK(f.dirs.empty(), "nothing is created"); vp_reach("refused"); }
}
HARNESS(h_paths)
{
  auto d = vp::str("directory", 0, kTxt), n = vp::str("file", 0, kTxt); auto r = GetFullPathName(d, n); if (n.empty()) { CHECK(r.empty(), "no file has no path"); return; } if (n[0] == '/') { CHECK(r == n, "an absolute file stays as it is"); vp_reach("absolute"); return; } if (d.empty()) { CHECK(r == n, "without directory a file stays as it is"); vp_reach("nodir"); return; }
  bool s = d[d.size() - 1] == '/'; CHECK(r.size() == d.size() + n.size() + (s ? 0 : 1), "a relative file is in its directory"); for (size_t i = 0; i < d.size(); i++) CHECK(r[i] == d[i], "a path begins with its directory"); if (!s) CHECK(r[d.size()] == '/', "the parts are separated"); for (size_t i = 0; i < n.size(); i++) CHECK(r[r.size() - n.size() + i] == n[i], "a path ends with its file"); vp_reach(s ? "slashed" : "relative");
}
HARNESS(h_directory)
{
  auto f = vp::str("file", 0, kTxt + 1); auto d = GetFileDirectory(f); size_t last = 0; for (size_t i = 0; i < f.size(); i++) if (f[i] == '/') last = i + 1; CHECK(d.size() == last, "the directory ends at the last separator"); for (size_t i = 0; i < last; i++) CHECK(d[i] == f[i], "the directory begins the file's path"); vp_reach(last ? "dir" : "none"); if (last < f.size()) { std::string n; for (size_t i = last; i < f.size(); i++) n += f[i]; CHECK(GetFullPathName(d, n) == f, "directory and name recompose to the path"); }
}
HARNESS(h_procedure)
{ // files are relative to the including procedure
  int n = vp::choose("file", 5); static const char* file[] = {"p.xml", "d/p.xml", "/r/d/p.xml", "/p.xml", ""}; static const char* dir[] = {"", "d/", "/r/d/", "/", ""}; Procedure p(file[n]); CHECK(GetProcedurePath(p) == dir[n], "a procedure's path is the directory of its file"); auto f = vp::str("name", 1, 2); auto r = ResolveRelativePath(p, f); if (f[0] == '/') CHECK(r == f, "an absolute file stays as it is"); else CHECK(r == dir[n] + f, "a relative file is taken from the procedure's directory"); CHECK(ResolveRelativePath(p, "") == "", "no file has no path"); vp_reach("done");
}
HARNESS(h_environment)
{
  envName = "VP"; static char v[3]; vp_make_symbolic(v, 2, "value"); v[2] = 0; bool set = vp::flag("set"); envValue = set ? v : nullptr; auto r = utils::GetEnvironmentVariable("VP"); if (set) { CHECK(r == std::string(v), "a variable of the environment has its value"); vp_reach("set"); } else { CHECK(r.empty(), "an unset variable is empty"); vp_reach("unset"); } CHECK(utils::GetEnvironmentVariable("OTHER").empty(), "an unset variable is empty");
}
HARNESS(h_library)
{
  libOk = vp::flag("loads"); auto n = vp::str("name", 0, 2); for (char c : n) vp_assume(c != 0); lib = "?"; int o = 0; void* h = nullptr; try { h = utils::LoadLibrary(n); } catch (const RuntimeException&) { o = 1; } catch (const InvalidOperationException&) { o = 2; } if (n.empty()) { CHECK(o == 2 && lib == "?", "no name is refused"); vp_reach("empty"); return; } CHECK(lib == n, "the named library is loaded"); CHECK(o == (libOk ? 0 : 1) && (!libOk || h == &libHandle), "a library that does not load is an error"); vp_reach(libOk ? "loaded" : "missing"); if (h) CHECK(utils::UnloadLibrary(h) && closed == 1, "a library is unloaded");
}
