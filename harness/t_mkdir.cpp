// mkdir_p against a file system that records what is made
#include <cerrno>
#include <set>
#include <string>
#include <vector>
#include <sys/stat.h>
#include "vt.h"
#include "utils/mkdir_p.hpp"
typedef std::vector<std::string> Path;
static std::set<Path> *dirs; static char SEP; static mode_t MODE; static int calls, fail_at, fail_with; static bool absolute;
// the components of a path: empty ones and "." do not count
static Path parts(const std::string &s) {
  Path r; std::string c;
  for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == SEP) { if (!c.empty() && c != ".") r.push_back(c); c.clear(); } else c += s[i];
  return r;
}
extern "C" int mkdir(const char *p, mode_t m) {
  const std::string s(p); calls++;
  VT_ASSERT(m == MODE, "directories get the requested mode");
  if (s.empty()) { errno = ENOENT; return -1; }
  VT_ASSERT((s[0] == SEP) == absolute, "a relative path stays relative");
  if (calls - 1 == fail_at) { errno = fail_with; return -1; }
  Path q = parts(s); if (q.empty() || dirs->count(q)) { errno = EEXIST; return -1; }
  Path up = q; up.pop_back(); if (!up.empty() && !dirs->count(up)) { errno = ENOENT; return -1; }
  dirs->insert(q); return 0;
}
extern "C" void h_mkdir() {
  const size_t L = vt_param("L", 4), len = 1 + vt_choice((unsigned)L, "length"); const bool dflt = vt_choice(2, "default separator"); SEP = dflt ? '/' : ':'; MODE = (mode_t)(vt_sym<uint16_t>("mode") & 07777);
  std::string path; for (size_t i = 0; i < len; i++) { const unsigned k = vt_choice(3, "character"); char c = SEP; if (k == 1) c = '.'; else if (k == 2) { c = (char)vt_sym<uint8_t>("letter"); vt_assume(c != 0 && c != SEP && c != '.'); } path += c; }
  for (size_t i = 0; i + 1 < len; i++) if (path[i] == '.' && path[i + 1] == '.') vt_assume(false);   // ".." is up to the file system
  absolute = path[0] == SEP; vt_leak_mark(); { std::set<Path> fs; dirs = &fs; calls = 0; const bool fails = vt_choice(2, "failure"); fail_at = fails ? (int)vt_choice((unsigned)L, "failing call") : -1; fail_with = EACCES;
  const Path want = parts(path); const size_t had = want.empty() ? 0 : vt_choice((unsigned)want.size() + 1, "existing"); Path q; for (size_t i = 0; i < had; i++) { q.push_back(want[i]); fs.insert(q); }
  const int rc = dflt ? mkdir_p(path, MODE) : mkdir_p(path, MODE, SEP);
  const bool failed = fail_at >= 0 && fail_at < calls;
  VT_ASSERT(rc == (failed ? EACCES : 0), "the error of the system is returned, and no other");
  if (!failed) { q.clear(); for (const std::string &c : want) { q.push_back(c); VT_ASSERT(fs.count(q), "every directory of the path exists afterwards"); } VT_ASSERT(fs.size() == want.size(), "no other directory is made"); vt_cover("made"); }
  else { VT_ASSERT(calls == fail_at + 1, "nothing is made after an error"); for (const Path &d : fs) { VT_ASSERT(d.size() <= want.size(), "no other directory is made"); for (size_t i = 0; i < d.size(); i++) VT_ASSERT(d[i] == want[i], "no other directory is made"); } vt_cover("failed"); }
  } vt_check_leaks();
}
