// Paths, directories and files, against an in-memory file system. Everything happens in a scratch directory, and as an
// unprivileged user where that is possible.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "maliput/common/filesystem.h"
#include "maliput/utility/file_utils.h"
#include "mc.h"

using maliput::common::Filesystem;
using maliput::common::Path;
using namespace maliput::utility;

namespace {

std::vector<std::string> Split(const std::string& p) {
  std::vector<std::string> r;
  std::string x;
  for (char ch : p + "/") {
    if (ch != '/') {
      x += ch;
    } else if (!x.empty()) {
      r.push_back(x);
      x.clear();
    }
  }
  return r;
}
bool Absolute(const std::string& p) { return !p.empty() && p[0] == '/'; }

void Wipe(const std::string& dir) {
  chmod(dir.c_str(), 0755);
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      const std::string p = dir + "/" + e->d_name;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
        Wipe(p);
        rmdir(p.c_str());
      } else {
        unlink(p.c_str());
      }
    }
    closedir(d);
  }
}

// An empty current directory of an unprivileged user.
class Sandbox {
 public:
  Sandbox() {
    umask(022);
    for (std::string d = mc::Scratch(); d.find("/verif-") != std::string::npos; d = d.substr(0, d.rfind('/'))) chmod(d.c_str(), 0711);
    dir_ = mc::Scratch() + "/x" + std::to_string(getpid());
    mkdir(dir_.c_str(), 0755);
    Wipe(dir_);
    if (chown(dir_.c_str(), 65534, 65534)) {
    }
    if (chdir(dir_.c_str())) throw mc::Fail{"scratch", dir_};
    if (setegid(65534) == 0 && seteuid(65534) != 0) {
      if (setegid(0)) {
      }
    }
  }
  ~Sandbox() {
    if (seteuid(0) || setegid(0)) {
    }
    Wipe(dir_);
    if (chdir("/")) {
    }
    rmdir(dir_.c_str());
  }
  const std::string& dir() const { return dir_; }
  bool unprivileged() const { return geteuid() != 0; }

 private:
  std::string dir_;
};

struct Entry {
  enum Kind { kDir, kFile, kLink } kind;
  std::string text;  // Content or target.
  bool locked{false};  // A directory that cannot be written, or a file that cannot be read.
};

// The reference: entries by path, from the root of the sandbox ("").
struct Model {
  std::map<std::string, Entry> e{{"", {Entry::kDir, "", false}}};

  struct Found {
    bool parent{false};  // The directory that has, or would have, the entry exists.
    std::string dir, key;
    const Entry* entry{nullptr};
  };
  Found Walk(const std::string& path, bool follow, const std::string& from = "", int depth = 0) const {
    Found f;
    if (path.empty() || depth > 8) return f;
    const auto parts = Split(path);
    std::string cur = from;
    for (size_t i = 0; i < parts.size(); ++i) {
      const bool last = i + 1 == parts.size();
      if (e.at(cur).kind != Entry::kDir) return Found{};
      std::string key;
      if (parts[i] == ".") {
        key = cur;
      } else if (parts[i] == "..") {
        const auto at = cur.rfind('/');
        key = at == std::string::npos ? "" : cur.substr(0, at);
      } else {
        key = cur.empty() ? parts[i] : cur + "/" + parts[i];
      }
      const auto it = e.find(key);
      if (it == e.end()) {
        if (!last) return Found{};
        f.parent = true;
        f.dir = cur;
        f.key = key;
        return f;
      }
      if (it->second.kind == Entry::kLink && (!last || follow || path.back() == '/')) {
        const Found t = Walk(it->second.text, true, cur, depth + 1);
        if (!t.entry) return Found{};
        key = t.key;
      }
      f.dir = cur;
      cur = key;
    }
    f.parent = true;
    f.key = cur;
    f.entry = &e.at(cur);
    if (path.back() == '/' && f.entry->kind != Entry::kDir) return Found{};
    return f;
  }
  const Entry* Stat(const std::string& p) const { return Walk(p, true).entry; }
  bool Is(const std::string& p, Entry::Kind k) const {
    const Entry* x = Stat(p);
    return x && x->kind == k;
  }
  bool Mkdir(const std::string& p) {
    const Found f = Walk(p, false);
    if (!f.parent || f.entry || e.at(f.dir).locked) return false;
    e[f.key] = {Entry::kDir, "", false};
    return true;
  }
  bool Empty(const std::string& key) const {
    return std::none_of(e.begin(), e.end(), [&](const auto& x) { return x.first.compare(0, key.size() + 1, key + "/") == 0; });
  }
  bool Rmdir(const std::string& p) {
    const Found f = Walk(p, false);
    if (!f.entry || f.entry->kind != Entry::kDir || !Empty(f.key) || e.at(f.dir).locked) return false;
    e.erase(f.key);
    return true;
  }
  bool Unlink(const std::string& p) {
    if (!Is(p, Entry::kFile)) return false;
    const Found f = Walk(p, false);
    if (e.at(f.dir).locked) return false;
    e.erase(f.key);
    return true;
  }
  // mkdir -p
  bool Mkdirs(const std::string& p) {
    std::string at;
    for (const auto& x : Split(p)) {
      at += (at.empty() ? "" : "/") + x;
      if (!Stat(at) && !Mkdir(at)) return false;
    }
    return Is(p, Entry::kDir);
  }
  std::optional<std::string> Read(const std::string& p) const {
    const Entry* x = Stat(p);
    if (!x || x->kind != Entry::kFile || x->locked) return std::nullopt;
    return x->text;
  }
};

std::string Text(const Model& m) {
  std::string r;
  for (const auto& x : m.e) {
    if (!x.first.empty()) r += x.first + (x.second.kind == Entry::kDir ? "/" : x.second.kind == Entry::kFile ? "=" + x.second.text : ">" + x.second.text) + (x.second.locked ? "!" : "") + " ";
  }
  return r;
}

// The sandbox, read without the code under test.
void Real(const std::string& dir, const std::string& prefix, std::map<std::string, Entry>* out) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* x = readdir(d)) {
    if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
    const std::string p = dir + "/" + x->d_name, key = prefix.empty() ? x->d_name : prefix + "/" + x->d_name;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      (*out)[key] = {Entry::kDir, "", !(st.st_mode & 0200)};
      Real(p, key, out);
    } else if (S_ISLNK(st.st_mode)) {
      char b[256];
      const auto n = readlink(p.c_str(), b, sizeof b);
      (*out)[key] = {Entry::kLink, std::string(b, std::max<ssize_t>(n, 0)), false};
    } else {
      std::ifstream is(p, std::ios::binary);
      (*out)[key] = {Entry::kFile, std::string(std::istreambuf_iterator<char>(is), {}), !(st.st_mode & 0400)};
    }
  }
  closedir(d);
}

void Write(const std::string& p, const std::string& text) {
  std::ofstream os(p, std::ios::binary);
  os << text;
}

void Put(Model* m, const std::string& p, const Entry& x) {
  m->e[p] = x;
  if (x.kind == Entry::kDir) mkdir(p.c_str(), 0755);
  if (x.kind == Entry::kFile) Write(p, x.text);
  if (x.kind == Entry::kLink && symlink(x.text.c_str(), p.c_str())) throw mc::Fail{"scratch", p};
}
void Lock(Model* m, const std::string& p) {
  m->e[p].locked = true;
  chmod(p.c_str(), m->e[p].kind == Entry::kDir ? 0555 : 0000);
}

// Every history of operations.
void Histories(mc::Ctx& c) {
  Sandbox box;
  Model m;
  const int initial = c.choose(9);
  using E = Entry;
  switch (initial) {
    case 1:
      Put(&m, "a", {E::kDir, "", false});
      Put(&m, "a/b", {E::kFile, "1", false});
      break;
    case 2:
      Put(&m, "a", {E::kDir, "", false});
      Put(&m, "l", {E::kLink, "a", false});
      break;
    case 3:
      Put(&m, "l", {E::kLink, "b", false});  // To nothing, at first.
      break;
    case 4:
      Put(&m, "a", {E::kDir, "", false});
      Put(&m, "a/b", {E::kFile, "1", false});
      Put(&m, "l", {E::kLink, "a/b", false});
      break;
    case 5:
      Put(&m, "l", {E::kLink, "l", false});
      break;
    case 6:
      Put(&m, "a", {E::kDir, "", false});
      Put(&m, "a/b", {E::kDir, "", false});
      Put(&m, "a/b/b", {E::kDir, "", false});
      break;
    case 7:
      Put(&m, "a", {E::kDir, "", false});
      Put(&m, "a/a", {E::kFile, "1", false});
      Put(&m, "a/b", {E::kDir, "", false});
      if (box.unprivileged()) Lock(&m, "a");
      break;
    case 8:
      Put(&m, "a", {E::kFile, "1", false});
      Put(&m, "b", {E::kDir, "", false});
      if (box.unprivileged()) Lock(&m, "a");
      break;
    default:
      break;
  }
  static const std::vector<std::string> plain{"a", "b", "a/b", "a/a", "a/", "a//b", "./b", "a/../b", "a/b/b"}, linked{"l", "l/b", "a", "b", "a/b", "b/a/"};
  const bool links = initial >= 2 && initial <= 5;
  const std::vector<std::string>& paths = links ? linked : plain;
  const int length = (initial == 0 ? 3 : 2) + mc::Thorough();
  std::string text = Text(m) + ":";
  static const char* kOps[] = {"mkdir", "rmdir", "rm", "mkdir -p", "write"};
  for (int step = 0; step < length; ++step) {
    const int op = c.choose(6);
    if (op == 5) break;
    const bool absolute = step == 0 && op < 4 && c.flip();
    const std::string& p = c.pick(paths);
    const std::string q = absolute ? box.dir() + "/" + p : p;
    c.op();
    text += std::string(" ") + kOps[op] + (absolute ? " /" : " ") + p;
    bool got{}, want{};
    switch (op) {
      case 0:
        got = Filesystem::create_directory(Path(q));
        want = m.Mkdir(p);
        break;
      case 1:
        got = Filesystem::remove_directory(Path(q));
        want = m.Rmdir(p);
        break;
      case 2:
        got = Filesystem::remove_file(Path(q));
        want = m.Unlink(p);
        break;
      case 3:
        got = Filesystem::create_directory_recursive(Path(q));
        want = m.Mkdirs(p);
        break;
      default: {
        const auto f = m.Walk(p, false);
        if (!f.parent || f.entry || p.back() == '/' || m.e.at(f.dir).locked) c.prune();
        got = want = true;
        const std::string content = "f" + std::to_string(step);
        m.e[f.key] = {Entry::kFile, content, false};
        Write(p, content);
      }
    }
    c.expect(got == want, op == 0 ? "result of create_directory" : op == 1 ? "result of remove_directory" : op == 2 ? "result of remove_file" : "result of create_directory_recursive",
             [&] { return text + (got ? ": done" : ": failed"); });
    if (want) c.nontrivial();
  }
  c.trace([&] { return text; });
  c.state(text);
  Model real;
  Real(".", "", &real.e);
  for (auto& x : m.e) {  // What cannot be read cannot be compared.
    if (x.second.kind == Entry::kFile && x.second.locked) real.e[x.first].text = x.second.text;
  }
  c.expect(Text(real) == Text(m), "contents of the directory", [&] { return text + ": " + Text(real) + " instead of " + Text(m); });
  std::vector<std::string> queries = paths;
  for (const char* p : {"", "zz", ".", "a/.", "a/b", "b/a"}) queries.push_back(p);
  for (const auto& p : queries) {
    for (int absolute = 0; absolute < 2; ++absolute) {
      if (absolute && p.empty()) continue;
      const Path path(absolute ? box.dir() + "/" + p : p);
      const auto what = [&] { return text + ": " + path.get_path(); };
      const Entry* x = m.Stat(p);
      c.expect(path.exists() == (x != nullptr), "exists", what);
      c.expect(path.is_file() == m.Is(p, Entry::kFile), "is a file", what);
      c.expect(path.is_directory() == m.Is(p, Entry::kDir), "is a directory", what);
      if (x) c.expect(path.is_absolute() == (absolute == 1), "is absolute", what);
      std::string content = "before";
      const auto want = m.Read(p);
      c.expect(Filesystem::read_as_string(path, content) == want.has_value(), "readable", what);
      if (want) c.expect(content == *want, "content of a file", what);
    }
  }
}

void Contents(mc::Ctx& c) {
  Sandbox box;
  std::string s;
  const int size = c.choose(10);
  if (size < 5) {
    for (int i = 0; i < size; ++i) s += std::string("a\n\r\0\xff \x1a", 7)[c.choose(7)];
  } else {
    static const size_t kSizes[] = {1023, 4096, 8191, 8192, 70001};
    const size_t n = kSizes[size - 5];
    const int kind = c.choose(2);
    for (size_t i = 0; i < n; ++i) s += kind ? static_cast<char>(i * 7 + i / 256) : 'x';
  }
  c.state(s);
  c.op();
  c.nontrivial(!s.empty());
  Write("f", s);
  std::string got = "before";
  c.expect(Filesystem::read_as_string(Path("f"), got) && got == s, "content of a file", [&] { return std::to_string(s.size()) + " bytes read as " + std::to_string(got.size()); });
}

void Paths(mc::Ctx& c) {
  const auto choose = [&](int max) {
    std::string s;
    const int n = c.choose(max + 1);
    for (int i = 0; i < n; ++i) s += "a/."[c.choose(3)];
    return s;
  };
  const std::string p = choose(mc::Thorough() ? 5 : 4), q = choose(mc::Thorough() ? 5 : 4);
  c.trace([&] { return p + " + " + q; });
  c.state(p + "+" + q);
  c.op();
  const auto tidy = [](const std::string& s) { return s.size() < 2 || s.back() != '/'; };
  const auto twice = [](const std::string& s) { return s.size() > 1 && s.compare(s.size() - 2, 2, "//") == 0; };
  Path dut;
  dut.set_path(p);
  const auto what = [&] { return p + " + " + q + ": " + dut.get_path(); };
  const auto same = [&](const std::string& want) {
    return Split(dut.get_path()) == Split(want) && Absolute(dut.get_path()) == Absolute(want);
  };
  c.expect(same(p) && (twice(p) || tidy(dut.get_path())), "path set", what);
  c.expect(Path(p).get_path() == p && Path(std::string()).get_path().empty() && Path().get_path().empty(), "path constructed", p);
  if (p.empty()) c.prune();  // Not stated: appending to no path.
  for (int constructed = 0; constructed < 2; ++constructed) {
    if (constructed) dut = Path(p);
    dut.append(q);
    c.nontrivial(!q.empty());
    c.expect(same(Absolute(q) ? q : p + "/" + q) && (twice(q) || twice(p) || constructed || tidy(dut.get_path())), "path appended", what);
  }
}

// Variables that give the temporary directory, in order.
void Environment(mc::Ctx& c) {
  Sandbox box;
  static const char* kVars[] = {"TMPDIR", "TEMPDIR", "TMP", "TEMP"};
  static const char* kValues[] = {nullptr, "/x", "y/", "/z/w", ""};
  std::string text;
  std::optional<std::string> first;
  for (const char* v : kVars) {
    const char* value = kValues[c.choose(mc::Thorough() ? 5 : 4)];
    if (value) {
      setenv(v, value, 1);
      if (!first) first = value;
    } else {
      unsetenv(v);
    }
    text += std::string(v) + "=" + (value ? value : "unset") + " ";
    c.expect(Filesystem::get_env_path(v) == (value ? value : ""), "environment variable", text);
  }
  c.state(text);
  c.trace([&] { return text; });
  c.op();
  c.nontrivial(first.has_value());
  Path p("other");
  p.set_as_temp();
  const std::string want = first.value_or("/tmp");
  c.expect(Split(p.get_path()) == Split(want) && Absolute(p.get_path()) == Absolute(want) && (p.get_path().empty() || p.get_path().back() != '/'), "temporary directory", [&] { return text + p.get_path(); });
  for (const char* v : kVars) unsetenv(v);
  mkdir("a", 0755);
  mkdir("a/b", 0755);
  if (symlink("a/b", "l")) {
  }
  for (const char* d : {".", "a", "b", "../../l"}) {
    if (chdir(d)) c.fail("scratch", d);
    char b[4096];
    c.expect(getcwd(b, sizeof b) && Filesystem::get_cwd().get_path() == b, "current directory", b);
  }
  const std::string at = Filesystem::get_cwd().get_path();
  c.expect(at.size() > 4 && at.compare(at.size() - 4, 4, "/a/b") == 0, "current directory", at);
}

// Every list of paths in a variable.
void Lists(mc::Ctx& c) {
  static const char* kParts[] = {"/a", "b c", "", ".", "x/y/"};
  const char* kVar = "VERIF_PATHS";
  unsetenv(kVar);
  c.expect(GetAllPathsFromEnvironment(kVar).empty(), "a variable that is not set", "");
  std::string value;
  std::vector<std::string> want;
  const int n = c.choose(mc::Thorough() ? 6 : 5);
  for (int i = 0; i < n; ++i) {
    const std::string p = kParts[c.choose(5)];
    value += (i ? ":" : "") + p;
    if (!p.empty()) want.push_back(p);
  }
  c.trace([&] { return value; });
  c.state(value);
  c.op();
  c.nontrivial(want.size() > 1);
  setenv(kVar, value.c_str(), 1);
  auto got = GetAllPathsFromEnvironment(kVar);
  got.erase(std::remove(got.begin(), got.end(), ""), got.end());  // Not stated: empty elements.
  c.expect(got == want, "paths of a variable", value);
}

void Suffixes(mc::Ctx& c) {
  std::string s;
  const int n = c.choose(mc::Thorough() ? 8 : 7);
  for (int i = 0; i < n; ++i) s += "ab./"[c.choose(4)];
  const std::string name = s.substr(s.find_last_of('/') == std::string::npos ? 0 : s.find_last_of('/') + 1);
  const auto dot = name.rfind('.');
  c.state(s);
  c.op();
  const std::string got = GetSuffixFromPath(s);
  if (dot == std::string::npos) return;  // Not stated: files without a suffix.
  c.nontrivial();
  c.expect(got == name.substr(dot + 1), "suffix", [&] { return s + ": " + got; });
}

void Listing(mc::Ctx& c) {
  Sandbox box;
  Model m;
  Put(&m, "t", {Entry::kDir, "", false});
  std::string text;
  std::vector<std::string> files;
  const auto file = [&](const std::string& p) {
    if (!c.flip()) return;
    Put(&m, p, {Entry::kFile, "", false});
    files.push_back(p);
    text += p + " ";
  };
  const auto dir = [&](const std::string& p) {
    if (!c.flip()) return false;
    Put(&m, p, {Entry::kDir, "", false});
    text += p + "/ ";
    return true;
  };
  for (const char* p : {"t/x.so", "t/x", "t/y.txt", "t/so", "t/z.tar.so", "t/w.so.1"}) file(p);
  if (mc::Thorough()) {
    for (const char* p : {"t/.so", "t/wso"}) file(p);
  }
  if (dir("t/d")) {
    for (const char* p : {"t/d/p.so", "t/d/q"}) file(p);
    if (dir("t/d/e")) file("t/d/e/r.so");
  }
  if (dir("t/d.so")) {
    for (const char* p : {"t/d.so/p.so", "t/d.so/q.txt"}) file(p);
  }
  c.trace([&] { return text; });
  c.state(text);
  c.nontrivial(files.size() > 1);
  for (const std::string from : {std::string("t"), std::string("t/"), box.dir() + "/t", std::string("./t")}) {
    for (const std::optional<std::string>& suffix : {std::optional<std::string>(), std::optional<std::string>(""), std::optional<std::string>("so"), std::optional<std::string>("txt"), std::optional<std::string>("1"), std::optional<std::string>("o"), std::optional<std::string>(".so"), std::optional<std::string>("zip")}) {
      c.op();
      std::multiset<std::string> got;
      for (const auto& p : GetAllFilePathsFromDirectory(from, suffix)) {
        std::string x;
        for (const auto& part : Split(p)) x += "/" + part;
        got.insert(Absolute(p) ? x : x.substr(1));
      }
      const auto what = [&] { return text + "from " + from + " suffix " + suffix.value_or("(none)") + ": " + std::to_string(got.size()); };
      const std::string top = from.back() == '/' ? from.substr(0, from.size() - 1) : from;
      for (const auto& f : files) {
        const std::string p = top + f.substr(1), s = suffix.value_or("");
        const bool ends = p.size() >= s.size() && p.compare(p.size() - s.size(), s.size(), s) == 0;
        const std::string name = f.substr(f.rfind('/') + 1);
        const auto dot = name.rfind('.');
        const bool extension = s.empty() || (dot != std::string::npos && name.substr(dot + 1) == s);
        const int times = got.count(p);
        c.expect(times <= (ends ? 1 : 0), "a file listed twice or without the suffix", what);
        if (extension) c.expect(times == 1, "a file is missing", what);  // Not stated: suffixes that are not what follows the dot.
        got.erase(p);
      }
      c.expect(got.empty(), "listed what is not a file of the directory", [&] { return what() + " " + *got.begin(); });
    }
  }
}

// Deep trees, long names, many entries, long lists.
void Many(mc::Ctx& c) {
  Sandbox box;
  static const std::vector<int> lengths{1, 30, 200};
  const int n = 1 + c.choose(mc::Thorough() ? 24 : 14), length = c.pick(lengths);
  const bool absolute = c.flip();
  const int kind = c.choose(5);
  const std::string text = std::to_string(n) + " of length " + std::to_string(length) + (absolute ? " absolute" : "") + " kind " + std::to_string(kind);
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(n > 1);
  const auto name = [&](int i) { return std::string(length, 'a' + i % 26) + std::to_string(i); };
  const std::string root = absolute ? box.dir() + "/" : "";
  const auto exists = [](const std::string& p, bool dir) {
    struct stat st;
    return stat(p.c_str(), &st) == 0 && (dir ? S_ISDIR(st.st_mode) : S_ISREG(st.st_mode));
  };
  const auto put = [](const std::string& p) { std::ofstream(p) << p; };
  const auto listed = [&](const std::string& from, const std::optional<std::string>& suffix) {
    auto r = GetAllFilePathsFromDirectory(from, suffix);
    std::sort(r.begin(), r.end());
    return r;
  };
  if (kind == 0 || kind == 4) {  // Directories in each other, and a file in each.
    std::string p = root + "t";
    std::vector<std::string> dirs{p}, files;
    for (int i = 0; i < n; ++i) {
      p += "/" + name(i);
      dirs.push_back(p);
    }
    if (p.size() > 3500) c.prune();  // Beyond what the system takes.
    if (kind == 4) Filesystem::create_directory_recursive(Path(dirs[dirs.size() / 2]));
    c.expect(Filesystem::create_directory_recursive(Path(p)), "creation of many directories", text);
    for (const auto& d : dirs) {
      c.expect(exists(d, true) && Path(d).is_directory() && Path(d).exists(), "directory of many", text);
      put(d + "/f.so");
      put(d + "/g.txt");
      files.push_back(d + "/f.so");
    }
    c.expect(Filesystem::create_directory_recursive(Path(p)), "creation of what exists", text);
    std::sort(files.begin(), files.end());
    c.expect(listed(root + "t", "so") == files, "files of nested directories", text);
    c.expect(static_cast<int>(listed(root + "t", std::nullopt).size()) == 2 * (n + 1), "all files of nested directories", text);
    std::string content;
    c.expect(Filesystem::read_as_string(Path(files.back()), content) && content == files.back(), "content of a file far down", text);
    c.expect(!Filesystem::remove_directory(Path(dirs[0])), "removal of a directory with others in it", text);
    for (size_t i = dirs.size(); i-- > 0;) {
      c.expect(Filesystem::remove_file(Path(dirs[i] + "/f.so")) && Filesystem::remove_file(Path(dirs[i] + "/g.txt")) && Filesystem::remove_directory(Path(dirs[i])), "removal of many", text);
      c.expect(!exists(dirs[i], true), "directory after its removal", text);
    }
  } else if (kind == 1) {  // Entries of one directory.
    const std::string d = root + "t";
    c.expect(Filesystem::create_directory(Path(d)), "creation", text);
    std::vector<std::string> files;
    for (int i = 0; i < 4 * n; ++i) {
      put(d + "/" + name(i) + ".so");
      files.push_back(d + "/" + name(i) + ".so");
      if (i % 3 == 0) {
        mkdir((d + "/" + name(i)).c_str(), 0755);
        put(d + "/" + name(i) + "/x.so");
        files.push_back(d + "/" + name(i) + "/x.so");
      }
      put(d + "/" + name(i) + ".txt");
    }
    std::sort(files.begin(), files.end());
    c.expect(listed(d, "so") == files, "files of a directory of many", text);
  } else if (kind == 2) {  // Paths of a variable.
    const char* kVar = "VERIF_PATHS";
    std::string value;
    std::vector<std::string> want;
    for (int i = 0; i < n; ++i) {
      want.push_back("/" + name(absolute ? i / 2 : i));  // The same one may be there twice.
      value += (i ? ":" : "") + want.back();
    }
    setenv(kVar, value.c_str(), 1);
    c.expect(GetAllPathsFromEnvironment(kVar) == want, "long list of paths", text);
    unsetenv(kVar);
  } else {  // A link to a directory among the entries.
    const std::string d = root + "t", other = root + "u";
    mkdir(d.c_str(), 0755);
    mkdir(other.c_str(), 0755);
    std::vector<std::string> files;
    for (int i = 0; i < n; ++i) {
      put(other + "/" + name(i) + ".so");
      files.push_back(d + "/link/" + name(i) + ".so");
    }
    if (symlink((absolute ? other : "../u").c_str(), (d + "/link").c_str()) != 0) c.prune();
    std::sort(files.begin(), files.end());
    c.expect(listed(d, "so") == files, "files of a linked directory", text);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"histories", "every history of up to 3 operations from nothing, and of up to 2 from other 8 trees", Histories},
                               {"contents", "all contents of up to 4 bytes of 7 values, and sizes around those of buffers", Contents},
                               {"paths", "pairs of texts of up to 4 characters", Paths},
                               {"environment", "values of the variables of the temporary directory", Environment},
                               {"lists", "all lists of up to 4 paths", Lists},
                               {"suffixes", "all paths of up to 6 characters", Suffixes},
                               {"listing", "all trees of files over a few names x suffixes", Listing},
                               {"many", "1 to 14 (thorough: 24) nested directories, 4 times as many entries, paths of a variable, files of a linked directory, x 3 lengths of names", Many}});
}
