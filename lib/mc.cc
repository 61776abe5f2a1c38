#include "mc.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>

namespace mc {
namespace {

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

constexpr int kMaxPath = 512;
constexpr int kMaxWorkers = 64;

struct Slot {
  std::atomic<uint64_t> leaf;  // Counter of executions started.
  std::atomic<int> len;
  int path[kMaxPath];
};

struct Shared {
  std::atomic<int> next_job;
  std::atomic<int> stop;
  Slot slot[kMaxWorkers];
};

bool g_thorough = false;
unsigned g_seed = 1;
std::string g_scratch;
Shared* g_shared = nullptr;
Slot* g_slot = nullptr;

std::string JsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    switch (ch) {
      case '"':
        r += "\\\"";
        break;
      case '\\':
        r += "\\\\";
        break;
      case '\n':
        r += "\\n";
        break;
      case '\t':
        r += "\\t";
        break;
      default:
        if (ch < 0x20 || ch >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", ch);
          r += b;
        } else {
          r += ch;
        }
    }
  }
  return r + "\"";
}

std::string PathStr(const std::vector<int>& p) {
  std::string r;
  for (std::size_t i = 0; i < p.size(); ++i) r += (i ? "," : "") + std::to_string(p[i]);
  return r;
}

std::vector<int> ParsePath(const std::string& s) {
  std::vector<int> r;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) {
    if (!t.empty()) r.push_back(std::stoi(t));
  }
  return r;
}

struct Viol {
  int space;
  std::string key, msg;
  std::vector<int> path, job;
};

// Executes one leaf. Returns false when pruned.
struct LeafResult {
  bool pruned{false};
  bool failed{false};
  std::string key, msg;
};

LeafResult RunLeaf(const Space& sp, Ctx& c) {
  LeafResult r;
  c.pos = 0;
  if (g_slot) {
    const int n = std::min<int>(c.path.size(), kMaxPath);
    for (int i = 0; i < n; ++i) g_slot->path[i] = c.path[i];
    g_slot->len = n;
    ++g_slot->leaf;
  }
  try {
    sp.run(c);
  } catch (const Prune&) {
    r.pruned = true;
  } catch (const Fail& f) {
    r.failed = true;
    r.key = f.key;
    r.msg = f.msg;
  } catch (const std::exception& e) {
    r.failed = true;
    r.key = "unexpected-exception";
    r.msg = std::string("the implementation threw where the reference does not: ") + e.what();
  }
  return r;
}

// Advances c.path to the next leaf whose first `base` choices are fixed.
bool Advance(Ctx& c, std::size_t base) {
  c.path.resize(c.pos);
  c.widths.resize(c.pos);
  while (c.path.size() > base) {
    if (c.path.back() + 1 < c.widths.back()) {
      ++c.path.back();
      return true;
    }
    c.path.pop_back();
    c.widths.pop_back();
  }
  return false;
}

struct Job {
  int space;
  std::vector<int> prefix;
};

// Expands the tree of `space` into at least `want` jobs when it has as many leaves.
std::vector<std::vector<int>> SplitInChild(const Space& sp, int want) {
  // In a forked child, since it executes the code under test.
  int fds[2];
  if (pipe(fds) != 0) abort();
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    const int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    dup2(devnull, 2);
    alarm(120);
    std::vector<std::vector<int>> open{{}}, closed;
    std::string out;
    while (!open.empty() && static_cast<int>(open.size() + closed.size()) < want) {
      std::vector<std::vector<int>> next;
      for (const auto& p : open) {
        Ctx c;
        c.path = p;
        c.widths.assign(p.size(), 0);
        c.probe_depth = p.size();
        int width = 0;
        try {
          RunLeaf(sp, c);
        } catch (const ProbeStop& s) {
          width = s.width;
        }
        if (width == 0) {
          closed.push_back(p);
        } else {
          for (int i = 0; i < width; ++i) {
            auto q = p;
            q.push_back(i);
            next.push_back(q);
          }
        }
      }
      open = next;
    }
    for (const auto& p : closed) out += PathStr(p) + "\n";
    for (const auto& p : open) out += PathStr(p) + "\n";
    size_t off = 0;
    while (off < out.size()) {
      ssize_t n = write(fds[1], out.data() + off, out.size() - off);
      if (n <= 0) break;
      off += n;
    }
    _exit(0);
  }
  close(fds[1]);
  std::string in;
  char buf[65536];
  ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) in.append(buf, n);
  close(fds[0]);
  int st;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return {{}};  // Crashed while probing: one job, which will crash too.
  std::vector<std::vector<int>> r;
  std::stringstream ss(in);
  std::string line;
  while (std::getline(ss, line)) r.push_back(ParsePath(line));
  return r;
}

void AppendViol(FILE* f, const Viol& v) {
  fprintf(f, "V %d\t%s\t%s\t%s\t%s\n", v.space, PathStr(v.path).c_str(), PathStr(v.job).c_str(), JsonStr(v.key).c_str(),
          JsonStr(v.msg).c_str());
}

// Runs a job in this (forked) process, writing results to `file`.
void RunJob(const std::vector<Space>& spaces, const Job& job, const std::string& file, double deadline) {
  Ctx c;
  c.path = job.prefix;
  c.widths.assign(job.prefix.size(), 1);
  uint64_t leaves = 0, pruned = 0;
  bool complete = true;
  std::map<std::string, int> seen;
  FILE* f = fopen(file.c_str(), "w");
  uint64_t nviol = 0;
  std::vector<std::vector<int>> samples;
  while (true) {
    const LeafResult r = RunLeaf(spaces[job.space], c);
    if (r.pruned) {
      ++pruned;
    } else {
      ++leaves;
      if (samples.size() < 1) samples.push_back(std::vector<int>(c.path.begin(), c.path.begin() + c.pos));
    }
    if (r.failed) {
      ++nviol;
      if (seen[r.key]++ < 3) {
        AppendViol(f, {job.space, r.key, r.msg, std::vector<int>(c.path.begin(), c.path.begin() + c.pos), job.prefix});
        fflush(f);
      }
      if (getenv("VERIF_FIRST")) g_shared->stop = 1;  // Development aid: the first violation is enough.
    }
    if (!Advance(c, job.prefix.size())) break;
    if (c.stop_job) {
      complete = false;
      break;
    }
    if (g_shared->stop || Now() > deadline) {
      complete = false;
      break;
    }
  }
  fprintf(f, "R %d %llu %llu %llu %llu %llu %llu %d %d\n", job.space, (unsigned long long)leaves,
          (unsigned long long)pruned, (unsigned long long)c.transitions, (unsigned long long)c.comparisons,
          (unsigned long long)c.nontrivial_count, (unsigned long long)nviol, complete ? 1 : 0, c.states_capped ? 1 : 0);
  for (const auto& s : samples) fprintf(f, "S %d\t%s\n", job.space, PathStr(s).c_str());
  fclose(f);
  FILE* g = fopen((file + ".st").c_str(), "w");
  for (uint64_t h : c.states) fwrite(&h, sizeof h, 1, g);
  fclose(g);
}

std::string DescribeCrash(int st) {
  if (WIFSIGNALED(st)) return std::string("signal ") + strsignal(WTERMSIG(st));
  return "exit status " + std::to_string(WEXITSTATUS(st));
}

// Re-executes in a fresh process: exactly `path` (job == nullptr) or the whole job up to `path`.
// Returns true when it fails again. `out` gets the key, message and trace.
bool Reproduce(const std::vector<Space>& spaces, const Viol& v, bool whole_job, std::string* key, std::string* msg,
               std::string* trace) {
  int fds[2];
  if (pipe(fds) != 0) abort();
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    const int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    dup2(devnull, 2);
    alarm(120);
    Ctx c;
    LeafResult r;
    g_slot = nullptr;
    if (whole_job) {
      c.path = v.job;
      c.widths.assign(v.job.size(), 1);
      while (true) {
        r = RunLeaf(spaces[v.space], c);
        if (std::vector<int>(c.path.begin(), c.path.begin() + c.pos) == v.path) break;
        if (!Advance(c, v.job.size())) break;
      }
    } else {
      c.path = v.path;
      c.widths.assign(v.path.size(), 1);
      c.tracing = true;
      r = RunLeaf(spaces[v.space], c);
    }
    std::string out = (r.failed ? "F" : (r.pruned ? "P" : "N")) + r.key + std::string(1, '\0') + r.msg +
                      std::string(1, '\0') + c.log.str();
    size_t off = 0;
    while (off < out.size()) {
      ssize_t n = write(fds[1], out.data() + off, out.size() - off);
      if (n <= 0) break;
      off += n;
    }
    _exit(0);
  }
  close(fds[1]);
  std::string in;
  char buf[65536];
  ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) in.append(buf, n);
  close(fds[0]);
  int st;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    *key = "crash";
    *msg = "the process died: " + DescribeCrash(st);
    return true;
  }
  const size_t a = in.find('\0');
  const size_t b = in.find('\0', a + 1);
  *key = in.substr(1, a - 1);
  *msg = in.substr(a + 1, b - a - 1);
  *trace = in.substr(b + 1);
  return in[0] == 'F';
}

}  // namespace

bool Thorough() { return g_thorough; }
unsigned Seed() { return g_seed; }
const std::string& Scratch() { return g_scratch; }

int Ctx::choose(int n) {
  if (n <= 0) throw Fail{"harness", "choose(0)"};
  if (probe_depth >= 0 && static_cast<int>(pos) == probe_depth) throw ProbeStop{n};
  if (pos < path.size()) {
    if (pos < widths.size()) {
      widths[pos] = n;
    } else {
      widths.push_back(n);
    }
    if (path[pos] >= n) throw Fail{"harness-nondeterminism", "a replayed choice is out of range"};
    return path[pos++];
  }
  path.push_back(0);
  widths.push_back(n);
  if (g_slot && pos < kMaxPath) {
    g_slot->path[pos] = 0;
    g_slot->len = pos + 1;
  }
  ++pos;
  return 0;
}

int Main(int argc, char** argv, const std::vector<Space>& spaces) {
  std::string out = "out.json", replay, only;
  int jobs = 8;
  double deadline_s = 600, hang_s = getenv("VERIF_FIRST") ? 25 : 90;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") {
      g_thorough = next() == "thorough";
    } else if (a == "--seed") {
      g_seed = atoi(next().c_str());
    } else if (a == "--out") {
      out = next();
    } else if (a == "--scratch") {
      g_scratch = next();
    } else if (a == "--jobs") {
      jobs = atoi(next().c_str());
    } else if (a == "--deadline") {
      deadline_s = atof(next().c_str());
    } else if (a == "--replay") {
      replay = next();
    } else if (a == "--space") {
      only = next();
    }
  }
  jobs = std::max(1, std::min(jobs, kMaxWorkers));
  const double t0 = Now();
  g_shared = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (!replay.empty()) {
    // Replay file: first line "space <name>", second "path ...", third "job ...", then text.
    std::ifstream f(replay);
    std::string line;
    Viol v;
    v.space = -1;
    bool whole = false;
    while (std::getline(f, line)) {
      if (line.rfind("space ", 0) == 0) {
        for (size_t i = 0; i < spaces.size(); ++i) {
          if (spaces[i].name == line.substr(6)) v.space = i;
        }
      } else if (line.rfind("path ", 0) == 0) {
        v.path = ParsePath(line.substr(5));
      } else if (line.rfind("job ", 0) == 0) {
        v.job = ParsePath(line.substr(4));
      } else if (line == "mode job") {
        whole = true;
      } else if (line == "---") {
        break;
      }
    }
    if (v.space < 0) {
      std::cerr << "replay: unknown space\n";
      return 2;
    }
    std::string key, msg, trace;
    const bool r = Reproduce(spaces, v, whole, &key, &msg, &trace);
    std::cout << trace << (r ? "REPRODUCED " : "NOT REPRODUCED ") << key << ": " << msg << "\n";
    return r ? 1 : 0;
  }
  const std::string dir = g_scratch + "/mc";
  mkdir(g_scratch.c_str(), 0755);
  mkdir(dir.c_str(), 0755);
  std::vector<Job> job_list;
  for (size_t s = 0; s < spaces.size(); ++s) {
    if (!only.empty() && spaces[s].name.find(only) == std::string::npos) continue;
    for (const auto& p : SplitInChild(spaces[s], jobs * 16)) job_list.push_back({static_cast<int>(s), p});
  }
  const double deadline = t0 + deadline_s;
  struct Running {
    pid_t pid{0};
    int job{-1};
    uint64_t leaf{0};
    double since{0};
  };
  std::vector<Running> run(jobs);
  size_t next = 0, active = 0;
  std::vector<Viol> viols;
  bool complete = true;
  size_t crashes = 0;
  auto job_file = [&](int j) { return dir + "/job" + std::to_string(j); };
  auto slot_path = [&](int w) {
    const Slot& s = g_shared->slot[w];
    return std::vector<int>(s.path, s.path + std::max(0, std::min<int>(s.len, kMaxPath)));
  };
  std::vector<char> finished(job_list.size(), 0);
  while (true) {
    for (int w = 0; w < jobs; ++w) {
      if (run[w].pid != 0 || next >= job_list.size() || g_shared->stop || Now() > deadline) continue;
      const int j = next++;
      g_shared->slot[w].leaf = 0;
      g_shared->slot[w].len = 0;
      const pid_t pid = fork();
      if (pid == 0) {
        g_slot = &g_shared->slot[w];
        const int devnull = open("/dev/null", O_WRONLY);
        dup2(devnull, 1);
        dup2(devnull, 2);
        g_scratch += "/w" + std::to_string(w);
        mkdir(g_scratch.c_str(), 0755);
        RunJob(spaces, job_list[j], job_file(j), deadline);
        _exit(0);
      }
      run[w] = {pid, j, 0, Now()};
      ++active;
    }
    if (active == 0) break;
    int st;
    const pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid > 0) {
      for (int w = 0; w < jobs; ++w) {
        if (run[w].pid != pid) continue;
        run[w].pid = 0;
        --active;
        finished[run[w].job] = 1;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
          complete = false;
          if (++crashes >= 8) g_shared->stop = 1;
          viols.push_back({job_list[run[w].job].space, "crash", "the process died: " + DescribeCrash(st), slot_path(w),
                           job_list[run[w].job].prefix});
        }
      }
      continue;
    }
    const double now = Now();
    for (int w = 0; w < jobs; ++w) {
      if (run[w].pid == 0) continue;
      const uint64_t leaf = g_shared->slot[w].leaf;
      if (leaf != run[w].leaf) {
        run[w].leaf = leaf;
        run[w].since = now;
      } else if (now - run[w].since > hang_s) {
        kill(run[w].pid, SIGKILL);
        int st2;
        waitpid(run[w].pid, &st2, 0);
        complete = false;
        viols.push_back({job_list[run[w].job].space, "hang",
                         "one execution did not end within " + std::to_string(hang_s) + " s", slot_path(w),
                         job_list[run[w].job].prefix});
        run[w].pid = 0;
        --active;
        g_shared->stop = 1;
      }
    }
    usleep(500);
  }
  if (next < job_list.size()) complete = false;
  // Merge.
  struct Tot {
    uint64_t leaves{0}, pruned{0}, tr{0}, cmp{0}, nt{0}, nv{0};
    bool complete{true};
  };
  std::vector<Tot> tot(spaces.size());
  std::unordered_set<uint64_t> states;
  bool capped = false;
  std::map<int, std::vector<std::vector<int>>> samples;
  for (size_t j = 0; j < job_list.size(); ++j) {
    std::ifstream f(job_file(j));
    std::string line;
    bool got = false;
    while (std::getline(f, line)) {
      std::stringstream ss(line.substr(2));
      if (line[0] == 'R') {
        got = true;
        int sp, comp, cap;
        uint64_t a, b, t, cmp, nt, nv;
        ss >> sp >> a >> b >> t >> cmp >> nt >> nv >> comp >> cap;
        tot[sp].leaves += a;
        tot[sp].pruned += b;
        tot[sp].tr += t;
        tot[sp].cmp += cmp;
        tot[sp].nt += nt;
        tot[sp].nv += nv;
        if (!comp) tot[sp].complete = false;
        if (cap) capped = true;
      } else if (line[0] == 'S') {
        std::string a, b;
        std::getline(ss, a, '\t');
        std::getline(ss, b);
        const int sp = std::stoi(a);
        samples[sp].push_back(ParsePath(b));
      } else if (line[0] == 'V') {
        std::string a, p, jb, k, m;
        std::getline(ss, a, '\t');
        std::getline(ss, p, '\t');
        std::getline(ss, jb, '\t');
        std::getline(ss, k, '\t');
        std::getline(ss, m);
        auto unq = [](const std::string& s) {  // Minimal inverse of JsonStr.
          std::string r;
          for (size_t i = 1; i + 1 < s.size(); ++i) {
            if (s[i] == '\\') {
              ++i;
              if (s[i] == 'n') {
                r += '\n';
              } else if (s[i] == 't') {
                r += '\t';
              } else if (s[i] == 'u') {
                r += static_cast<char>(std::stoi(s.substr(i + 1, 4), nullptr, 16));
                i += 4;
              } else {
                r += s[i];
              }
            } else {
              r += s[i];
            }
          }
          return r;
        };
        viols.push_back({std::stoi(a), unq(k), unq(m), ParsePath(p), ParsePath(jb)});
      }
    }
    if (!got) {
      tot[job_list[j].space].complete = false;
      complete = false;
    }
    std::ifstream g(job_file(j) + ".st", std::ios::binary);
    uint64_t h;
    while (g.read(reinterpret_cast<char*>(&h), sizeof h)) {
      if (states.size() < 40000000) {
        states.insert(h ^ (0x9e3779b97f4a7c15ull * (job_list[j].space + 1)));
      } else {
        capped = true;
      }
    }
    unlink(job_file(j).c_str());
    unlink((job_file(j) + ".st").c_str());
  }
  rmdir(dir.c_str());
  // Reproduce violations (at most 3 per key) and write the report.
  std::map<std::string, int> per_key;
  std::ofstream o(out);
  o << "{\"violations\": [";
  bool first = true;
  for (const auto& v : viols) {
    if (per_key[std::to_string(v.space) + v.key]++ >= (v.key == "hang" ? 1 : 3)) continue;
    std::string key, msg, trace;
    std::string mode = "leaf";
    bool again = Reproduce(spaces, v, false, &key, &msg, &trace);
    if (again && v.key == "hang") again = true;
    if (!again) {
      std::string t2;
      mode = "job";
      again = Reproduce(spaces, v, true, &key, &msg, &t2);
    }
    o << (first ? "" : ",") << "\n {\"space\": " << JsonStr(spaces[v.space].name) << ", \"key\": " << JsonStr(v.key)
      << ", \"msg\": " << JsonStr(v.msg) << ", \"path\": " << JsonStr(PathStr(v.path))
      << ", \"job\": " << JsonStr(PathStr(v.job)) << ", \"mode\": " << JsonStr(mode)
      << ", \"reproduced\": " << (again ? "true" : "false") << ", \"trace\": " << JsonStr(trace) << "}";
    first = false;
  }
  o << "],\n\"spaces\": [";
  Tot all;
  for (size_t s = 0; s < spaces.size(); ++s) {
    const Tot& t = tot[s];
    all.leaves += t.leaves;
    all.pruned += t.pruned;
    all.tr += t.tr;
    all.cmp += t.cmp;
    all.nt += t.nt;
    all.nv += t.nv;
    if (!t.complete) complete = false;
    o << (s ? "," : "") << "\n {\"name\": " << JsonStr(spaces[s].name) << ", \"bound\": " << JsonStr(spaces[s].bound)
      << ", \"executions\": " << t.leaves << ", \"pruned\": " << t.pruned << ", \"operations\": " << t.tr
      << ", \"comparisons\": " << t.cmp << ", \"complete\": " << (t.complete ? "true" : "false") << "}";
  }
  o << "],\n\"samples\": [";
  first = true;
  for (const auto& kv : samples) {
    const auto& list = kv.second;
    const std::vector<size_t> which{0, list.size() / 2, list.size() - 1};
    std::set<size_t> done;
    for (size_t i : which) {
      if (!done.insert(i).second) continue;
      Viol v{kv.first, "", "", list[i], {}};
      std::string key, msg, trace;
      Reproduce(spaces, v, false, &key, &msg, &trace);
      if (trace.size() > 1200) trace = trace.substr(0, 1200) + "...";
      o << (first ? "" : ",") << "\n {\"space\": " << JsonStr(spaces[kv.first].name)
        << ", \"choices\": " << JsonStr(PathStr(list[i])) << ", \"execution\": " << JsonStr(trace) << "}";
      first = false;
    }
  }
  o << "],\n\"executions\": " << all.leaves << ", \"pruned\": " << all.pruned << ", \"operations\": " << all.tr
    << ", \"comparisons\": " << all.cmp << ", \"nontrivial\": " << all.nt << ", \"states\": " << states.size()
    << ", \"states_capped\": " << (capped ? "true" : "false") << ", \"violating_executions\": " << all.nv
    << ", \"complete\": " << (complete ? "true" : "false") << ", \"wall_s\": " << Now() - t0 << "}\n";
  o.close();
  std::cerr << "executions " << all.leaves << " states " << states.size() << " operations " << all.tr << " comparisons "
            << all.cmp << " violating " << all.nv << " complete " << complete << " wall " << Now() - t0 << "\n";
  return 0;
}

}  // namespace mc
