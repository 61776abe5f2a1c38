// Plugins: libraries, managers of them, and road networks loaded through them.
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "maliput/common/logger.h"
#include "maliput/plugin/create_road_network.h"
#include "maliput/plugin/maliput_plugin.h"
#include "maliput/plugin/maliput_plugin_manager.h"
#include "mc.h"
#include "topo.h"
#include "world.h"

using namespace maliput;
using namespace maliput::plugin;

std::unique_ptr<api::RoadNetwork> VerifNetwork(const char* tag, const std::map<std::string, std::string>& properties) {
  std::string id = std::string(tag) + "|";
  for (const auto& p : properties) id += p.first + "=" + p.second + ";";
  if (properties.count("fail")) throw std::runtime_error("no such road");
  if (properties.count("none")) return nullptr;
  world::World w(1. / 64., 1. / 64., 1., math::Vector3(0., 0., 0.), id);
  w.Junction("j");
  w.Segment("s");
  world::LaneSpec spec;
  spec.id = "l";
  w.Lane(spec);
  w.CloseEnds();
  return topo::Network(std::move(w.rg));
}

namespace {

// The libraries built for this check. Those with the same identifier are different versions of a plugin.
struct Library {
  const char* file;
  const char* id;  // Null: not a plugin.
  int type;
  bool entry;
};
const std::vector<Library> kLibraries{
    {"plug_a1", "a", 0, true}, {"plug_a2", "a", 0, true},  {"plug_b", "b", 0, true},      {"plug_typed", "typed", 7, true}, {"plug_bare", "bare", 0, false},
    {"plug_noid", nullptr, 0, true}, {"plug_notype", nullptr, 0, true}, {"plug_empty", nullptr, 0, true}, {"text", nullptr, 0, false},       {"missing", nullptr, 0, false}};

class Quiet : public common::SinkBase {
 public:
  void log(const std::string&) override {}
  void flush() override {}
};

class Dirs {
 public:
  Dirs() {
    log()->set_sink(std::make_unique<Quiet>());
    dir_ = mc::Scratch() + "/p" + std::to_string(getpid());
    mkdir(dir_.c_str(), 0755);
    // The name of a library tells which one it is, so no path names two of them over time.
    text_ = dir_ + "/text.so";
    std::ofstream(text_) << "not a library";
    made_.push_back(text_);
  }
  ~Dirs() {
    for (auto it = made_.rbegin(); it != made_.rend(); ++it) {
      if (unlink(it->c_str()) != 0) rmdir(it->c_str());
    }
    rmdir(dir_.c_str());
  }
  std::string Dir(const std::string& name) {
    const std::string d = dir_ + "/" + name;
    if (mkdir(d.c_str(), 0755) == 0) made_.push_back(d);
    return d;
  }
  std::string Source(const Library& l) const {
    if (!strcmp(l.file, "text")) return text_;
    if (!strcmp(l.file, "missing")) return dir_ + "/missing.so";
    const char* bin = getenv("VERIF_BIN");
    return std::string(bin ? bin : "/verif/build/bin") + "/" + l.file + ".so";
  }
  std::string Link(const std::string& dir, const Library& l, const std::string& extension = ".so") {
    const std::string p = dir + "/" + l.file + extension;
    if (symlink(Source(l).c_str(), p.c_str())) throw mc::Fail{"scratch", p};
    made_.push_back(p);
    return p;
  }
  const std::string& dir() const { return dir_; }

 private:
  std::string dir_, text_;
  std::vector<std::string> made_;
};

void CheckPlugin(mc::Ctx& c, const MaliputPlugin& p, const Library& l, const std::string& text) {
  c.expect(p.GetId() == l.id && static_cast<int>(p.GetType()) == l.type, "identifier or type of a plugin", text);
  c.expect(std::string(p.ExecuteSymbol<const char*>("VerifTag")) == l.file, "wrong version of a plugin", [&] { return text + ": " + p.ExecuteSymbol<const char*>("VerifTag") + " instead of " + l.file; });
}

void Libraries(mc::Ctx& c) {
  Dirs dirs;
  const Library& l = c.pick(kLibraries);
  const int a = c.choose(4) - 1, b = c.choose(4) * 5;
  const std::string text = l.file;
  c.trace([&] { return text; });
  c.state(text + std::to_string(a) + std::to_string(b));
  c.op();
  std::unique_ptr<MaliputPlugin> p;
  const bool threw = mc::Throws([&] { p = std::make_unique<MaliputPlugin>(dirs.Source(l)); });
  c.expect(threw == !l.id, "library accepted as a plugin", text);
  c.expect(mc::Throws([&] { MaliputPlugin(""); }), "a plugin without a path", text);
  if (threw) return;
  c.nontrivial();
  CheckPlugin(c, *p, l, text);
  if (a == 0) dlopen("no such library", RTLD_LAZY);  // Whatever failed before.
  c.expect(p->ExecuteSymbol<int>("VerifSubtract", int(a), int(b)) == a - b, "result of a symbol", text);
  std::string s = "x";
  p->ExecuteSymbol<void>("VerifAppend", &s, text.c_str());  // Not stated: arguments that are variables, which are passed by reference.
  c.expect(s == "x" + text, "arguments of a symbol", s);
  for (const char* name : {"NoSuchSymbol", "", "VerifTa"}) c.expect(mc::Throws([&] { p->ExecuteSymbol<int>(name); }), "a symbol that is not there", text);
  c.expect(mc::Throws([&] { p->ExecuteSymbol<void*>(RoadNetworkLoader::GetEntryPoint()); }) == !l.entry || l.entry, "entry point", text);
}

using Want = std::map<std::string, std::set<int>>;  // Libraries that may provide each identifier.

void CheckManager(mc::Ctx& c, const MaliputPluginManager& m, Want* want, const std::string& text) {
  const auto got = m.ListPlugins();
  c.expect(got.size() == want->size(), "plugins listed", [&] { return text + ": " + std::to_string(got.size()); });
  for (auto& w : *want) {
    const auto* p = m.GetPlugin(MaliputPlugin::Id(w.first));
    c.expect(p != nullptr && got.count(MaliputPlugin::Id(w.first)) == 1, "a plugin is missing", text + ": " + w.first);
    const std::string tag = p->ExecuteSymbol<const char*>("VerifTag");
    int which = -1;
    for (int i : w.second) {
      if (tag == kLibraries[i].file) which = i;
    }
    c.expect(which >= 0, "wrong version of a plugin", text + ": " + tag);
    CheckPlugin(c, *p, kLibraries[which], text);
    c.expect(static_cast<int>(got.at(MaliputPlugin::Id(w.first))) == kLibraries[which].type, "type of a plugin", text);
    w.second = {which};
  }
  c.expect(m.GetPlugin(MaliputPlugin::Id("unknown")) == nullptr, "an unknown plugin", text);
  for (const char* id : {"a", "b", "typed", "bare"}) c.expect((m.GetPlugin(MaliputPlugin::Id(id)) != nullptr) == (want->count(id) == 1), "plugin by identifier", text);
}

// Fills directories; returns the value of the variable and what its plugins should be.
std::string Layout(mc::Ctx& c, Dirs* dirs, int good, Want* want, std::string* text, bool brief = false) {
  // Libraries of two directories, one of them possibly in a subdirectory, and other files.
  static const std::vector<std::vector<int>> kSets{{}, {0}, {1}, {0, 1}, {2, 3}, {1, 2}};
  const std::vector<int>& in0 = c.pick(kSets);
  const std::vector<int>& in1 = c.pick(kSets);
  const bool nested = !brief && c.flip();
  const std::string d0 = dirs->Dir("d0"), d1 = dirs->Dir("d1"), top = nested ? dirs->Dir("d1/inner") : d1;
  for (int i : in0) {
    if (i < good) dirs->Link(d0, kLibraries[i]);
  }
  for (int i : in1) {
    if (i < good) dirs->Link(top, kLibraries[i]);
  }
  dirs->Link(d0, kLibraries[4], ".txt");
  dirs->Link(d1, kLibraries[2], ".so.1");
  for (int i : in0) *text += std::string(" d0/") + kLibraries[i].file;
  for (int i : in1) *text += std::string(nested ? " d1/inner/" : " d1/") + kLibraries[i].file;
  // The variable.
  std::string value;
  const int n = brief ? 2 : c.choose(4);
  for (int i = 0; i < n; ++i) {
    const int d = brief ? c.choose(2) : c.choose(n == 3 && !mc::Thorough() ? 2 : 4);
    value += i ? ":" : "";
    value += d == 0 ? d0 : d == 1 ? d1 + (i % 2 ? "/" : "") : d == 2 ? dirs->dir() + "/nothing" : dirs->dir() + "/text.so";
    *text += std::string(i ? ":" : " in ") + (d == 0 ? "d0" : d == 1 ? "d1" : d == 2 ? "nothing" : "a file");
    if (d > 1) continue;
    std::map<std::string, std::set<int>> here;
    for (int l : d ? in1 : in0) {
      if (l < good) here[kLibraries[l].id].insert(l);
    }
    for (const auto& h : here) (*want)[h.first] = h.second;
  }
  return value;
}

// What can be added to a manager afterwards.
void Managers(mc::Ctx& c) {
  Dirs dirs;
  Want want;
  std::string text;
  const std::string value = Layout(c, &dirs, 4, &want, &text);
  if (value.empty() && c.flip()) {
    unsetenv("MALIPUT_PLUGIN_PATH");
  } else {
    setenv("MALIPUT_PLUGIN_PATH", value.c_str(), 1);
  }
  c.op();
  MaliputPluginManager m;
  CheckManager(c, m, &want, text);
  const int paths = value.empty() ? 0 : 1 + std::count(value.begin(), value.end(), ':');
  const int additions = mc::Thorough() ? 2 : paths == 0 ? 2 : paths < 3 ? 1 : 0;
  for (int i = 0; i < additions; ++i) {
    const int op = c.choose(kLibraries.size() + 2);
    if (op == static_cast<int>(kLibraries.size()) + 1) break;
    c.op();
    if (op == static_cast<int>(kLibraries.size())) {
      text += " + nothing";
      c.expect(mc::Throws([&] { m.AddPlugin(""); }), "a plugin without a path", text);
    } else {
      const Library& l = kLibraries[op];
      text += std::string(" + ") + l.file;
      const bool threw = mc::Throws([&] { m.AddPlugin(dirs.Source(l)); });
      c.expect(threw == !l.id, "library accepted as a plugin", text);
      if (!threw) want[l.id] = {op};
    }
    CheckManager(c, m, &want, text);
  }
  c.trace([&] { return text; });
  c.state(text);
  c.nontrivial(want.size() > 1);
}

// A process that loads road networks: the manager behind it lives as long as the process.
void Networks(mc::Ctx& c) {
  Dirs dirs;
  Want want;
  std::string text;
  std::string value;
  if (c.flip()) {
    value = Layout(c, &dirs, 4, &want, &text, true);
  } else {
    const std::string d = dirs.Dir("all");
    for (int i : {0, 2, 3, 4}) {
      dirs.Link(d, kLibraries[i]);
      want[kLibraries[i].id] = {i};
    }
    value = d;
    text = " all";
  }
  setenv("MALIPUT_PLUGIN_PATH", value.c_str(), 1);
  struct Call {
    std::string id;
    std::map<std::string, std::string> properties;
    bool loader;
  };
  std::vector<Call> calls;
  const int length = text == " all" ? 2 + mc::Thorough() : 1;
  for (int i = 0; i < length; ++i) {
    static const char* kIds[] = {"a", "b", "typed", "bare", "unknown", "A"};
    static const std::vector<std::map<std::string, std::string>> kProperties{{}, {{"x", "1"}}, {{"x", ""}, {"file name", "/y z"}}, {{"none", ""}}, {{"fail", ""}}};
    const int op = c.choose(length > 1 ? 1 + 6 * 6 : 6 * 2);
    if (op == 6 * 6) break;
    calls.push_back({kIds[op % 6], op / 6 ? kProperties[op / 6 - 1] : std::map<std::string, std::string>(), op / 6 == 0});
    text += " " + calls.back().id + (calls.back().loader ? " loader" : std::to_string(op / 6));
    c.op();
  }
  c.trace([&] { return text; });
  c.state(text);
  int fd[2];
  if (pipe(fd)) c.fail("scratch", "pipe");
  const pid_t child = fork();
  if (child == 0) {
    std::string out;
    for (const auto& call : calls) {
      try {
        if (call.loader) {
          const auto loader = MakeRoadNetworkLoader(call.id);
          out += "loader " + loader->GetDefaultParameters().at("tag");
        } else {
          const auto network = CreateRoadNetwork(call.id, call.properties);
          out += network ? "network " + network->road_geometry()->id().string() : "nothing";
        }
      } catch (const std::exception& e) {
        out += std::string(e.what()) == "no such road" ? "failed" : "rejected";
      }
      out += "\n";
    }
    if (write(fd[1], out.data(), out.size()) < 0) {
    }
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char b[512];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) got.append(b, n);
  close(fd[0]);
  int status = 0;
  waitpid(child, &status, 0);
  c.expect(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process that loads networks died", [&] { return text + ": " + std::to_string(status); });
  std::istringstream is(got);
  std::string line;
  std::map<std::string, std::string> tags;
  for (const auto& call : calls) {
    std::getline(is, line);
    const auto w = want.find(call.id);
    const auto what = [&] { return text + ": " + line; };
    bool usable = false;
    for (int i : w == want.end() ? std::set<int>() : w->second) usable = usable || (kLibraries[i].type == 0 && kLibraries[i].entry);
    if (!usable) {
      c.expect(line == "rejected", "a network of no loader", what);
      continue;
    }
    c.nontrivial();
    if (!call.loader && (call.properties.count("none") || call.properties.count("fail"))) {
      c.expect(line == (call.properties.count("none") ? "nothing" : "failed"), "what the loader did", what);
      continue;
    }
    std::string rest = "|";
    for (const auto& p : call.properties) rest += p.first + "=" + p.second + ";";
    std::string tag;
    for (int i : w->second) {
      if (line == (call.loader ? "loader " + std::string(kLibraries[i].file) : "network " + std::string(kLibraries[i].file) + rest)) tag = kLibraries[i].file;
    }
    c.expect(!tag.empty(), "loaded network", what);
    c.expect(tags.emplace(call.id, tag).first->second == tag, "another version of a plugin", what);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"libraries", "every library x arguments", Libraries},
                               {"managers", "contents of two directories x values of the variable x up to 2 additions", Managers},
                               {"networks", "directories x sequences of up to 2 (thorough: 3) requests in a process", Networks}});
}
