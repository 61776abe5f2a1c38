// A library that plugin managers load; see harness/c26.cc. PLUG_* say what it has.
#include <cstring>

#include "maliput/plugin/road_network_loader.h"

// In the program: builds a network that says who asked for it, with which properties.
std::unique_ptr<maliput::api::RoadNetwork> VerifNetwork(const char* tag, const std::map<std::string, std::string>& properties);

extern "C" const char* VerifTag() { return PLUG_TAG; }
extern "C" int VerifSubtract(int a, int b) { return a - b; }
extern "C" void VerifAppend(std::string* s, const char* x) { *s += x; }

namespace {
class Loader : public maliput::plugin::RoadNetworkLoader {
 public:
  std::unique_ptr<maliput::api::RoadNetwork> operator()(const std::map<std::string, std::string>& properties) const override {
    return VerifNetwork(VerifTag(), properties);
  }
  std::map<std::string, std::string> GetDefaultParameters() const override { return {{"tag", VerifTag()}}; }
};
}  // namespace

#ifdef PLUG_WHOLE
REGISTER_ROAD_NETWORK_LOADER_PLUGIN(PLUG_ID, Loader)
#else
#ifdef PLUG_ID
extern "C" char* GetMaliputPluginId() { return (char*)PLUG_ID; }
#endif
#ifdef PLUG_TYPE
extern "C" maliput::plugin::MaliputPluginType GetMaliputPluginType() { return static_cast<maliput::plugin::MaliputPluginType>(PLUG_TYPE); }
#endif
#ifdef PLUG_ENTRY
extern "C" maliput::plugin::RoadNetworkLoaderPtr MakeRoadNetworkLoader() { return new Loader(); }
#endif
#endif
