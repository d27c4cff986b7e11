#include "api.h"

#include <cstdlib>
#include <dlfcn.h>
#include <iostream>
#include <map>

extern "C" const vp::Girg* vp_girg_api() __attribute__((weak));
extern "C" const vp::Hrg* vp_hrg_api() __attribute__((weak));

namespace vp {

static void* load(const std::string& part, const std::string& config) {
    auto key = "VP_PLUGIN_" + part + "_" + config;
    const char* path = getenv(key.c_str());
    if (!path) { std::cerr << "no plugin " << key << "\n"; _Exit(2); }
    void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::cerr << dlerror() << "\n"; _Exit(2); }
    return h;
}
const Girg& girg(const std::string& config) {
    if (vp_girg_api) return *vp_girg_api();
    static std::map<std::string, const Girg*> loaded;
    auto& p = loaded[config];
    if (!p) p = reinterpret_cast<const Girg* (*)()>(dlsym(load("girg", config), "vp_girg_api"))();
    return *p;
}
const Hrg& hrg(const std::string& config) {
    if (vp_hrg_api) return *vp_hrg_api();
    static std::map<std::string, const Hrg*> loaded;
    auto& p = loaded[config];
    if (!p) p = reinterpret_cast<const Hrg* (*)()>(dlsym(load("hrg", config), "vp_hrg_api"))();
    return *p;
}
std::string cliPath(const std::string& name, const std::string& config) {
    const char* path = getenv(("VP_CLI_" + name + "_" + config).c_str());
    if (!path) { std::cerr << "no program " << name << " " << config << "\n"; _Exit(2); }
    return path;
}

} // namespace vp
