// Entry point of a separately compiled copy of the library and its adapters.
#include "adapter.h"
#include "engine.h"
namespace fault { bool window = false; long countdown = 0; long seen = 0; bool fired = false; long live = 0; }
extern "C" __attribute__((visibility("default"))) const std::vector<Cfg*>* so_configs() { return &configs(); }
