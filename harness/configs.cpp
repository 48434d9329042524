#include "adapter.h"
#include <algorithm>
std::vector<Cfg*>& allConfigs() { static std::vector<Cfg*> v; return v; }
static std::vector<Cfg*> select(bool user) {
    std::vector<Cfg*> v;
    for (Cfg* c : allConfigs()) if (c->user == user) v.push_back(c);
    std::sort(v.begin(), v.end(), [](Cfg* a, Cfg* b) { return a->name < b->name; });
    return v;
}
static bool useUser = false;
void useUserConfigs(bool b) { useUser = b; }
const std::vector<Cfg*>& configs() { if (useUser) return userConfigs(); static const std::vector<Cfg*> v = select(false); return v; }
const std::vector<Cfg*>& userConfigs() { static const std::vector<Cfg*> v = select(true); return v; }
const Cfg* findConfig(const std::string& n) { for (Cfg* c : allConfigs()) if (c->name == n) return c; return 0; }
