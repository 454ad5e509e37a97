#include "single.h"
static void scenario(int tier) { h::scenario_one(tier, h::make_bfs, h::GenOpts{.huge = 3}, false); }
const PropertyDef g_properties[] = {{"C01", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
