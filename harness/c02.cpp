#include "single.h"
static void scenario(int tier) { h::scenario_one(tier, h::make_cc, h::GenOpts{.huge = 2}, false); }
const PropertyDef g_properties[] = {{"C02", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
