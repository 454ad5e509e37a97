#include "single.h"
static void scenario(int tier) {
  h::GenOpts o;
  o.huge = 2;
  o.large = 120;
  h::scenario_one(tier, h::make_bc, o, false);
}
const PropertyDef g_properties[] = {{"C06", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
