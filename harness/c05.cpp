#include "single.h"
static void scenario(int tier) {
  h::GenOpts o;
  o.huge = 2;
  o.low_degrees = true;
  o.large = 120;
  h::scenario_one(tier, h::make_tc, o, true);
}
const PropertyDef g_properties[] = {{"C05", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
