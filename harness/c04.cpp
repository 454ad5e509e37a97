#include "single.h"
static void scenario(int tier) {
  h::GenOpts o;
  o.huge = 1;
  o.medium = 40; o.large = 150;
  h::scenario_one(tier, h::make_pr, o, false);
}
const PropertyDef g_properties[] = {{"C04", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
