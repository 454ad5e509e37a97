#include "single.h"
static void scenario(int tier) {
  h::GenOpts o;
  o.huge = 2;
  static const h::u32 mw[] = {1, 3, 20, 200, 1, 3, 20, 1000000000};
  o.maxw = mw[sim::wl(8)];
  h::scenario_one(tier, h::make_sssp, o, false, true);
}
const PropertyDef g_properties[] = {{"C03", scenario, NT_RULE, nullptr}};
const int g_nproperties = 1;
