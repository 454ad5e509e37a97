// Timers and benchmark measurements: what is reported is the time that passed, whatever is done to the wall clock meanwhile.
#include "nw.h"
#include "common.hpp"
#include "nwgraph/util/timer.hpp"
#include <cmath>
#include <sstream>
using namespace h;
namespace {
u64 mono() { sim::Quiet q; return sim::mono_ns(); }
// An interval begun between b0 and b1 and ended between e0 and e1 lasted from e0-b1 to e1-b0.
struct Span {
  u64 b0 = 0, b1 = 0, e0 = 0, e1 = 0;
  void check(const char* what, double got, double unit, bool whole) const {
    sim::Quiet q;
    double lo = (double)(e0 > b1 ? e0 - b1 : 0) / unit, hi = (double)(e1 - b0) / unit;
    if (whole) { lo = std::floor(lo); hi = std::floor(hi); }
    else { lo -= 1e-9 * std::max(1.0, lo); hi += 1e-9 * std::max(1.0, hi); }
    if (!(got >= lo && got <= hi)) sim::violation("elapsed", "%s: %.9g measured, between %.9g and %.9g passed", what, got, lo, hi);
  }
};
u64 pause_ns() {
  static const u64 scale[] = {100, 5000, 300000, 20000000, 1500000000, 40000000000ull, 9000000000000ull};
  u64 s = scale[sim::wl(7)];
  return s / 2 + sim::wl(s);
}
void pass_time() {   // work, sleep or nothing
  switch (sim::wl(3)) {
    case 0: break;
    case 1: std::this_thread::sleep_for(std::chrono::nanoseconds(pause_ns())); break;
    default: { volatile u32 x = 0; for (u32 i = 0, n = (u32)sim::wl(60); i < n; i++) x = x + i; sim::Quiet q; sim::clock_advance(pause_ns()); }
  }
}
template <class D>
void use_timer(const char* name, double unit) {
  Span s;
  s.b0 = mono();
  nw::util::timer<D> t("a");
  s.b1 = mono();
  if (t.elapsed() != 0) sim::violation("elapsed", "%s: %g elapsed before it was stopped", name, t.elapsed());
  u32 n = 1 + (u32)sim::wl(4);
  for (u32 i = 0; i < n; i++) {
    pass_time();
    if (sim::wl(3) == 0) { s.b0 = mono(); t.start(); s.b1 = mono(); pass_time(); }
    s.e0 = mono();
    if (sim::wl(2)) {
      double d = t.lap();
      s.e1 = mono();
      s.check(name, d, unit, true);
    } else {
      t.stop();
      s.e1 = mono();
    }
    pass_time();   // not measured
    s.check(name, t.elapsed(), unit, true);
    if constexpr (requires(std::ostream& o) { o << t; }) {
      std::ostringstream o;
      o << t;
      std::istringstream in(o.str());
      std::string nm, un; double v = -1;
      in >> nm >> v >> un;
      const char* want = unit == 1e9 ? "sec" : unit == 1e6 ? "ms" : "us";
      sim::Quiet q;
      if (nm != "(a)" || un != want) sim::violation("elapsed", "%s prints \"%s\"", name, o.str().c_str());
      if (std::fabs(v - t.elapsed()) > 1e-5 * t.elapsed()) sim::violation("elapsed", "%s prints %g for %g", name, v, t.elapsed());
    }
  }
}
void use_life_timer() {
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  bool named = sim::wl(3) != 0;
  Span s;
  s.b0 = mono();
  {
    nw::util::life_timer t(named ? "phase 1" : "");
    s.b1 = mono();
    pass_time();
    s.e0 = mono();
  }
  s.e1 = mono();
  std::cout.rdbuf(old);
  sim::Quiet q;
  std::string out = o.str();
  if (!named) {
    if (!out.empty()) sim::violation("elapsed", "an unnamed life_timer prints \"%s\"", out.c_str());
    return;
  }
  double v = -1;
  char unit[8] = "";
  if (sscanf(out.c_str(), "# [ phase 1 ]: %lf %7s", &v, unit) != 2 || strcmp(unit, "ms")) sim::violation("elapsed", "life_timer prints \"%s\"", out.c_str());
  // printed with six significant digits
  double lo = std::floor((double)(s.e0 > s.b1 ? s.e0 - s.b1 : 0) / 1e6) * (1 - 1e-5), hi = std::floor((s.e1 - s.b0) / 1e6) * (1 + 1e-5);
  if (v < lo || v > hi) sim::violation("elapsed", "life_timer: %g ms printed, between %g and %g passed", v, lo, hi);
}
void use_bench() {
  Span s;
  if (sim::wl(2)) {
    s.b0 = mono();
    auto [t, r] = bench::time_op([&] { s.b1 = mono(); pass_time(); s.e0 = mono(); return 17; });
    s.e1 = mono();
    s.check("time_op", t, 1e9, false);
    if (r != 17) sim::violation("elapsed", "time_op returns %d", r);
  } else {
    s.b0 = mono();
    auto [t] = bench::time_op([&] { s.b1 = mono(); pass_time(); s.e0 = mono(); });
    s.e1 = mono();
    s.check("time_op", t, 1e9, false);
  }
}
void use_times() {
  bench::Times<long> all;
  struct Cfg { std::string file; long id, thr; std::vector<Span> s; };
  std::vector<Cfg> cfg;
  u32 n = 1 + (u32)sim::wl(6);
  for (u32 i = 0; i < n; i++) {
    std::string f = "g" + std::to_string(sim::wl(2)) + ".mtx";
    long id = (long)sim::wl(3), thr = 1 + (long)sim::wl(2);
    Cfg* c = nullptr;
    for (auto& x : cfg) if (x.file == f && x.id == id && x.thr == thr) c = &x;
    if (!c) { cfg.push_back({f, id, thr, {}}); c = &cfg.back(); }
    Span s;
    s.b0 = mono();
    if (sim::wl(2)) {
      auto r = all.record(f, id, thr, [&] { s.b1 = mono(); pass_time(); s.e0 = mono(); return 5 + i; }, (long)i);
      if (std::get<0>(r) != 5 + i) sim::violation("elapsed", "record returns %u for %u", std::get<0>(r), 5 + i);
    } else {
      u32 seen = 0;
      all.record(f, id, thr, [&] { s.b1 = mono(); pass_time(); s.e0 = mono(); return 5 + i; }, [&](auto&& r) { seen = r; s.e1 = mono(); pass_time(); }   /* a verification is not measured */, (long)i);
      if (seen != 5 + i) sim::violation("elapsed", "record verifies %u for %u", seen, 5 + i);
    }
    if (!s.e1) s.e1 = mono();
    c->s.push_back(s);
  }
  std::size_t got = 0;
  for (auto&& [key, samples] : all) {
    got++;
    Cfg* c = nullptr;
    for (auto& x : cfg) if (std::tuple(x.file, x.id, x.thr) == key) c = &x;
    if (!c || c->s.size() != samples.size()) sim::violation("elapsed", "Times holds %zu samples of (%s, %ld, %ld), %zu were recorded", samples.size(), std::get<0>(key).c_str(), std::get<1>(key), std::get<2>(key), c ? c->s.size() : 0);
    for (std::size_t k = 0; k < samples.size(); k++) c->s[k].check("Times", std::get<0>(samples[k]), 1e9, false);
  }
  if (got != cfg.size()) sim::violation("elapsed", "Times holds %zu configurations, %zu were recorded", got, cfg.size());
  std::ostringstream o;
  all.print(o);
  std::istringstream in(o.str());
  std::string line;
  std::getline(in, line);
  for (auto&& [key, samples] : all) {
    std::string f; long id, thr; double mn, av, mx;
    in >> f >> id >> thr >> mn >> av >> mx;
    double a = 0, lo = 1e300, hi = 0;
    for (auto& x : samples) { double t = std::get<0>(x); a += t; lo = std::min(lo, t); hi = std::max(hi, t); }
    a /= samples.size();
    if (!in || std::tuple(f, id, thr) != key || std::fabs(mn - lo) > 1e-6 || std::fabs(mx - hi) > 1e-6 || std::fabs(av - a) > 1e-6)
      sim::violation("elapsed", "Times prints %g %g %g where minimum %g, average %g, maximum %g are due:\n%s", mn, av, mx, lo, a, hi, o.str().c_str());
  }
}
void scenario(int) {
  u32 nc = 1 + (u32)sim::wl(2);
  bool alone = nc == 1;
  u32 kinds[2];
  for (u32 i = 0; i < nc; i++) kinds[i] = (u32)sim::wl(alone ? 6 : 5);
  u32 jumps = (u32)sim::flt(5);
  static const char* names[] = {"timer<seconds>", "timer<milliseconds>", "timer<microseconds>", "time_op", "Times", "life_timer"};
  for (u32 i = 0; i < nc; i++) { sim::note("%s", names[kinds[i]]); sim::probe(names[kinds[i]]); }
  sim::note("%u steps of the wall clock", jumps);
  sim::run([&] {
    std::vector<int> ids;
    ids.push_back(sim::client([&] {
      for (u32 k = 0; k < jumps; k++) {
        static const std::int64_t by[] = {1000000000ll, 3600000000000ll, 1000000ll, 86400000000000ll * 365, 5000ll};
        std::int64_t d = by[sim::flt(5)];
        if (sim::flt(2)) d = -d;
        { sim::Quiet q; sim::clock_jump_wall(d); sim::note("wall clock stepped by %lld ns", (long long)d); }
        volatile u32 x = 0;
        for (u32 i = 0, n = (u32)sim::flt(200); i < n; i++) x = x + i;
        if (sim::flt(3) == 0) std::this_thread::sleep_for(std::chrono::nanoseconds(1 + sim::flt(2000000000)));
      }
    }));
    for (u32 i = 0; i < nc; i++)
      ids.push_back(sim::client([&, i] {
        switch (kinds[i]) {
          case 0: use_timer<std::chrono::seconds>("timer<seconds>", 1e9); break;
          case 1: use_timer<std::chrono::milliseconds>("timer<milliseconds>", 1e6); break;
          case 2: use_timer<std::chrono::microseconds>("timer<microseconds>", 1e3); break;
          case 3: use_bench(); break;
          case 4: use_times(); break;
          default: use_life_timer();
        }
      }));
    for (int i : ids) sim::join_client(i);
  });
  if (jumps) sim::mark_nontrivial();
}
}
const PropertyDef g_properties[] = {{"C23", scenario, "a run counts when the wall clock was stepped at least once while something was measured; distinct by the hash of all choices, accesses and switches", nullptr}};
const int g_nproperties = 1;
