// drives hexed::History_monitor: several monitors with the same parameters get different values at the same iterations
#include <memory>
#include <History_monitor.hpp>
#include "trace.hpp"

int main(int, char** argv)
{
  vf::Trace trace(argv[1]);
  std::vector<std::unique_ptr<hexed::History_monitor>> mon;
  std::string op;
  auto state = [&](vf::Json j){
    std::vector<long> lo, hi;
    for (auto& m : mon) {lo.push_back(vf::fix(m->min(), 1)); hi.push_back(vf::fix(m->max(), 1));}
    trace.put(j.list("min", lo).list("max", hi));
  };
  while (std::cin >> op) {
    if (op == "reset") {
      long p, q, cap, rr, exact, n;
      std::cin >> p >> q >> cap >> rr >> exact >> n;
      mon.clear();
      for (int i = 0; i < n; ++i) mon.emplace_back(new hexed::History_monitor(double(p)/q, cap));
      state(vf::Trace::ev("reset").i("p", p).i("q", q).i("cap", cap).i("rr", rr).i("exact", exact));
    } else if (op == "sample") {
      long it;
      std::cin >> it;
      std::vector<long> v(mon.size());
      for (unsigned i = 0; i < v.size(); ++i) {std::cin >> v[i]; mon[i]->add_sample(it, v[i]);}
      state(vf::Trace::ev("sample").i("it", it).list("v", v));
    } else vf::internal("unknown operation " + op);
  }
}
