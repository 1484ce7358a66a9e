// drives hexed::Mutual_ptr through scenarios read from stdin and records the complete observable state
#include <memory>
#include <Mutual_ptr.hpp>
#include "trace.hpp"
using namespace hexed;
struct A {int name;};
struct B {int name;};
typedef Mutual_ptr<A, B> P;
typedef Mutual_ptr<B, A> Q;

template <typename X, typename Y>
void obs(std::vector<std::string>& s, std::vector<std::unique_ptr<X>>& mine, std::vector<std::unique_ptr<Y>>& theirs, int off, int other)
{
  for (unsigned i = 1; i < mine.size(); ++i) {
    std::vector<long> o {long(i) + off, 0, 0, 0, 0, 0};
    if (mine[i]) {
      X& p = *mine[i];
      o[1] = p.mine().name;
      o[2] = p.partner() ? -1 : 0;
      for (unsigned j = 1; j < theirs.size(); ++j) if (theirs[j] && theirs[j].get() == p.partner()) o[2] = j + other;
      if (o[2] != -1) { // a dangling partner must not be dereferenced
        o[3] = p.get() ? p.get()->name : 0;
        o[4] = bool(p);
        try {
          int n = p.value().name;
          if (n != o[3] || (*p).name != o[3] || p->name != o[3]) o[3] = -1;
        } catch (const std::exception&) {o[5] = 1;}
      }
    }
    s.push_back(vf::list(o));
  }
}

int main(int argc, char** argv)
{
  vf::Trace trace(argv[1]);
  std::vector<A> as;
  std::vector<B> bs;
  for (int i = 0; i < 20; ++i) {as.push_back({i}); bs.push_back({i});}
  std::vector<std::unique_ptr<P>> p(6);
  std::vector<std::unique_ptr<Q>> q(5);
  auto in_a = [](int x){return x >= 1 && x <= 5;};
  auto in_b = [](int x){return x >= 11 && x <= 14;};
  auto live = [&](int x){return in_a(x) ? bool(p[x]) : in_b(x) ? bool(q[x - 10]) : false;};
  auto state = [&](vf::Json j){
    std::vector<std::string> s;
    obs(s, p, q, 0, 10);
    obs(s, q, p, 10, 0);
    trace.put(j.raw("s", vf::join(s)));
  };
  std::string op;
  int a, b;
  while (std::cin >> op) {
    if (op == "reset") {
      for (auto& x : p) x.reset();
      for (auto& x : q) x.reset();
      state(vf::Trace::ev("reset"));
      continue;
    }
    std::cin >> a >> b;
    if (!in_a(a) && !in_b(a)) continue;
    if (op == "construct") {
      if (live(a)) continue;
      if (in_a(a)) p[a].reset(new P(&as[b])); else q[a - 10].reset(new Q(&bs[b]));
    } else if (op == "destroy") {
      if (!live(a)) continue;
      if (in_a(a)) p[a].reset(); else q[a - 10].reset();
    } else if (op == "pair") {
      if (!live(a) || !live(b) || in_a(a) == in_a(b)) continue;
      if (in_a(a)) p[a]->pair(*q[b - 10]); else q[a - 10]->pair(*p[b]);
    } else if (op == "unpair") {
      if (!live(a)) continue;
      if (in_a(a)) p[a]->unpair(); else q[a - 10]->unpair();
    } else if (op == "mconstruct") {
      if (live(a) || !live(b) || in_a(a) != in_a(b)) continue;
      if (in_a(a)) p[a].reset(new P(std::move(*p[b]))); else q[a - 10].reset(new Q(std::move(*q[b - 10])));
    } else if (op == "massign") {
      if (!live(a) || !live(b) || in_a(a) != in_a(b) || a == b) continue;
      if (in_a(a)) *p[a] = std::move(*p[b]); else *q[a - 10] = std::move(*q[b - 10]);
    } else vf::internal("unknown operation " + op);
    state(vf::Trace::ev(op).i("a", a).i("b", b));
  }
  return 0;
}
