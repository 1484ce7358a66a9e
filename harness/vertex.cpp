// drives shared vertices (Vertex::Transferable_ptr, Vertex::Non_transferable_ptr) through scenarios read from stdin and
// records every operation with the state observable through the public interface
#include <memory>
#include <Vertex.hpp>
#include "trace.hpp"
using namespace hexed;
typedef Vertex::Transferable_ptr T;
typedef Vertex::Non_transferable_ptr N;

int main(int argc, char** argv)
{
  vf::Trace trace(argv[1]);
  const int nt = 6, nn = 4;
  const double scale = 1.; // positions are integers up to the rounding of averages
  std::vector<std::unique_ptr<T>> t(nt + 1);
  std::vector<std::unique_ptr<N>> n(nn + 1);
  std::string op;
  int a, b, c;
  auto rep = [&](const Vertex* v){
    for (int i = 1; i <= nt; ++i) if (t[i] && &**t[i] == v) return i;
    return -2; // a vertex that nobody owns
  };
  auto state = [&](vf::Json j){
    std::vector<long> own(nt), sm(nt), ob(nn);
    std::vector<std::string> verts;
    for (int i = 1; i <= nt; ++i) {
      own[i-1] = t[i] ? rep(&**t[i]) : 0;
      if (!t[i] || own[i-1] != i) continue;
      Vertex& v = **t[i];
      vf::Json w;
      std::vector<int> nb;
      for (const Vertex& x : v.get_neighbors()) nb.push_back(rep(&x));
      // adjacency seen from both ends
      std::vector<int> nb2;
      for (int k = 1; k <= nt; ++k) if (t[k] && rep(&**t[k]) == k && Vertex::are_neighbors(**t[k], v)) nb2.push_back(k);
      w.i("rep", i).i("mass", v.mass()).b("mobile", v.is_mobile()).b("smooth", v.needs_smooth())
       .i("max", vf::fix(v.shared_value(), 1)).i("min", vf::fix(v.shared_value(Vertex::vector_min), 1))
       .i("pos", vf::fix(v.pos(0), scale)).b("iso", std::abs(v.pos(1) + v.pos(0)) < 1e-6 && std::abs(v.pos(2) - 2*v.pos(0)) < 1e-6)
       .list("nbr", nb).list("nbr2", nb2).list("rec", v.record);
      verts.push_back(w.done());
    }
    for (int i = 1; i <= nn; ++i) ob[i-1] = !n[i] ? -1 : !*n[i] ? 0 : rep(&**n[i]);
    j.list("own", own).list("obs", ob).raw("verts", vf::join(verts));
    trace.put(j);
  };
  auto ok = [&](int i){return i >= 1 && i <= nt && t[i];};
  auto nok = [&](int i){return i >= 1 && i <= nn && n[i];};
  while (std::cin >> op) {
    if (op == "reset") {
      for (auto& p : n) p.reset();
      for (auto& p : t) p.reset();
      state(vf::Trace::ev("reset"));
      continue;
    }
    std::cin >> a >> b >> c;
    auto e = vf::Trace::ev(op);
    e.i("a", a).i("b", b).i("c", c);
    if (op == "new") {
      if (a < 1 || a > nt || t[a]) continue;
      t[a].reset(new T(Mat<3>{double(c), -double(c), 2.*c}, b));
      t[a]->shareable_value = a;
      t[a]->needs_smooth = true;
    } else if (op == "copy") {
      if (a < 1 || a > nt || t[a] || !ok(b)) continue;
      t[a].reset(new T(*t[b]));
      t[a]->shareable_value = c;
      t[a]->needs_smooth = true;
    } else if (op == "assign") {
      if (!ok(a) || !ok(b)) continue;
      *t[a] = *t[b];
    } else if (op == "destroy") {
      if (!ok(a)) continue;
      t[a].reset();
    } else if (op == "smooth") {
      if (!ok(a)) continue;
      t[a]->needs_smooth = b;
    } else if (op == "share") {
      if (!ok(a)) continue;
      t[a]->shareable_value = b;
    } else if (op == "record") {
      if (!ok(a)) continue;
      (*t[a])->record.push_back(b);
    } else if (op == "connect") {
      if (!ok(a) || !ok(b)) continue;
      Vertex::connect(**t[a], **t[b]);
    } else if (op == "eat") {
      if (!ok(a) || !ok(b)) continue;
      (*t[a])->eat(**t[b]);
    } else if (op == "nnew") {
      if (a < 1 || a > nn || n[a] || !ok(b)) continue;
      n[a].reset(new N(**t[b]));
    } else if (op == "ncopy") {
      if (a < 1 || a > nn || n[a] || !nok(b)) continue;
      n[a].reset(new N(*n[b]));
    } else if (op == "nassign") {
      if (!nok(a) || !nok(b) || a == b) continue;
      *n[a] = *n[b];
    } else if (op == "nnull") {
      if (!nok(a)) continue;
      n[a]->nullify();
    } else if (op == "ndestroy") {
      if (!nok(a)) continue;
      n[a].reset();
    } else vf::internal("unknown operation " + op);
    state(e);
  }
  return 0;
}
