// drives hexed::Tree through scenarios read from stdin; records operations, statuses and query results
#include <memory>
#include <random>
#include <Tree.hpp>
#include "trace.hpp"
using namespace hexed;

static int nd;
static std::unique_ptr<Tree> tree;
static Mat<> orig;
static double root_size;

std::vector<long> id(Tree* t)
{
  std::vector<long> v;
  if (!t) return v;
  v.push_back(t->refinement_level());
  auto c = t->coordinates();
  for (int i = 0; i < nd; ++i) v.push_back(c(i));
  return v;
}

void all_nodes(Tree* t, std::vector<Tree*>& v)
{
  v.push_back(t);
  for (Tree* c : t->children()) all_nodes(c, v);
}

Tree* find(const std::vector<long>& n)
{
  std::vector<Tree*> v;
  all_nodes(tree.get(), v);
  for (Tree* t : v) if (id(t) == n) return t;
  return nullptr;
}

std::string ids(const std::vector<Tree*>& v)
{
  std::vector<std::string> s;
  for (Tree* t : v) s.push_back(vf::list(id(t)));
  return vf::join(s);
}

int main(int argc, char** argv)
{
  vf::Trace trace(argv[1]);
  std::string op;
  auto state = [&](vf::Json j) {
    std::vector<Tree*> v;
    all_nodes(tree.get(), v);
    std::vector<std::string> s;
    for (Tree* t : v) s.push_back("[" + vf::list(id(t)) + "," + std::to_string(t->get_status()) + "]");
    j.raw("nodes", vf::join(s));
    j.i("count", tree->count());
    trace.put(j);
  };
  while (std::cin >> op) {
    if (op == "reset") { // reset nd size origin...
      std::cin >> nd >> root_size;
      orig.resize(nd);
      for (int i = 0; i < nd; ++i) std::cin >> orig(i);
      tree.reset(new Tree(nd, root_size, orig));
      state(vf::Trace::ev("reset").i("nd", nd));
    } else if (op == "probe") { // probe seed n_nodes n_points max_level
      int seed, n_nodes, n_points, max_level;
      std::cin >> seed >> n_nodes >> n_points >> max_level;
      std::mt19937 rng(seed);
      std::vector<Tree*> v;
      all_nodes(tree.get(), v);
      std::shuffle(v.begin(), v.end(), rng);
      if (int(v.size()) > n_nodes) v.resize(n_nodes);
      std::vector<std::string> rel;
      for (Tree* t : v) {
        vf::Json r;
        std::vector<Tree*> ch = t->children();
        bool links = t->root() == tree.get() && t->is_root() == !t->parent() && t->is_leaf() == ch.empty();
        for (Tree* c : ch) links = links && c->parent() == t;
        // nominal geometry, exact for dyadic sizes
        double sz = t->nominal_size();
        bool geom = sz*std::pow(2., t->refinement_level()) == root_size && t->nominal_position().size() == nd && t->center().size() == nd;
        for (int i = 0; i < nd && geom; ++i) {
          double p = orig(i) + sz*t->coordinates()(i);
          geom = geom && t->nominal_position()(i) == p && t->center()(i) == p + .5*sz && t->origin()(i) == orig(i);
        }
        r.raw("n", vf::list(id(t))).raw("parent", vf::list(id(t->parent()))).raw("ch", ids(ch)).b("links", links).b("geom", geom)
         .i("count", t->count());
        std::vector<std::string> nbs;
        int n_dir = std::pow(3, nd) + .5;
        for (int d = 0; d < n_dir; ++d) {
          Eigen::VectorXi dir(nd);
          std::vector<int> dv;
          for (int i = 0, x = d; i < nd; ++i, x /= 3) {dir(i) = x%3 - 1; dv.push_back(dir(i));}
          auto all = t->find_neighbors(dir);
          nbs.push_back(vf::Json().list("d", dv).raw("one", vf::list(id(t->find_neighbor(dir)))).raw("all", ids(all)).done());
        }
        r.raw("nb", vf::join(nbs));
        rel.push_back(r.done());
      }
      std::vector<std::string> pts;
      for (int k = 0; k < n_points; ++k) {
        vf::Json r;
        Tree* from = k%3 ? tree.get() : v[rng()%v.size()];
        int rl = rng()%(max_level + 1);
        int w = 1 << rl;
        Eigen::VectorXi c(nd), b(nd);
        std::vector<int> cv, bv;
        for (int i = 0; i < nd; ++i) {
          c(i) = int(rng()%(w + 3)) - 1;
          b(i) = rng()%2;
          cv.push_back(c(i)); bv.push_back(b(i));
        }
        r.raw("from", vf::list(id(from))).i("rl", rl).list("c", cv).list("b", bv).raw("leaf", vf::list(id(from->find_leaf(rl, c, b))));
        // physical position of the same point
        Mat<> pos(nd);
        for (int i = 0; i < nd; ++i) pos(i) = orig(i) + c(i)*root_size/w;
        r.raw("pos", vf::list(id(from->find_leaf(pos))));
        pts.push_back(r.done());
      }
      trace.put(vf::Trace::ev("probe").raw("rel", vf::join(rel)).raw("pts", vf::join(pts)));
    } else { // op level coords... status
      std::vector<long> n(nd + 1);
      for (auto& x : n) std::cin >> x;
      int s;
      std::cin >> s;
      Tree* t = find(n);
      if (!t) continue;
      auto e = vf::Trace::ev(op);
      e.raw("n", vf::list(n)).i("s", s);
      if (op == "refine") {if (!t->is_leaf()) continue; t->refine();}
      else if (op == "unrefine") t->unrefine();
      else if (op == "status") t->set_status(s);
      else if (op == "clear") t->clear_status();
      else if (op == "fill") t->flood_fill(s);
      else vf::internal("unknown operation " + op);
      state(e);
    }
  }
  return 0;
}
