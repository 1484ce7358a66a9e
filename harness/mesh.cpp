// drives hexed::Accessible_mesh through scenarios read from stdin; records the decisions of the refinement criteria and
// the complete observable structure of the mesh after every operation
#include <cstring>
#include <H5Cpp.h>
#include <memory>
#include <map>
#include <set>
#include <filesystem>
#include <fstream>
#include <Accessible_mesh.hpp>
#include <Surface_geom.hpp>
#include <Simplex_geom.hpp>
#include <Layer_sequence.hpp>
#include <Gauss_legendre.hpp>
#include <kernels.hpp>
#include <Hanging_vertex_matcher.hpp>
#include "trace.hpp"
using namespace hexed;

static std::istringstream in; // the rest of the current operation
static int nd, rs;
static double root;
static Mat<> orig;
static std::unique_ptr<Accessible_mesh> mesh, twin; // twin: read from a file written by mesh, then treated in the same way
static bool with_gap = true;
static const double scale = 1 << 22;

// a union of half spaces' boundaries etc. is built from these; exact nearest points
class Plane : public Surface_geom
{
  int d; double x;
  public:
  Plane(int dim, double coord) : d{dim}, x{coord} {}
  Nearest_point<dyn> nearest_point(Mat<> point, double max_distance, double) override
  {
    Nearest_point<dyn> n(point);
    Mat<> p = point;
    p(d) = x;
    if ((p - point).norm() <= max_distance) n.merge(p);
    return n;
  }
  std::vector<double> intersections(Mat<> p0, Mat<> p1) override
  {
    if (p0(d) == p1(d)) return {};
    return {(x - p0(d))/(p1(d) - p0(d))};
  }
};

// a few points, each of which only touches the cell that contains it
class Points : public Surface_geom
{
  public:
  std::vector<Mat<>> points;
  Nearest_point<dyn> nearest_point(Mat<> p, double max_distance, double) override
  {
    Nearest_point<dyn> n(p);
    for (auto& x : points) if ((x - p).norm() <= max_distance) n.merge(x);
    return n;
  }
  std::vector<double> intersections(Mat<>, Mat<>) override {return {};}
};

typedef unsigned long ul;
static ul mix(ul h, ul x) {h ^= x + 0x9e3779b97f4a7c15ul + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdul; return h ^ (h >> 33);}

// what the surface is, for an independent calculation of distances
struct Shape
{
  std::string kind;
  int d; double x; Mat<> c; std::vector<Mat<dyn, dyn>> sims;
  double dist(Mat<> p) const
  {
    if (kind == "plane") return std::abs(p(d) - x);
    if (kind == "sphere") return std::abs((p - c).norm() - x);
    double best = huge;
    for (auto& s : sims) best = std::min(best, simplex(p, s));
    return best;
  }
  static double simplex(Mat<> p, const Mat<dyn, dyn>& s) // distance to the convex hull of the columns
  {
    int n = s.cols();
    if (n == 1) return (p - s.col(0)).norm();
    Mat<dyn, dyn> a(s.rows(), n - 1);
    for (int i = 1; i < n; ++i) a.col(i - 1) = s.col(i) - s.col(0);
    Mat<> t = a.colPivHouseholderQr().solve(p - s.col(0));
    if (t.minCoeff() >= 0 && t.sum() <= 1) return (s.col(0) + a*t - p).norm();
    double best = huge;
    for (int k = 0; k < n; ++k) {
      Mat<dyn, dyn> f(s.rows(), n - 1);
      for (int i = 0, j = 0; i < n; ++i) if (i != k) f.col(j++) = s.col(i);
      best = std::min(best, simplex(p, f));
    }
    return best;
  }
};
static std::vector<Shape> shapes;
static Tree *tree_root = nullptr, *twin_root = nullptr; // outlives the elements

static Surface_geom* read_geom()
{
  std::string kind;
  in >> kind;
  if (kind == "plane") {
    int d; double x;
    in >> d >> x;
    shapes.push_back({kind, d, x});
    return new Plane(d, x);
  } else if (kind == "sphere") {
    Mat<> c(nd); double r;
    for (int i = 0; i < nd; ++i) in >> c(i);
    in >> r;
    shapes.push_back({kind, 0, r, c});
    return new Hypersphere(c, r);
  } else if (kind == "compound") {
    int n;
    in >> n;
    std::vector<Surface_geom*> v;
    for (int i = 0; i < n; ++i) v.push_back(read_geom());
    return new Compound_geom(v);
  } else if (kind == "points") {
    int n;
    in >> n;
    auto g = new Points;
    Shape sh {kind};
    for (int i = 0; i < n; ++i) {
      Mat<> p(nd);
      for (int j = 0; j < nd; ++j) in >> p(j);
      g->points.push_back(p);
      sh.sims.push_back(p);
    }
    shapes.push_back(sh);
    return g;
  } else if (kind == "poly") { // 2D polygon
    int n;
    in >> n;
    Mat<dyn, dyn> p(2, n);
    for (int i = 0; i < n; ++i) in >> p(0, i) >> p(1, i);
    Shape sh {kind};
    for (int i = 0; i + 1 < n; ++i) {
      Mat<dyn, dyn> m(2, 2);
      for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) m(j, k) = p(j, i + k);
      sh.sims.push_back(m);
    }
    shapes.push_back(sh);
    return new Simplex_geom<2>(segments(p));
  } else if (kind == "tri") { // 3D triangles
    int n;
    in >> n;
    std::vector<Mat<3, 3>> v;
    for (int i = 0; i < n; ++i) {
      Mat<3, 3> m;
      for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) in >> m(j, k);
      v.push_back(m);
    }
    Shape sh {kind};
    for (auto& m : v) sh.sims.push_back(m);
    shapes.push_back(sh);
    return new Simplex_geom<3>(v);
  }
  vf::internal("geometry " + kind);
}

struct Cell {int l; std::vector<int> c; bool operator<(const Cell& o) const {return l != o.l ? l < o.l : c < o.c;}};
static Cell cell(Element& e) {return {e.refinement_level(), e.nominal_position()};}
static Cell read_cell()
{
  Cell c;
  in >> c.l;
  c.c.resize(nd);
  for (int& x : c.c) in >> x;
  return c;
}
static ul hash_elem(ul seed, Element& e)
{
  ul h = mix(seed, e.refinement_level());
  for (int x : e.nominal_position()) h = mix(h, x + 1000);
  return mix(h, bool(e.tree));
}

// how an element is identified across operations: refinement level, deformed?, serial number
static std::map<Element*, std::array<int, 3>> handles()
{
  std::map<Element*, std::array<int, 3>> r;
  for (auto h : mesh->elem_handles()) {
    try {
      r[&mesh->element(h.ref_level, h.is_deformed, h.serial_n)] = {h.ref_level, h.is_deformed, h.serial_n};
    } catch (...) {}
  }
  return r;
}

static std::vector<std::vector<double>> face_nodes(Element& e, const Basis& b, int i_face)
{
  std::vector<std::vector<double>> r;
  int n = math::pow(rs, nd - 1);
  for (int i = 0; i < n; ++i) r.push_back(e.face_position(b, i_face, i));
  return r;
}

static long clip(double x) {return vf::fix(x, 1e6);}

// whether the surface touches the sphere through the corners of a cell (0: no, 1: yes, 2: too close to tell)
static int hit(Tree* t)
{
  if (shapes.empty()) return 0;
  double sz = root*std::pow(.5, t->refinement_level());
  Mat<> c(nd);
  for (int d = 0; d < nd; ++d) c(d) = orig(d) + sz*(t->coordinates()(d) + .5);
  double dist = huge;
  for (auto& s : shapes) dist = std::min(dist, s.dist(c));
  double diff = dist - std::sqrt(double(nd))/2*sz;
  // simplices are extended slightly by the code to close gaps
  return std::abs(diff) < 1e-4*sz ? 2 : diff < 0;
}

static std::string snapshot()
{
  vf::Json m;
  auto& elems = mesh->elements();
  int ne = elems.size();
  auto hs = handles();
  std::map<Element*, int> id;
  for (int i = 0; i < ne; ++i) id[&elems[i]] = i;
  auto idx = [&](Element& e) {return id.count(&e) ? id[&e] : -1;};
  m.i("nd", nd);
  m.i("n", mesh->n_elements());
  m.i("nh", mesh->elem_handles().size());
  m.i("ncar", mesh->cartesian().elements().size());
  auto verts = mesh->vertices();
  std::map<Vertex*, int> vid;
  int n_dup = 0;
  for (int i = 0; i < verts.size(); ++i) if (!vid.emplace(&verts[i], i).second) ++n_dup;
  m.i("nv", verts.size()).i("dupv", n_dup);
  auto scaled = [&](double x, int i) {return vf::fix((x - (i < nd ? orig(i) : 0))/root, scale);};
  {
    std::vector<std::string> s;
    for (int i = 0; i < verts.size(); ++i) {
      std::vector<long> p;
      for (int j = 0; j < 3; ++j) p.push_back(scaled(verts[i].pos(j), j));
      s.push_back(vf::list(p));
    }
    m.raw("P", vf::join(s));
  }
  if (getenv("NEIGHBORS")) { // with which vertices each vertex is connected by an edge
    std::vector<std::string> s;
    for (int i = 0; i < verts.size(); ++i) {
      std::vector<long> p;
      for (auto& v : verts[i].get_neighbors()) p.push_back(vid.count(const_cast<Vertex*>(&v)) ? vid[const_cast<Vertex*>(&v)] : -1);
      std::sort(p.begin(), p.end());
      s.push_back(vf::list(p));
    }
    m.raw("nb", vf::join(s));
  }
  {
    std::vector<std::string> s;
    for (int i = 0; i < ne; ++i) {
      auto& e = elems[i];
      if (e.tree) tree_root = e.tree->root();
      auto h = hs.count(&e) ? hs[&e] : std::array<int, 3>{-1, -1, -1};
      std::vector<long> v, c;
      for (int k = 0; k < math::pow(2, nd); ++k) {
        Vertex* p = &e.vertex(k);
        v.push_back(vid.count(p) ? vid[p] : -1);
      }
      for (int x : e.nominal_position()) c.push_back(x);
      std::vector<long> conn;
      for (int k = 0; k < 2*nd; ++k) conn.push_back(e.is_connected(k));
      // the tree node of the element has the same level and coordinates and points back
      bool link = true;
      if (e.tree) {
        link = e.tree->elem && &*e.tree->elem == &e && e.tree->refinement_level() == e.refinement_level() && e.tree->is_leaf()
          && (!e.get_is_deformed() || (e.tree->def_elem && static_cast<Element*>(e.tree->def_elem) == &e));
        for (int d = 0; d < nd; ++d) link = link && e.tree->coordinates()(d) == e.nominal_position()[d];
      }
      vf::Json j;
      std::vector<long> na;
      if (double* adj = e.node_adjustments()) {
        int n = 2*nd*math::pow(rs, nd - 1);
        for (int k = 0; k < n; ++k) if (adj[k] != 0.) {
          ul hh = 17;
          for (int q = 0; q < n; ++q) {ul u; memcpy(&u, adj + q, 8); hh = mix(hh, u);}
          na = {long(hh%1000000007ul), long((hh >> 32)%1000000007ul)};
          break;
        }
      }
      j.list("na", na);
      j.list("h", h).i("rl", e.refinement_level()).b("def", e.get_is_deformed()).b("tree", bool(e.tree)).b("link", link)
       .b("lock", e.unrefinement_locked).list("c", c).list("v", v).list("conn", conn)
       .i("sz", vf::fix(e.nominal_size()/root, scale));
      s.push_back(j.done());
    }
    m.raw("E", vf::join(s));
    s.clear();
    if (tree_root) {
      std::function<void(Tree*)> walk = [&](Tree* t) {
        auto ch = t->children();
        for (Tree* c : ch) walk(c);
        vf::Json j;
        std::vector<long> c;
        for (int d = 0; d < nd; ++d) c.push_back(t->coordinates()(d));
        if (ch.empty()) s.push_back(vf::Json().i("l", t->refinement_level()).list("c", c).i("e", t->elem ? idx(*t->elem) : -1)
                                    .i("s", t->get_status()).i("hit", hit(t)).done());
        else if (t->elem) s.push_back(vf::Json().i("l", t->refinement_level()).list("c", c).i("e", -2).i("s", 0).done());
      };
      walk(tree_root);
    }
    m.raw("T", vf::join(s));
  }
  Gauss_legendre basis(rs);
  auto elem_gap = [&](Element& a, Element& b, Connection_direction dir) {
    // distance between the positions of matching quadrature points of two connected faces, relative to the element size
    auto pa = face_nodes(a, basis, dir.i_face(0)), pb = face_nodes(b, basis, dir.i_face(1));
    int nfq = pa.size();
    std::vector<double> buf((nd + 2)*nfq, 0.);
    for (int d = 0; d < nd; ++d) for (int q = 0; q < nfq; ++q) buf[d*nfq + q] = pb[q][d];
    auto fp = face_permutation(nd, rs, dir, buf.data());
    fp->match_faces();
    double g = 0;
    for (int d = 0; d < nd; ++d) for (int q = 0; q < nfq; ++q) g = std::max(g, std::abs(buf[d*nfq + q] - pa[q][d]));
    fp->restore();
    for (int d = 0; d < nd; ++d) for (int q = 0; q < nfq; ++q) g = std::max(g, std::abs(buf[d*nfq + q] - pb[q][d]));
    return clip(g/a.nominal_size());
  };
  {
    std::vector<std::string> s, h;
    std::set<Element_connection*> in_ref;
    int nfq = math::pow(rs, nd - 1);
    if (with_gap) { // positions of the nodes of the coarse faces, interpolated to the mortar faces by the code itself
      auto fill = [&](auto& refs) {
        for (int i = 0; i < refs.size(); ++i) {
          auto& r = refs[i];
          auto pos = face_nodes(r.coarse_element(), basis, r.direction().i_face(r.order_reversed()));
          for (int d = 0; d < nd + 2; ++d) for (int q = 0; q < nfq; ++q) r.coarse_state()[d*nfq + q] = d < nd ? pos[q][d] : 0;
        }
      };
      fill(mesh->cartesian().refined_connections());
      fill(mesh->deformed().refined_connections());
      compute_prolong({nd, rs, basis, mesh->cartesian().kernel_connections(), mesh->deformed().kernel_connections(),
                       mesh->cartesian().kernel_elements(), mesh->deformed().kernel_elements(), mesh->kernel_elements(), mesh->refined_faces()});
    }
    auto do_ref = [&](auto& refs, int is_def) {
      for (int i = 0; i < refs.size(); ++i) {
        auto& r = refs[i];
        bool rev = r.order_reversed();
        Con_dir<Deformed_element> d = r.direction();
        Element& co = r.coarse_element();
        std::vector<long> fine;
        for (int k = 0; k < r.n_fine_elements(); ++k) {
          auto& c = r.connection(k);
          in_ref.insert(&c);
          fine.push_back(idx(c.element(!rev)));
          if (&c.element(rev) != &co) fine.push_back(-5);
        }
        // mortar faces: geometric match between parts of the coarse face and the fine faces they are coupled to
        long gap = 0;
        int cf = d.i_face(rev), ff = d.i_face(!rev);
        auto st = r.refined_face.stretch;
        int n_part [2] {1, 1};
        for (int k = 0; k < nd - 1; ++k) n_part[k] = st[k] ? 1 : 2;
        auto face_corner = [&](Element& e, int f, int k) { // k: row-major index of the face's vertices
          int stride = math::pow(2, nd - 1 - f/2);
          int iv = k/stride*stride*2 + k%stride + (f%2)*stride;
          return e.vertex(iv).pos;
        };
        for (int k = 0; k < n_part[0]*n_part[1]; ++k) {
          double t [2] {.5, .5};
          if (nd == 2) t[0] = st[0] ? .5 : .25 + .5*k;
          else {
            int a = k/n_part[1], b = k%n_part[1];
            t[0] = st[0] ? .5 : .25 + .5*a;
            t[1] = st[1] ? .5 : .25 + .5*b;
          }
          Mat<3> p = Mat<3>::Zero(), q = Mat<3>::Zero();
          int nfv = math::pow(2, nd - 1);
          for (int v = 0; v < nfv; ++v) {
            double w = 1;
            if (nd == 2) w = v ? t[0] : 1 - t[0];
            if (nd == 3) w = (v/2 ? t[0] : 1 - t[0])*(v%2 ? t[1] : 1 - t[1]);
            p += w*face_corner(co, cf, v);
          }
          int which = -1;
          for (int j = 0; j < r.n_fine_elements(); ++j) if (r.connection(j).state(rev, false) == r.refined_face.fine[k]) which = j;
          if (which < 0) {gap = 2000000003; break;}
          for (int v = 0; v < nfv; ++v) q += face_corner(r.connection(which).element(!rev), ff, v)/nfv;
          gap = std::max(gap, clip((p - q).norm()/co.nominal_size()));
        }
        if (with_gap) for (int k = 0; k < r.n_fine_elements(); ++k) {
          auto& c = r.connection(k);
          auto pf = face_nodes(c.element(!rev), basis, ff);
          std::vector<double> mortar((nd + 2)*nfq), fine((nd + 2)*nfq, 0.);
          for (int j = 0; j < (nd + 2)*nfq; ++j) mortar[j] = c.state(rev, false)[j];
          for (int d = 0; d < nd; ++d) for (int q = 0; q < nfq; ++q) fine[d*nfq + q] = pf[q][d];
          face_permutation(nd, rs, c.get_direction(), rev ? mortar.data() : fine.data())->match_faces(); // side 1 is made to match side 0
          for (int j = 0; j < nd*nfq; ++j) gap = std::max(gap, clip(std::abs(mortar[j] - fine[j])/co.nominal_size()));
        }
        std::vector<long> sts {r.stretch()[0], r.stretch()[1]};
        h.push_back(vf::Json().i("co", idx(co)).i("cf", cf).i("ff", ff).list("fine", fine).list("st", sts).i("gap", gap)
                    .b("rev", rev).i("k", is_def).done());
      }
    };
    do_ref(mesh->cartesian().refined_connections(), 0);
    do_ref(mesh->deformed().refined_connections(), 1);
    std::map<Element_connection*, int> which;
    auto& cons = mesh->element_connections();
    int n_car = mesh->cartesian().element_connections().size();
    int n_fine = 0;
    for (int i = 0; i < cons.size(); ++i) {
      auto& c = cons[i];
      if (in_ref.count(&c)) {++n_fine; continue;}
      auto d = c.get_direction();
      s.push_back(vf::Json().i("a", idx(c.element(0))).i("af", d.i_face(0)).i("b", idx(c.element(1))).i("bf", d.i_face(1))
                  .i("k", i >= n_car).i("gap", with_gap ? elem_gap(c.element(0), c.element(1), d) : 0).done());
    }
    m.raw("C", vf::join(s)).raw("H", vf::join(h));
    m.i("nfine", n_fine).i("nref", mesh->refined_faces().size()).i("nmatch", mesh->hanging_vertex_matchers().size());
  }
  {
    std::vector<std::string> s;
    auto& cons = mesh->boundary_connections();
    for (int i = 0; i < cons.size(); ++i) {
      s.push_back(vf::Json().i("e", idx(cons[i].element())).i("f", 2*cons[i].i_dim() + cons[i].inside_face_sign())
                  .i("bc", cons[i].bound_cond_serial_n()).done());
    }
    m.raw("B", vf::join(s));
    s.clear();
    auto&& xs = mesh->extruded_connections();
    for (int i = 0; i < xs.size(); ++i) {
      auto& c = xs[i];
      auto d = c.get_direction();
      s.push_back(vf::Json().i("x", idx(c.element(0))).i("xf", d.i_face(0)).i("p", idx(c.element(1))).i("pf", d.i_face(1)).done());
    }
    m.raw("X", vf::join(s));
  }
  m.i("nbc", mesh->boundary_conditions().size());
  m.i("sbc", mesh->surface_bc_sn());
  auto v = mesh->valid();
  m.i("missing", v.n_missing).i("redundant", v.n_redundant).b("valid", bool(v));
  return m.done();
}

static std::vector<Flow_bc*> extremal()
{
  std::vector<Flow_bc*> v;
  for (int i = 0; i < 2*nd; ++i) v.push_back(new Copy);
  return v;
}

struct Crit
{
  ul seed = 0;
  int p_ref = 0, p_unref = 0, max_l = 0, x_boost = 0;
  bool by_list = false;
  std::set<Cell> ref, unref;
  bool r(Element& e) const
  {
    if (by_list) return e.tree && ref.count(cell(e));
    if (e.refinement_level() >= max_l) return false;
    return int(hash_elem(seed, e)%100) < p_ref + (e.tree ? 0 : x_boost);
  }
  bool u(Element& e) const
  {
    if (by_list) return e.tree && unref.count(cell(e));
    // siblings tend to agree
    ul h = mix(seed + 77, e.refinement_level());
    for (int x : e.nominal_position()) h = mix(h, (x + 1000)/2);
    return int(h%100) < p_unref && int(hash_elem(seed + 5, e)%100) < 95;
  }
};

// an element without its identity, to find the corresponding one in another mesh or a file
struct Desc {int rl; bool def, tree; std::vector<int> c; std::vector<Mat<3>> pos;};
static std::vector<Desc> descs(Accessible_mesh& m)
{
  std::vector<Desc> r;
  auto& elems = m.elements();
  for (int i = 0; i < elems.size(); ++i) {
    auto& e = elems[i];
    Desc d {e.refinement_level(), e.get_is_deformed(), bool(e.tree), e.nominal_position()};
    for (int k = 0; k < math::pow(2, nd); ++k) d.pos.push_back(e.vertex(k).pos);
    r.push_back(d);
  }
  return r;
}
// for each of `a` the corresponding one of `b` (-1: none); the specification decides whether this really is a correspondence
static std::vector<long> witness(const std::vector<Desc>& a, const std::vector<Desc>& b)
{
  std::vector<long> r;
  std::multimap<std::pair<int, std::vector<int>>, int> index;
  for (unsigned j = 0; j < b.size(); ++j) index.insert({{b[j].rl, b[j].c}, j});
  std::vector<bool> taken(b.size());
  for (auto& x : a) {
    int best = -1;
    double dist = 1e-6*root;
    auto range = index.equal_range({x.rl, x.c});
    for (auto it = range.first; it != range.second; ++it) {
      auto& y = b[it->second];
      if (taken[it->second] || x.def != y.def || x.tree != y.tree) continue;
      double d = 0;
      for (unsigned k = 0; k < x.pos.size(); ++k) d = std::max(d, (x.pos[k] - y.pos[k]).norm());
      if (d < dist) {dist = d; best = it->second;}
    }
    if (best >= 0) taken[best] = true;
    r.push_back(best);
  }
  return r;
}

// the contents of a mesh file, read independently of the code that writes it
static std::string dump_file(std::string path, const std::vector<Desc>& elems)
{
  H5::H5File f(path, H5F_ACC_RDONLY);
  auto attr = [&](const char* n) {int v; f.openAttribute(n).read(H5::PredType::NATIVE_INT, &v); return v;};
  double sz;
  f.openAttribute("root_size").read(H5::PredType::NATIVE_DOUBLE, &sz);
  auto rows = [&](const char* n, int& cols) {
    auto d = f.openDataSet(n);
    hsize_t dims [2] {};
    d.getSpace().getSimpleExtentDims(dims);
    cols = dims[1];
    std::vector<int> v(dims[0]*dims[1]);
    if (!v.empty()) d.read(v.data(), H5::PredType::NATIVE_INT);
    return v;
  };
  auto reals = [&](const char* n, int& cols) {
    auto d = f.openDataSet(n);
    hsize_t dims [2] {};
    d.getSpace().getSimpleExtentDims(dims);
    cols = dims[1];
    std::vector<double> v(dims[0]*dims[1]);
    if (!v.empty()) d.read(v.data(), H5::PredType::NATIVE_DOUBLE);
    return v;
  };
  auto table = [&](const std::vector<int>& v, int cols) {
    std::vector<std::string> s;
    for (unsigned i = 0; i + cols <= v.size(); i += cols) s.push_back(vf::list(std::vector<int>(v.begin() + i, v.begin() + i + cols)));
    return vf::join(s);
  };
  vf::Json j;
  j.list("attr", std::vector<int>{attr("n_dim"), attr("row_size"), attr("n_stage"), attr("n_var"), attr("n_forcing")}).b("root", sz == root);
  int c, cv, cp;
  auto pos = reals("vertices/position", cp);
  j.i("cp", cp);
  {
    std::vector<std::string> s;
    for (unsigned i = 0; i + cp <= pos.size(); i += cp) {
      std::vector<long> p;
      for (int k = 0; k < cp; ++k) p.push_back(vf::fix((pos[i + k] - (k < nd ? orig(k) : 0))/root, scale));
      s.push_back(vf::list(p));
    }
    j.raw("P", vf::join(s));
  }
  auto vert = rows("elements/vertices", cv);
  j.raw("v", table(vert, cv));
  auto np = rows("elements/nominal_position", c);
  j.raw("c", table(np, c));
  int c1;
  auto d = f.openDataSet("elements/is_deformed");
  hsize_t dims [2] {};
  d.getSpace().getSimpleExtentDims(dims);
  std::unique_ptr<hbool_t[]> def(new hbool_t[dims[0] + 1]);
  if (dims[0]) d.read(def.get(), H5::PredType::NATIVE_HBOOL);
  std::vector<int> idef(def.get(), def.get() + dims[0]);
  auto rl = rows("elements/refinement_level", c1);
  j.list("def", idef).list("rl", rl);
  auto tab = [&](const char* k, const char* n) {auto v = rows(n, c1); j.raw(k, table(v, c1));};
  tab("C", "connections/conformal");
  tab("H", "connections/refined");
  tab("B", "connections/boundary");
  std::vector<bool> has_tree(rl.size());
  bool tree = f.nameExists("tree");
  j.b("tree", tree);
  if (tree) {
    tab("T", "tree/children");
    auto v = rows("tree/children", c1);
    for (unsigned i = 0; i < v.size(); i += c1) if (v[i] >= 0 && v[i] < int(rl.size())) has_tree[v[i]] = true;
    auto o = reals("tree/origin", c1);
    std::vector<long> p;
    for (int k = 0; k < c1; ++k) p.push_back(vf::fix((o[k] - orig(k))/root, scale));
    j.list("orig", p);
  } else j.raw("T", "[]").raw("orig", "[]");
  auto wi = rows("elements/face_warping/element_indices", c1);
  j.list("wi", wi);
  std::vector<Desc> ds;
  for (unsigned i = 0; i < rl.size(); ++i) {
    Desc e {rl[i], bool(idef[i]), has_tree[i], std::vector<int>(np.begin() + i*c, np.begin() + (i + 1)*c)};
    for (int k = 0; k < cv; ++k) {
      Mat<3> p = Mat<3>::Zero();
      for (int q = 0; q < 3; ++q) {
        unsigned at = vert[i*cv + k]*cp + q;
        p(q) = at < pos.size() ? pos[at] : huge;
      }
      e.pos.push_back(p);
    }
    ds.push_back(e);
  }
  j.list("perm", witness(ds, elems));
  return j.done();
}

// the files of an exported mesh, read independently of the code that writes them. Points are identified with keys: vertices at
// exactly the same position have the same key (unless points and vertices correspond in the order they are listed in)
static std::vector<std::string> poly_entries(std::string path, std::string& head, long& n)
{
  std::ifstream f(path);
  if (!f.good()) vf::internal("cannot read " + path);
  std::string line;
  n = -1;
  std::vector<std::string> r;
  bool in_list = false;
  auto trim = [](std::string x) {
    auto a = x.find_first_not_of(" \t\r"), b = x.find_last_not_of(" \t\r");
    return a == std::string::npos ? std::string() : x.substr(a, b - a + 1);
  };
  while (std::getline(f, line)) {
    line = trim(line);
    if (line.empty() || line.rfind("//", 0) == 0) continue;
    if (in_list) {
      if (line == ")") break;
      r.push_back(line);
    } else if (line == "(") in_list = true;
    else if (line.find_first_not_of("0123456789") == std::string::npos) n = std::stol(line);
    else head += line + " ";
  }
  return r;
}
static std::string head_entry(const std::string& head, std::string key)
{
  auto a = head.find(key + " ");
  if (a == std::string::npos) return "";
  a += key.size() + 1;
  return head.substr(a, head.find(';', a) - a);
}
static std::string dump_poly(std::string dir)
{
  vf::Json j;
  auto verts = mesh->vertices();
  std::map<std::array<double, 3>, int> keys;
  std::vector<long> vk, pk;
  std::map<Vertex*, int> key_of;
  for (int i = 0; i < verts.size(); ++i) {
    std::array<double, 3> a {verts[i].pos(0), verts[i].pos(1), verts[i].pos(2)};
    int k = keys.emplace(a, keys.size()).first->second;
    vk.push_back(k);
    key_of[&verts[i]] = k;
  }
  std::vector<std::string> heads;
  std::vector<long> counts;
  auto get = [&](std::string name) {
    std::string head;
    long n;
    auto r = poly_entries(dir + name, head, n);
    counts.push_back(n);
    heads.push_back(vf::Json().str("cls", head_entry(head, "class")).str("object", head_entry(head, "object"))
                    .str("version", head_entry(head, "version")).str("format", head_entry(head, "format")).str("note", head_entry(head, "note")).done());
    return r;
  };
  bool ordered = true; // the points are in the same order as the vertices, so that each vertex can have its own key
  for (auto& s : get("points")) {
    std::array<double, 3> a;
    char c = 0;
    if (sscanf(s.c_str(), "(%lf %lf %lf%c", &a[0], &a[1], &a[2], &c) != 4 || c != ')') pk.push_back(-2);
    else pk.push_back(keys.count(a) ? keys[a] : -1);
    ordered = ordered && pk.size() <= vk.size() && pk.back() == vk[pk.size() - 1];
  }
  if (ordered && pk.size() == vk.size()) for (unsigned i = 0; i < vk.size(); ++i) key_of[&verts[i]] = vk[i] = pk[i] = i;
  std::vector<std::vector<long>> faces;
  for (auto& s : get("faces")) {
    std::vector<long> v;
    long n;
    std::string t = s;
    for (char& c : t) if (c == '(' || c == ')') c = ' ';
    std::istringstream is(t);
    is >> n;
    long x;
    while (is >> x) v.push_back(x);
    if (long(v.size()) != n) v.clear();
    faces.push_back(v);
  }
  std::vector<long> owner, neigh;
  for (auto& s : get("owner")) owner.push_back(std::stol(s));
  for (auto& s : get("neighbour")) neigh.push_back(std::stol(s));
  std::vector<std::string> bnd;
  for (auto s : get("boundary")) {
    std::string head = s.substr(s.find('{') + 1);
    for (char& c : head) if (c == '}') c = ' ';
    std::string name = s.substr(0, s.find_first_of(" {"));
    std::string nf = head_entry(head, "nFaces"), st = head_entry(head, "startFace");
    bnd.push_back(vf::Json().str("name", name).str("type", head_entry(head, "type")).i("n", nf.empty() ? -1 : std::stol(nf)).i("start", st.empty() ? -1 : std::stol(st)).done());
  }
  // which element each cell is (a candidate, to be confirmed)
  long n_cells = 0;
  for (long x : owner) n_cells = std::max(n_cells, x + 1);
  for (long x : neigh) n_cells = std::max(n_cells, x + 1);
  auto& elems = mesh->elements();
  int ne = elems.size();
  std::vector<std::set<int>> cell_keys(n_cells);
  for (unsigned i = 0; i < faces.size(); ++i) for (long v : faces[i]) if (v >= 0 && v < long(pk.size())) {
    if (i < owner.size() && owner[i] >= 0) cell_keys[owner[i]].insert(pk[v]);
    if (i < neigh.size() && neigh[i] >= 0) cell_keys[neigh[i]].insert(pk[v]);
  }
  auto fits = [&](int cell, int e) {
    for (int k = 0; k < math::pow(2, nd); ++k) if (!cell_keys[cell].count(key_of[&elems[e].vertex(k)])) return false;
    return true;
  };
  std::vector<long> ce;
  for (int i = 0; i < n_cells; ++i) {
    int found = -1;
    if (i < ne && fits(i, i)) found = i;
    for (int e = 0; e < ne && found < 0; ++e) if (fits(i, e)) found = e;
    ce.push_back(found);
  }
  int n_other = 0;
  for (auto& x : std::filesystem::directory_iterator(dir)) {
    auto n = x.path().filename().string();
    n_other += n != "points" && n != "faces" && n != "owner" && n != "neighbour" && n != "boundary";
  }
  std::vector<std::string> fs;
  for (auto& v : faces) fs.push_back(vf::list(v));
  return j.list("vk", vk).list("pk", pk).raw("F", vf::join(fs)).list("O", owner).list("N", neigh).raw("B", vf::join(bnd)).list("ce", ce)
    .list("counts", counts).raw("heads", vf::join(heads)).i("other", n_other).done();
}

int main(int argc, char** argv)
{
  vf::Trace trace(argv[1]);
  std::string op;
  int n_stage = 2;
  vf::Json event;
  auto emit = [&](vf::Json j) {event = j;};
  Storage_params par {2, 4, 2, 2};
  bool dead = false; // an operation failed: skip the rest of the scenario
  auto execute = [&]() {
    std::string name = op;
    if (op == "reset") { // reset nd row_size root origin... gap?
      int gap;
      in >> nd >> rs >> root;
      orig = Mat<>::Zero(3);
      for (int i = 0; i < nd; ++i) in >> orig(i);
      in >> gap;
      with_gap = gap;
      par = Storage_params{n_stage, nd + 2, nd, rs};
      tree_root = nullptr;
      mesh.reset();
      twin.reset();
      shapes.clear();
      mesh.reset(new Accessible_mesh(par, root));
      int pair;
      if (in >> pair && pair) { // another one, on which the same is done except for exporting
        twin.reset(new Accessible_mesh(par, root));
        twin_root = nullptr;
      }
    } else if (op == "poly") {
      if (!std::filesystem::exists("pm")) std::filesystem::create_directory("pm");
      std::string what;
      try {mesh->export_polymesh("pm/");} catch (std::exception& e) {what = e.what();}
      event = vf::Trace::ev("poly").str("what", what.substr(0, 100));
      if (what.empty()) event.raw("f", dump_poly("pm/polyMesh/"));
    } else if (op == "tree") {
      mesh->add_tree(extremal(), orig);
      emit(vf::Trace::ev("tree"));
    } else if (op == "update") {
      std::string kind;
      in >> kind;
      Crit c;
      if (kind == "hash") in >> c.seed >> c.p_ref >> c.p_unref >> c.max_l >> c.x_boost;
      else {
        c.by_list = true;
        int n;
        in >> n;
        for (int i = 0; i < n; ++i) c.ref.insert(read_cell());
        in >> n;
        for (int i = 0; i < n; ++i) c.unref.insert(read_cell());
      }
      std::vector<std::string> asks;
      auto& elems = mesh->elements();
      std::map<Element*, int> parent;
      std::map<Element*, int> id;
      for (int i = 0; i < elems.size(); ++i) id[&elems[i]] = i;
      auto&& xs = mesh->extruded_connections();
      for (int i = 0; i < xs.size(); ++i) parent[&xs[i].element(0)] = id[&xs[i].element(1)];
      for (int i = 0; i < elems.size(); ++i) {
        auto& e = elems[i];
        std::vector<long> a {c.r(e), c.u(e), parent.count(&e) ? parent[&e] : -1};
        asks.push_back(vf::list(a));
      }
      bool ret = mesh->update([&](Element& e){return c.r(e);}, [&](Element& e){return c.u(e);});
      emit(vf::Trace::ev("update").raw("asks", vf::join(asks)).b("ret", ret));
    } else if (op == "lock") { // lock hash seed percent | lock list n cells
      std::string kind;
      in >> kind;
      if (kind == "hash") {
        ul seed; int p;
        in >> seed >> p;
        mesh->set_unref_locks([&](Element& e){return int(hash_elem(seed + 13, e)%100) < p;});
      } else {
        int n;
        in >> n;
        std::set<Cell> s;
        for (int i = 0; i < n; ++i) s.insert(read_cell());
        mesh->set_unref_locks([&](Element& e){return e.tree && s.count(cell(e));});
      }
      emit(vf::Trace::ev("lock"));
    } else if (op == "surface") { // surface <geom> start...
      shapes.clear();
      Surface_geom* g = read_geom();
      Mat<> start(nd);
      for (int i = 0; i < nd; ++i) in >> start(i);
      // which leaves does the surface touch (as the mesh defines it: within half the diagonal of the center)
      mesh->set_surface(g, new Nonpenetration, start);
      std::vector<double> st;
      std::vector<long> s;
      for (int i = 0; i < nd; ++i) s.push_back(vf::fix((start(i) - orig(i))/root, scale));
      emit(vf::Trace::ev("surface").list("start", s).b("simple", shapes.size() == 1 && shapes[0].kind == "plane"));
    } else if (op == "relax") {
      double f;
      in >> f;
      mesh->relax(f);
      emit(vf::Trace::ev("relax"));
    } else if (op == "smooth") {
      mesh->set_all_smooth();
      emit(vf::Trace::ev("smooth"));
    } else if (op == "disconnect") {
      int bc;
      in >> bc;
      if (bc < 0) bc = mesh->surface_bc_sn();
      mesh->disconnect_boundary(bc);
      emit(vf::Trace::ev("disconnect").i("bc", bc));
    } else if (op == "rest") {
      int bc;
      in >> bc;
      if (bc < 0) bc = mesh->surface_bc_sn();
      mesh->connect_rest(bc);
      emit(vf::Trace::ev("rest").i("bc", bc));
    } else if (op == "extrude") {
      int collapse, force; double offset;
      in >> collapse >> offset >> force;
      mesh->extrude(collapse, offset, force);
      emit(vf::Trace::ev("extrude").b("force", force));
    } else if (op == "layers") {
      double ws; int nw;
      in >> ws >> nw;
      static_cast<Mesh&>(*mesh).extrude(Layer_sequence(ws, nw));
      emit(vf::Trace::ev("extrude").b("force", true));
    } else if (op == "cleanup") {
      mesh->cleanup();
      emit(vf::Trace::ev("cleanup"));
    } else if (op == "debugreset") {
      {Mesh::Reset_vertices rv(*mesh);}
      emit(vf::Trace::ev("debugreset"));
    } else if (op == "twin") { // twin has_geom? [geom]: writes a file and reads another mesh from it
      Surface_geom* g = nullptr;
      int has;
      in >> has;
      if (has) {shapes.clear(); g = read_geom();}
      mesh->write("rt");
      bool tree = tree_root;
      int nbc = mesh->boundary_conditions().size();
      auto file = dump_file("rt.mesh.h5", descs(*mesh));
      twin_root = nullptr;
      if (tree) twin.reset(new Accessible_mesh("rt", extremal(), g, g ? new Nonpenetration : nullptr));
      else {
        std::vector<Flow_bc*> f;
        std::vector<Mesh_bc*> b;
        for (int i = 0; i < nbc; ++i) {f.push_back(new Copy); b.push_back(new Null_mbc);}
        twin.reset(new Accessible_mesh("rt", f, b));
      }
      auto p = twin->storage_params();
      std::vector<long> q {p.n_dim, p.row_size, p.n_stage, p.n_var, p.n_forcing};
      emit(vf::Trace::ev("twin").raw("f", file).list("params", q).b("root", twin->root_size() == root)
           .list("want", std::vector<long>{nd, rs, par.n_stage, par.n_var, par.n_forcing}));
    } else if (op == "adjust") { // adjust seed: node adjustments of the deformed elements
      ul seed;
      in >> seed;
      auto& elems = mesh->elements();
      for (int i = 0; i < elems.size(); ++i) if (double* adj = elems[i].node_adjustments()) {
        ul h = hash_elem(seed, elems[i]);
        for (int k = 0; k < 2*nd*math::pow(rs, nd - 1); ++k) adj[k] = .02*(double(mix(h, k)%2001)/1000. - 1.);
      }
      emit(vf::Trace::ev("adjust"));
    } else if (op == "bc") {
      int sn = mesh->add_boundary_condition(new Copy, new Null_mbc);
      emit(vf::Trace::ev("bc").i("sn", sn));
    } else if (op == "add") { // add rl def pos...
      int rl, d;
      in >> rl >> d;
      std::vector<int> p(nd);
      for (int& x : p) in >> x;
      int sn = mesh->add_element(rl, d, p);
      emit(vf::Trace::ev("add").i("rl", rl).b("def", d).list("c", p).i("sn", sn));
    } else if (op == "place") { // place rl def sn  (nd numbers for each vertex): sets vertex positions
      int rl, d, sn;
      in >> rl >> d >> sn;
      auto& e = mesh->element(rl, d, sn);
      for (int k = 0; k < math::pow(2, nd); ++k) for (int j = 0; j < nd; ++j) in >> e.vertex(k).pos(j);
      emit(vf::Trace::ev("place"));
    } else if (op == "concar") { // rl sn0 sn1 dim def0 def1
      int rl, s0, s1, dim, d0, d1;
      in >> rl >> s0 >> s1 >> dim >> d0 >> d1;
      mesh->connect_cartesian(rl, {s0, s1}, {dim}, {bool(d0), bool(d1)});
      emit(vf::Trace::ev("concar").i("rl", rl).i("s0", s0).i("s1", s1).i("dim", dim).b("d0", d0).b("d1", d1));
    } else if (op == "condef") { // rl sn0 sn1 dim0 dim1 sign0 sign1
      int rl, s0, s1, a, b, p, q;
      in >> rl >> s0 >> s1 >> a >> b >> p >> q;
      mesh->connect_deformed(rl, {s0, s1}, {{a, b}, {bool(p), bool(q)}});
      emit(vf::Trace::ev("condef").i("rl", rl).i("s0", s0).i("s1", s1).i("f0", 2*a + p).i("f1", 2*b + q));
    } else if (op == "conhang") { // rl coarse n fines... dim0 dim1 sign0 sign1 coarse_def fine_def st0 st1
      int rl, co, n, a, b, p, q, cd, fd, s0, s1;
      in >> rl >> co >> n;
      std::vector<int> f(n);
      for (int& x : f) in >> x;
      in >> a >> b >> p >> q >> cd >> fd >> s0 >> s1;
      mesh->connect_hanging(rl, co, f, {{a, b}, {bool(p), bool(q)}}, cd, std::vector<bool>(4, bool(fd)), {bool(s0), bool(s1)});
      emit(vf::Trace::ev("conhang").i("rl", rl).i("co", co).list("fine", f).i("f0", 2*a + p).i("f1", 2*b + q)
             .b("cd", cd).b("fd", fd).list("st", std::vector<long>{s0, s1}));
    } else if (op == "conb") { // rl def sn dim sign bc
      int rl, d, sn, dim, sign, bc;
      in >> rl >> d >> sn >> dim >> sign >> bc;
      mesh->connect_boundary(rl, d, sn, dim, sign, bc);
      emit(vf::Trace::ev("conb").i("rl", rl).b("def", d).i("sn", sn).i("f", 2*dim + sign).i("bc", bc));
    } else vf::internal("op " + op);
  };
  std::string line;
  while (std::getline(std::cin, line)) {
    in.clear();
    in.str(line);
    if (!(in >> op)) continue;
    if (dead && op != "reset") continue;
    dead = false;
    std::string name = op;
    try {
      bool both = twin && op != "twin" && op != "reset" && op != "poly";
      execute();
      if (name == "reset") {
        trace.put(vf::Trace::ev("reset").i("nd", nd));
        continue;
      }
      vf::Json j = event;
      j.raw("m", snapshot());
      if (twin) {
        auto ds = descs(*mesh);
        std::swap(mesh, twin);
        std::swap(tree_root, twin_root);
        if (both) {
          in.clear();
          in.str(line);
          in >> op;
          execute();
        } else event = vf::Trace::ev("twin");
        event.raw("m", snapshot()).list("perm", witness(descs(*mesh), ds));
        std::swap(mesh, twin);
        std::swap(tree_root, twin_root);
        j.raw("tw", event.done());
      }
      trace.put(j);
    } catch (std::exception& e) {
      trace.put(vf::Trace::ev("failed").str("op", name).str("what", e.what()));
      if (getenv("DBG")) {trace.put(vf::Trace::ev("dbg").raw("m", snapshot()));}
      dead = true;
    }
  }
  twin.reset();
  mesh.reset();
  return 0;
}
