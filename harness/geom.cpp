// asks hexed's surface geometry for nearest points and intersections. The geometry is made of integers, in units of `scale` and
// moved by `off`; answers are recorded in these units
#include <memory>
#include <Surface_geom.hpp>
#include <Simplex_geom.hpp>
#include "trace.hpp"
using namespace hexed;
static std::istringstream in;
static int nd;
static double scale;
static Mat<> off;
static long clip(double x, double s) {return vf::fix(x, s);}
static Mat<> point(std::vector<long>& raw)
{
  Mat<> p(nd);
  raw.clear();
  for (int i = 0; i < nd; ++i) {
    long x;
    if (!(in >> x)) vf::internal("point");
    raw.push_back(x);
    p(i) = off(i) + scale*x;
  }
  return p;
}
template <int n> static Surface_geom* simplices(int count, std::vector<std::string>& s)
{
  std::vector<Mat<n, n>> v;
  for (int i = 0; i < count; ++i) {
    Mat<n, n> m;
    std::vector<std::string> verts;
    std::vector<long> raw;
    for (int k = 0; k < n; ++k) {
      m.col(k) = point(raw);
      verts.push_back(vf::list(raw));
    }
    v.push_back(m);
    s.push_back(vf::join(verts));
  }
  return new Simplex_geom<n>(v);
}
#ifdef GEOM_FILES
#include "geomfile.hpp"
#endif
int main(int, char** argv)
{
  vf::Trace trace(argv[1]);
  std::unique_ptr<Surface_geom> geom;
  std::string line, op;
  while (std::getline(std::cin, line)) {
    in.clear();
    in.str(line);
    if (!(in >> op)) continue;
    std::vector<long> raw, raw1;
    if (op == "reset") { // reset nd scale offset... nested n_comp components...
      int nest, nc;
      in >> nd >> scale;
      off.resize(nd);
      for (int i = 0; i < nd; ++i) in >> off(i);
      in >> nest >> nc;
      std::vector<Surface_geom*> comps;
      std::vector<std::string> rec;
      for (int i = 0; i < nc; ++i) {
        std::string kind;
        in >> kind;
        if (kind == "simp") {
          int count;
          in >> count;
          std::vector<std::string> s;
          if (nd == 2) comps.push_back(simplices<2>(count, s));
          else if (nd == 3) comps.push_back(simplices<3>(count, s));
          else vf::internal("dimension");
          rec.push_back(vf::Json().str("k", kind).raw("s", vf::join(s)).i("m", 1).done());
        } else if (kind == "curve") { // points of a polygonal curve
          int count;
          in >> count;
          Mat<dyn, dyn> p(2, count);
          std::vector<std::string> pts, s;
          for (int k = 0; k < count; ++k) {
            p.col(k) = point(raw);
            pts.push_back(vf::list(raw));
            if (k) s.push_back(vf::join({pts[k - 1], pts[k]}));
          }
          comps.push_back(new Simplex_geom<2>(segments(p)));
          rec.push_back(vf::Json().str("k", "simp").raw("s", vf::join(s)).i("m", 1).done());
        #ifdef GEOM_FILES
        } else if (kind == "file") {
          std::vector<std::string> s;
          comps.push_back(file_geom(s));
          rec.push_back(vf::Json().str("k", "simp").raw("s", vf::join(s)).i("m", 4).str("file", file_kind).done());
        #endif
        } else {
          Mat<> c = point(raw);
          long r;
          in >> r;
          comps.push_back(new Hypersphere(c, scale*r));
          rec.push_back(vf::Json().str("k", kind).list("c", raw).i("r", r).done());
        }
      }
      if (nc == 1 && !nest) geom.reset(comps[0]);
      else if (nest < 2) geom.reset(new Compound_geom(comps));
      else { // a compound of a compound and the rest
        std::vector<Surface_geom*> a(comps.begin(), comps.begin() + nc/2), b(comps.begin() + nc/2, comps.end());
        b.push_back(new Compound_geom(a));
        geom.reset(new Compound_geom(b));
      }
      trace.put(vf::Trace::ev("reset").i("n", nd).raw("c", vf::join(rec)));
    } else if (op == "near") { // near p... max guess: max in halves, guess real, -1: default
      Mat<> p = point(raw);
      long m;
      double guess;
      in >> m >> guess;
      auto n = m < 0 && guess < 0 ? geom->nearest_point(p) : geom->nearest_point(p, m < 0 ? huge : scale*m/2., guess < 0 ? huge : scale*guess);
      vf::Json j = vf::Trace::ev("near");
      j.list("p", raw).i("max", m).b("empty", n.empty());
      std::vector<long> q;
      if (!n.empty()) {
        Mat<> x = n.point();
        for (int i = 0; i < nd; ++i) q.push_back(clip((x(i) - off(i))/scale, 1e3));
      }
      j.list("q", q);
      trace.put(j);
    } else if (op == "inter") { // inter p0... p1...
      Mat<> p0 = point(raw), p1 = point(raw1);
      auto ts = geom->intersections(p0, p1);
      std::vector<long> t;
      std::vector<std::string> x;
      for (double s : ts) {
        t.push_back(clip(s, 1e4));
        std::vector<long> y;
        for (int i = 0; i < nd; ++i) y.push_back(clip((p0(i) + s*(p1(i) - p0(i)) - off(i))/scale, 1e3));
        x.push_back(vf::list(y));
      }
      trace.put(vf::Trace::ev("inter").list("p", raw).list("r", raw1).list("t", t).raw("x", vf::join(x)));
    #ifdef GEOM_FILES
    } else if (op == "csv") {
      trace.put(csv());
    #endif
    } else vf::internal("op " + op);
  }
}
