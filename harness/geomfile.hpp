// writes geometry files, with writers which are not hexed's, and reads them with hexed.
// A file consists of groups of polygons (edges in 2D); each group has a placement: a quarter turn about z and a shift
#include <filesystem>
#include <fstream>
#include <Occt.hpp>
#include <read_csv.hpp>
#include <gp_Trsf.hxx>
#include <gp_Ax1.hxx>
#include <TopoDS_Compound.hxx>
#include <TopLoc_Location.hxx>
#include <BRep_Builder.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
#include <STEPControl_Writer.hxx>
#include <IGESControl_Writer.hxx>
#include <iomanip>
typedef std::vector<long> Ints;
static std::string file_kind; // for the record
static Ints place(const Ints& p, long turn, const Ints& shift)
{
  long c [4] {1, 0, -1, 0}, s [4] {0, 1, 0, -1};
  Ints q(p);
  q[0] = c[turn]*p[0] - s[turn]*p[1];
  q[1] = s[turn]*p[0] + c[turn]*p[1];
  for (unsigned i = 0; i < q.size(); ++i) q[i] += shift[i];
  return q;
}
static Ints ints(int n)
{
  Ints v(n);
  for (long& x : v) if (!(in >> x)) vf::internal("ints");
  return v;
}
static gp_Pnt pnt(const Ints& p, double unit) {return gp_Pnt(unit*p[0], unit*p[1], p.size() > 2 ? unit*p[2] : 0.);}
static Surface_geom* file_geom(std::vector<std::string>& rec)
{
  // file format located roots parameter groups { turn shift... polygons { vertices {...} } }
  std::string format;
  int located, n_group, roots; // roots: groups are separate objects of the file
  double param;
  in >> format >> located >> roots >> param >> n_group;
  file_kind = format + " " + std::to_string(located);
  std::vector<std::vector<Ints>> polys; // in their place
  TopoDS_Compound all_groups, first;
  std::vector<TopoDS_Compound> separate;
  BRep_Builder builder;
  builder.MakeCompound(all_groups);
  for (int i_group = 0; i_group < n_group; ++i_group) {
    long turn;
    int n_poly;
    in >> turn;
    Ints shift = ints(nd);
    in >> n_poly;
    TopoDS_Compound group;
    builder.MakeCompound(group);
    gp_Trsf rot, move;
    rot.SetRotation(gp_Ax1(gp_Pnt(0, 0, 0), gp_Dir(0, 0, 1)), turn*M_PI/2);
    move.SetTranslation(gp_Vec(1e3*(off(0) + scale*shift[0]), 1e3*(off(1) + scale*shift[1]), nd > 2 ? 1e3*(off(2) + scale*shift[2]) : 0.));
    gp_Trsf trsf = move*rot;
    for (int i_poly = 0; i_poly < n_poly; ++i_poly) {
      int nv;
      in >> nv;
      std::vector<Ints> local, placed;
      for (int i = 0; i < nv; ++i) {
        local.push_back(ints(nd));
        placed.push_back(place(local.back(), turn, shift));
      }
      polys.push_back(placed);
      if (format == "step" || format == "iges") {
        std::vector<gp_Pnt> p;
        for (auto& v : local) {
          p.push_back(pnt(v, 1e3*scale));
          if (!located) p.back().Transform(trsf);
        }
        if (nd == 2) {
          for (int i = 0; i + 1 < nv; ++i) builder.Add(group, BRepBuilderAPI_MakeEdge(p[i], p[i + 1]).Edge());
        } else {
          BRepBuilderAPI_MakePolygon poly;
          for (auto& v : p) poly.Add(v);
          poly.Close();
          builder.Add(group, BRepBuilderAPI_MakeFace(poly.Wire(), true).Face());
        }
      }
    }
    if (located == 2 && i_group) group = first; // another instance of the same part
    else first = group;
    if (located) group.Location(TopLoc_Location(trsf));
    builder.Add(all_groups, group);
    separate.push_back(group);
  }
  // what is expected
  for (auto& p : polys) {
    if (nd == 2) for (unsigned i = 0; i + 1 < p.size(); ++i) rec.push_back(vf::join({vf::list(p[i]), vf::list(p[i + 1])}));
    else for (unsigned i = 1; i + 1 < p.size(); ++i) rec.push_back(vf::join({vf::list(p[0]), vf::list(p[i]), vf::list(p[i + 1])}));
  }
  auto pos = [&](const Ints& v, int i, double factor){return (off(i) + scale*v[i])/factor;};
  static int n_file = 0;
  static const char* stems [5] {"geom0.", "./geom1.", "geom 2.v1.", "./dir.step/geom3.", "dir.step/../geom.files/geom.stl."};
  std::string name = stems[n_file++ % 5];
  std::filesystem::create_directory("dir.step");
  std::filesystem::create_directory("geom.files");
  if (format == "csv") {
    {
      std::ofstream f(name + "csv");
      f << std::setprecision(17);
      for (auto& p : polys) for (auto& v : p) f << pos(v, 0, 1) << (param > .5 ? ", " : ",") << pos(v, 1, 1) << "\n";
    }
    return new Simplex_geom<2>(segments(read_csv(name + "csv").transpose()));
  } else if (format == "stl" || format == "stlb") { // param: unit
    {
      std::ofstream f(name + "stl", std::ios::binary);
      f << std::setprecision(17);
      if (format == "stl") f << "solid verif\n";
      else {
        f << std::string(80, ' ');
        unsigned n = 0;
        for (auto& p : polys) n += p.size() - 2;
        f.write((char*)&n, 4);
      }
      for (auto& p : polys) for (unsigned i = 1; i + 1 < p.size(); ++i) {
        float normal [3] {0, 0, 1};
        if (format == "stl") f << " facet normal 0 0 1\n  outer loop\n";
        else f.write((char*)normal, 12);
        for (auto& v : {p[0], p[i], p[i + 1]}) {
          float x [3];
          for (int k = 0; k < 3; ++k) x[k] = pos(v, k, param);
          if (format == "stl") f << "   vertex " << pos(v, 0, param) << " " << pos(v, 1, param) << " " << pos(v, 2, param) << "\n";
          else f.write((char*)x, 12);
        }
        short attr = 0;
        if (format == "stl") f << "  endloop\n endfacet\n";
        else f.write((char*)&attr, 2);
      }
      if (format == "stl") f << "endsolid verif\n";
    }
    return new Simplex_geom<3>(param == 1 ? Occt::triangles(Occt::read_stl(name + "stl")) : Occt::triangles(Occt::read_stl(name + "stl", param)));
  } else if (format == "step" || format == "iges") { // 2D: param = number of segments per edge
    static const char* exts [2][3] = {{"step", "stp", "STEP"}, {"igs", "iges", "IGS"}};
    name += exts[format == "iges"][n_file % 3];
    if (!roots) separate = {all_groups};
    if (format == "step") {
      STEPControl_Writer w;
      for (auto& x : separate) if (w.Transfer(x, STEPControl_AsIs) != IFSelect_RetDone) vf::internal("transfer");
      if (w.Write(name.c_str()) != IFSelect_RetDone) vf::internal("write STEP");
    } else {
      IGESControl_Writer w("MM", 1);
      for (auto& x : separate) if (!w.AddShape(x)) vf::internal("transfer");
      if (!w.Write(name.c_str())) vf::internal("write IGES");
    }
    auto shape = Occt::read(name);
    if (nd == 2) return new Simplex_geom<2>(Occt::segments(shape, int(param)));
    return param > 0 ? new Simplex_geom<3>(Occt::triangles(shape, param)) : new Simplex_geom<3>(Occt::triangles(shape));
  }
  vf::internal("format " + format);
  return nullptr;
}

// csv a row of comma-separated entries, for each row; "-" is an empty row. Entries which are not integers are recorded as 99999
static vf::Json csv()
{
  std::string row;
  std::vector<std::string> rows, result;
  std::ofstream f("table.csv");
  while (in >> row) {
    if (row == "-") row = "";
    f << row << "\n";
    std::vector<long> entries;
    std::istringstream s(row + ",");
    std::string e;
    if (!row.empty()) while (std::getline(s, e, ',')) {
      try {entries.push_back(std::stoi(e));}
      catch (...) {entries.push_back(99999);}
    }
    rows.push_back(vf::list(entries));
  }
  f.close();
  bool ok = true;
  try {
    auto m = read_csv("table.csv");
    for (int i = 0; i < m.rows(); ++i) {
      std::vector<long> r;
      for (int j = 0; j < m.cols(); ++j) r.push_back(vf::fix(m(i, j), 1.));
      result.push_back(vf::list(r));
    }
  } catch (const std::exception&) {ok = false;}
  return vf::Trace::ev("csv").raw("rows", vf::join(rows)).b("ok", ok).raw("res", vf::join(result));
}
