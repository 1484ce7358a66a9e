// drives hexed::Solver through histories of initialization, iteration, saving and restarting; records the flow state of
// every cell after each operation
#include <cstring>
#include <exception>
#include <unistd.h>
#include <memory>
#include <map>
#include <algorithm>
#include <omp.h>
#include <Solver.hpp>
#include <Gauss_legendre.hpp>
#include "trace.hpp"
using namespace hexed;
typedef unsigned long ul;
static std::istringstream in;
static int nd, rs;
static int outer = 0; // kind of the outer boundary conditions
static int visc = 0;
static int n_cheby = 1, use_filter = 0, flow_iters = 1; // options of the iteration
static std::unique_ptr<Solver> solver;
static Mat<> center;
static double radius = 0;
// the same problem seen in other axes: dimension i of the problem is dimension ax[i] of the solver, the other way around if rev[i]
struct Axes {int ax [3] {0, 1, 2}; int rev [3] {0, 0, 0};};
static Axes axes, next_axes;
static std::vector<double> to_problem(std::vector<double> pos)
{
  std::vector<double> p(nd);
  for (int i = 0; i < nd; ++i) p[i] = axes.rev[i] ? 1 - pos[axes.ax[i]] : pos[axes.ax[i]];
  return p;
}
static Mat<> to_solver(Mat<> p)
{
  Mat<> x(nd);
  for (int i = 0; i < nd; ++i) x(axes.ax[i]) = axes.rev[i] ? 1 - p(i) : p(i);
  return x;
}
// flow state: momentum and two more variables
static std::vector<double> flow_to_solver(std::vector<double> s)
{
  auto x = s;
  for (int i = 0; i < nd; ++i) x[axes.ax[i]] = axes.rev[i] ? -s[i] : s[i];
  return x;
}
// which quadrature point of an element of the solver is point q of the problem
static int point(int q)
{
  int digit [3], r = 0;
  for (int i = nd - 1; i >= 0; --i) {
    int d = q%rs;
    q /= rs;
    digit[axes.ax[i]] = axes.rev[i] ? rs - 1 - d : d;
  }
  for (int i = 0; i < nd; ++i) r = r*rs + digit[i];
  return r;
}
struct Saved {int outer; double radius; Mat<> center; Axes axes; int opts [3];};
static std::map<std::string, Saved> saved;
static ul mix(ul h, ul x) {h ^= x + 0x9e3779b97f4a7c15ul + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdul; return h ^ (h >> 33);}

class Quiet : public Printer {public: void print(std::string) override {}};

static std::vector<double> free_state()
{
  std::vector<double> s(nd + 2, 0.);
  s[0] = 80.;
  s[nd] = 1.2;
  s[nd + 1] = 2.6e5;
  return s;
}

class Field : public Spacetime_func
{
  int seed;
  public:
  Field(int s) : seed{s} {}
  int n_var(int) const override {return nd + 2;}
  std::vector<double> operator()(std::vector<double> pos, double) const override
  {
    auto s = free_state();
    double w = 0;
    pos = to_problem(pos);
    for (int i = 0; i < nd; ++i) w += std::sin((3 + i)*pos[i] + seed*.7 + i);
    for (int i = 0; i < nd; ++i) s[i] += 5*w*(i + 1);
    s[nd] *= 1 + .02*w;
    s[nd + 1] *= 1 + .02*w;
    return flow_to_solver(s);
  }
};

static Flow_bc* outer_bc(int i)
{
  auto s = flow_to_solver(free_state());
  Mat<> m = Eigen::Map<Mat<>>(s.data(), nd + 2);
  if (outer == 4) return visc && i%2 ? (Flow_bc*)new No_slip : new Nonpenetration; // closed
  if (outer == 5) switch ((i*7 + 3)%6) { // which uniform flow passes undisturbed
    case 0: return new Freestream(m);
    case 1: return new Riemann_invariants(m);
    case 2: return new Pressure_outflow(.4*(m(nd + 1) - .5*m(0)*m(0)/m(nd)));
    case 3: return new Copy;
    case 4: return new Outflow;
    default: return new Cache_bc(new Constant_func(s));
  }
  switch ((outer + i)%4) {
    case 0: return new Freestream(m);
    case 1: return new Riemann_invariants(m);
    case 2: return new Cache_bc(new Field(3));
    default: return new Nonpenetration;
  }
}
static std::vector<Flow_bc*> outer_bcs()
{
  std::vector<Flow_bc*> b(2*nd);
  for (int i = 0; i < 2*nd; ++i) b[2*axes.ax[i/2] + (i%2 != axes.rev[i/2])] = outer_bc(i);
  return b;
}
static Flow_bc* wall() {if (outer == 5) return outer_bc(0); if (visc) return new No_slip; return new Nonpenetration;}
static Surface_geom* geom() {return radius > 0 ? new Hypersphere(to_solver(center), radius) : nullptr;}

static void set_options(Solver& s)
{
  s.nspace().assign("n_cheby_flow", n_cheby);
  s.nspace().assign("use_filter", use_filter);
  s.nspace().assign("flow_iters", flow_iters);
}
static Solver* fresh(int local)
{
  auto t = visc ? Transport_model::sutherland(1.7e-1, 273., 110.) : inviscid;
  auto space = std::make_shared<Namespace>();
  auto ref = flow_to_solver(free_state());
  for (int i = 0; i < nd + 2; ++i) space->assign("freestream" + std::to_string(i), ref[i]);
  space->assign("freestream_speed", free_state()[0]/ref[nd]);
  space->assign("freestream_sound_speed", std::sqrt(1.4*.4*ref[nd + 1]/ref[nd]));
  auto s = new Solver(nd, rs, 1., local, t, inviscid, space, std::make_shared<Quiet>());
  set_options(*s);
  return s;
}

static bool all_finite;
// conservation: integrals of mass and energy, of their residuals, and the largest deviations from the uniform flow and the fluid at rest
static void balance(vf::Json& j)
{
  auto ref = flow_to_solver(free_state());
  auto in = solver->integral_field(State_variables());
  solver->compute_residual();
  auto res = solver->integral_field(Physical_residual());
  double vol = solver->integral_field(Constant_func({1.}))[0];
  std::vector<long> tot, r, dev;
  for (int v : {nd, nd + 1}) {
    tot.push_back(vf::fix(in[v]/(vol*ref[v]), 1e9));
    r.push_back(vf::fix(res[v]/(vol*ref[v]*350.), 1e9)); // compared to the change in a time of flight of sound over a root cell
  }
  auto bounds = solver->bounds_field(State_variables(), 6);
  for (int rest = 0; rest < 2; ++rest) {
    double d = 0;
    for (int v = 0; v < nd + 2; ++v) {
      double x = rest && v < nd ? 0 : ref[v], scale = v < nd ? free_state()[0] : ref[v];
      for (double b : bounds[v]) d = std::max(d, std::abs(b - x)/scale);
    }
    dev.push_back(vf::fix(d, 1e9));
  }
  j.list("tot", tot).list("res", r).list("dev", dev);
}
static std::string observe(Solver& s)
{
  auto& mesh = dynamic_cast<Accessible_mesh&>(s.mesh());
  auto& elems = mesh.elements();
  Gauss_legendre basis(rs);
  auto par = s.storage_params();
  int nq = par.n_qpoint();
  std::vector<std::pair<std::vector<long>, std::string>> recs;
  auto ref = free_state();
  for (int k = 1; k < nd; ++k) ref[k] = ref[0];
  for (int i = 0; i < elems.size(); ++i) {
    std::vector<long> key {elems[i].refinement_level(), elems[i].get_is_deformed()};
    for (int q : {0, nq - 1}) {
      auto p = to_problem(elems[i].position(basis, point(q)));
      for (int k = 0; k < nd; ++k) key.push_back(vf::fix(p[k], 1e6));
    }
    ul id = 1;
    for (long k : key) id = mix(id, k);
    double* st = elems[i].state();
    ul bits = 0;
    std::vector<long> v;
    for (int var = 0; var < nd + 2; ++var) {
      double mean = 0;
      for (int q = 0; q < nq; ++q) {
        double x = st[(var < nd ? axes.ax[var] : var)*nq + point(q)];
        if (var < nd && axes.rev[var]) x = -x;
        mean += x*(1 + .01*q);
        all_finite = all_finite && std::isfinite(x);
        ul b; memcpy(&b, &x, sizeof b);
        bits = mix(bits, b);
      }
      v.push_back(vf::fix(mean/nq/ref[var], 1e7));
    }
    double speed = std::sqrt(1.4*.4*ref[nd + 1]/ref[nd]);
    for (double* av : {elems[i].bulk_av_coef(), elems[i].laplacian_av_coef()}) {
      double mean = 0;
      for (int q = 0; q < nq; ++q) {
        mean += av[point(q)]*(1 + .01*q);
        ul b; memcpy(&b, av + q, sizeof b);
        bits = mix(bits, b);
      }
      v.push_back(vf::fix(mean/nq/speed, 1e7));
    }
    std::vector<long> geo; // the geometry of the cell: volume, and how it is distributed
    double mean [2] {};
    for (int q = 0; q < nq; ++q) {
      double det = elems[i].jacobian_determinant(point(q));
      mean[0] += det/nq;
      mean[1] += det*((q*7)%11)/nq;
    }
    for (double x : mean) geo.push_back(vf::fix(x, 1e6));
    std::string r = "[" + std::to_string(id & 0x3fffffff) + "," + std::to_string(bits & 0x3fffffff) + "," + vf::list(v) + "," + vf::list(geo) + "]";
    recs.emplace_back(key, r);
  }
  std::sort(recs.begin(), recs.end());
  std::vector<std::string> o;
  for (auto& r : recs) o.push_back(r.second);
  return vf::join(o);
}

// operations that report something about the simulation
static void look(std::string kind)
{
  auto& mesh = dynamic_cast<Accessible_mesh&>(solver->mesh());
  int sbc = mesh.surface_bc_sn();
  if (kind == "integral") {
    solver->integral_field(State_variables());
  } else if (kind == "surface") {
    solver->integral_surface(State_variables(), radius > 0 ? sbc : 0);
  } else if (kind == "bounds") {
    solver->bounds_field(State_variables(), 4);
  } else if (kind == "field") {
    solver->visualize_field("xdmf", "look_field", State_variables(), 4);
  } else if (kind == "edges") {
    if (nd > 1) solver->visualize_field("xdmf", "look_edges", State_variables(), 4, true);
  } else if (kind == "wall") {
    if (nd > 1) solver->visualize_surface("xdmf", "look_wall", radius > 0 ? sbc : 0, State_variables(), 4);
  } else if (kind == "cart") {
    if (nd > 1) solver->vis_cart_surf("xdmf", "look_cart", radius > 0 ? sbc : 0);
  } else if (kind == "lts") {
    solver->vis_lts_constraints("xdmf", "look_lts", 4);
  } else if (kind == "residual") {
    solver->compute_residual();
    solver->integral_field(Physical_residual());
  } else if (kind == "uncert") {
    Mass m; solver->set_uncertainty(Normalized_nonsmooth(m));
    solver->synch_extruded_uncert();
  } else if (kind == "rep") {
    if (nd > 1 && radius > 0) solver->set_uncert_surface_rep(sbc);
  } else if (kind == "status") {
    solver->iteration_status();
    solver->reset_counters();
    solver->stopwatch_tree().report();
  } else if (kind == "admissible") {
    solver->is_admissible();
  } else if (kind == "sample") {
    for (int l = 0; l < 4; ++l) for (int d = 0; d < 2; ++d) for (int k = 0; k < 3; ++k) {
      try {solver->sample(l, d, k, 0, State_variables());} catch (const std::exception&) {}
    }
  } else if (kind == "mesh") {
    mesh.write("look_mesh");
  } else if (kind == "state") {
    solver->write_state("look_state");
  } else vf::internal("unknown report " + kind);
}

// The solver ends the process when a value that is not finite turns up in a parallel loop. The history ends there; a new process goes on
// with the next one
static std::vector<std::string> input;
static unsigned i_input = 0;
static char** args;
static vf::Trace* the_trace;
static std::string step_kind;
static int step_n = 0;
static void terminated()
{
  try {
    if (auto e = std::current_exception()) std::rethrow_exception(e);
  } catch (const std::exception& e) {
    if (std::string(e.what()).find("state is not finite") == std::string::npos) {
      fprintf(stderr, "terminate called: %s\n", e.what());
      abort();
    }
    the_trace->put(vf::Trace::ev("exploded").str("kind", step_kind).i("n", step_n));
    FILE* rest = tmpfile();
    if (!rest) vf::internal("no temporary file");
    while (i_input < input.size() && input[i_input].substr(0, 5) != "reset") ++i_input;
    for (; i_input < input.size(); ++i_input) fprintf(rest, "%s\n", input[i_input].c_str());
    fflush(rest);
    rewind(rest);
    dup2(fileno(rest), 0);
    lseek(0, 0, SEEK_SET);
    setenv("VF_APPEND", "1", 1);
    execv("/proc/self/exe", args);
    vf::internal("exec failed");
  } catch (...) {}
  abort();
}

int main(int, char** argv)
{
  args = argv;
  vf::Trace trace(argv[1], getenv("VF_APPEND"));
  the_trace = &trace;
  std::set_terminate(terminated);
  std::string line, op;
  while (std::getline(std::cin, line)) input.push_back(line);
  bool dead = false;
  int local = 1;
  std::map<std::string, int> meshes;
  while (i_input < input.size()) {
    line = input[i_input++];
    in.clear();
    in.str(line);
    op.clear();
    in >> op;
    if (op.empty()) continue;
    if (op == "reset") dead = false;
    if (dead) continue;
    vf::Json j = vf::Trace::ev(op);
    try {
      if (op == "reset" || op == "remesh") { // reset nd rs local visc outer seed levels radius center... n_relax n_post: a mesh
        ul seed; int levels, n_relax;
        if (op == "reset") saved.clear(), next_axes = Axes();
        axes = next_axes;
        in >> nd >> rs >> local >> visc >> outer >> seed >> levels >> radius;
        center = Mat<>::Zero(nd);
        for (int i = 0; i < nd; ++i) in >> center(i);
        int n_post;
        in >> n_relax >> n_post;
        if (!(in >> n_cheby >> use_filter >> flow_iters)) n_cheby = 1, use_filter = 0, flow_iters = 1;
        solver.reset(fresh(local));
        auto& mesh = solver->mesh();
        mesh.add_tree(outer_bcs());
        mesh.update();
        auto hash = [&](Element& e){
          ul h = seed;
          int l = e.refinement_level();
          for (int i = 0; i < nd; ++i) {
            int p = e.nominal_position()[axes.ax[i]];
            h = mix(h, axes.rev[i] ? (1 << l) - 1 - p : p);
          }
          h = mix(h, l);
          return h%100;
        };
        for (int l = 1; l < levels; ++l) mesh.update([&](Element& e){return l == 1 || hash(e) < 45;}, criteria::never);
        if (radius > 0) {
          mesh.set_surface(geom(), wall(), to_solver(Mat<>::Constant(nd, .99)));
          for (int i = 0; i < n_relax; ++i) mesh.relax(.5);
        }
        solver->calc_jacobian(n_post >= 0); // -1: straight edges
        if (n_post > 0) { // the mesh is improved after its faces have been fitted to the surface
          for (int i = 0; i < n_post; ++i) mesh.relax(.3);
          solver->calc_jacobian(false);
        }
        if (op == "reset") meshes.clear();
        std::string what = line.substr(6 + (op == "remesh"));
        if (!meshes.count(what)) {int id = meshes.size() + 1; meshes[what] = id;}
        j.i("g", meshes[what]).i("n", mesh.n_elements());
        double det = 1;
        for (int i = 0; i < mesh.n_elements(); ++i) {
          auto& e = dynamic_cast<Accessible_mesh&>(mesh).elements()[i];
          for (int q = 0; q < solver->storage_params().n_qpoint(); ++q) det = std::min(det, e.jacobian_determinant(q));
        }
        if (outer >= 4) j.i("det", vf::fix(det, 1e6)).str("cmd", line).b("closed", outer == 4).b("local", local).b("exact", det > .1 && (nd == 1 || radius == 0 || (rs > 2 && (nd == 2 || (n_post < 0 && (levels < 3 || n_relax == 0))))));
        trace.put(j);
        continue;
      } else if (op == "init") {
        int s;
        in >> s;
        auto u = free_state();
        if (s == -1) u[0] = 0;
        if (s > 0) solver->initialize(Field(s));
        else solver->initialize(Constant_func(flow_to_solver(u)));
        j.i("s", s);
      } else if (op == "step" || op == "stepav" || op == "stepavc" || op == "stepelw" || op == "steppde" || op == "stepadm") {
        int n;
        in >> n;
        step_kind = op;
        step_n = n;
        for (int i = 0; i < n; ++i) {
          if (op == "stepav") solver->update_art_visc_smoothness(.1);
          if (op == "stepavc") solver->set_art_visc_constant(10.);
          if (op == "stepelw" || op == "steppde") solver->update_art_visc_elwise(.1, op == "steppde");
          if (op == "stepadm") solver->set_art_visc_admis();
          solver->update();
        }
        j.i("n", n);
      } else if (op == "write") { // write mesh and state
        std::string f;
        in >> f;
        solver->mesh().write(f);
        solver->write_state(f);
        j.str("f", f);
        saved[f] = {outer, radius, center, axes, {n_cheby, use_filter, flow_iters}};
      } else if (op == "read") { // read them, in a new solver (1) or in the same (0)
        std::string f;
        int anew;
        in >> f >> anew;
        n_cheby = saved.at(f).opts[0];
        use_filter = saved.at(f).opts[1];
        flow_iters = saved.at(f).opts[2];
        if (anew) solver.reset(fresh(local));
        else set_options(*solver);
        outer = saved.at(f).outer;
        radius = saved.at(f).radius;
        center = saved.at(f).center;
        axes = saved.at(f).axes;
        solver->read_mesh(f, outer_bcs(), geom(), radius > 0 ? wall() : nullptr);
        solver->read_state(f);
        j.str("f", f).i("anew", anew);
      } else if (op == "readstate") { // only the state
        std::string f;
        in >> f;
        solver->read_state(f);
        j.str("f", f);
      } else if (op == "fix") { // fix on: the thermodynamic stabilization
        int on;
        in >> on;
        solver->set_fix_admissibility(on);
        j.i("on", on);
      } else if (op == "avoff") {
        solver->set_art_visc_off();
      } else if (op == "turn") { // turn ax rev: the next mesh is seen in these axes
        std::vector<long> a, v;
        for (int i = 0; i < nd; ++i) {in >> next_axes.ax[i]; a.push_back(next_axes.ax[i]);}
        for (int i = 0; i < nd; ++i) {in >> next_axes.rev[i]; v.push_back(next_axes.rev[i]);}
        trace.put(j.list("ax", a).list("rev", v));
        continue;
      } else if (op == "threads") { // threads n: the number of threads used from now on
        int n;
        in >> n;
        omp_set_num_threads(n);
        j.i("n", n);
      } else if (op == "look") { // look kind: something that only reports
        std::string kind;
        in >> kind;
        look(kind);
        j.str("kind", kind);
      } else vf::internal("unknown operation " + op);
      all_finite = true;
      if (outer >= 4) {
        observe(*solver);
        if (all_finite) balance(j);
        else j.b("finite", false);
      } else j.raw("o", observe(*solver));
      trace.put(j);
      if (!all_finite) dead = true; // the history is not one of a stable simulation: it ends here
    } catch (const std::exception& e) {
      if (op.substr(0, 4) == "step" && std::string(e.what()).find("state is not finite") != std::string::npos) trace.put(vf::Trace::ev("exploded").str("kind", step_kind).i("n", step_n));
      else trace.put(vf::Trace::ev("failed").str("op", op).str("what", e.what()));
      dead = true;
    }
  }
}
