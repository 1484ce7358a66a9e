// drives hexed::Interpreter and hexed::Namespace through scenarios read from stdin, recording every result
#include <memory>
#include <set>
#include <fstream>
#include <filesystem>
#include <unistd.h>
#include <Interpreter.hpp>
#include "trace.hpp"
using namespace hexed;

static std::string out;
struct Space {std::shared_ptr<Namespace> ns; std::unique_ptr<Interpreter> inter;};
static std::vector<Space> spaces;
static std::stringstream input; // what programs read with `ask`
struct Capture : public Printer
{
  void print(std::string s) override
  {
    // the wording of messages is not specified
    for (auto& sp : spaces) if (sp.ns->exists("exception")) {
      auto m = sp.ns->lookup<std::string>("exception").value();
      if (m.empty()) continue;
      auto at = s.find(m);
      if (at != std::string::npos) s.replace(at, m.size(), "<exception>");
    }
    out += s;
  }
};
static std::set<std::string> watch;
static std::shared_ptr<int> counter;
static std::set<std::pair<int, std::string>> computed; // not observed, because reading them has an effect

static std::string value(const std::optional<int>& i, const std::optional<double>& d, const std::optional<std::string>& s)
{
  vf::Json j;
  if (i) j.str("t", "int").i("i", *i);
  else if (d) {
    int k = 0;
    double x = *d;
    while (k < 20 && std::abs(x) < 1e9 && x != std::floor(x)) {x *= 2; ++k;}
    bool exact = x == std::floor(x) && std::abs(x) < 1.9e9;
    j.str("t", "real").i("n", exact ? long(x) : 2000000003).i("k", k).i("u", vf::fix(*d, 1e6));
    if (*d == 0 && std::signbit(*d)) j.b("negative", true);
  } else if (s) j.str("t", "str").str("s", *s);
  else j.str("t", "none");
  return j.done();
}

// the variables that each space defines itself, with every type they can be read as
static std::string vars()
{
  std::vector<std::string> r;
  for (unsigned i = 0; i < spaces.size(); ++i) {
    for (auto& x : watch) if (spaces[i].ns->exists(x) && !computed.count({i + 1, x})) {
      auto& n = *spaces[i].ns;
      auto vi = n.lookup<int>(x);
      auto vd = n.lookup<double>(x);
      auto vs = n.lookup<std::string>(x);
      bool odd = (vi && (!vd || *vd != *vi || vs)) || (vd && vs); // an int can be read as a double
      r.push_back(vf::Json().i("s", i + 1).str("x", x).raw("v", value(vi, vd, vs)).b("odd", odd).done());
    }
  }
  return vf::join(r);
}

static std::string unescape(const std::string& s)
{
  std::string r;
  for (unsigned i = 0; i < s.size(); ++i) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      ++i;
      r += s[i] == 'n' ? '\n' : s[i] == 's' ? ' ' : s[i];
    } else r += s[i];
  }
  return r;
}

// runs f and says how it ended
template <typename F> std::string attempt(F f, std::string* what = nullptr)
{
  try {f();}
  catch (const Interpreter::Hil_unhandled_exception& e) {if (what) *what = e.what(); return "hil";}
  catch (const Interpreter::Hil_exception& e) {return "raw";} // only meant for the inside of the interpreter
  catch (const std::exception& e) {if (what) *what = e.what(); return "cpp";}
  return "ok";
}

int main(int argc, char** argv)
{
  vf::Trace trace(argv[1]);
  // files that programs read are in a scratch directory
  char dir [] = "/tmp/vf_hil_XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) vf::internal("scratch directory");
  struct Cleaner {std::string d; ~Cleaner() {chdir("/"); std::filesystem::remove_all(d);}} cleaner {dir};
  auto state = [&](vf::Json j) {trace.put(j.raw("vars", vars()));};
  std::string op, x, type, line;
  int s;
  auto done = [&](vf::Json j, const std::string& st) {state(j.i("s", s).str("x", x).str("st", st));};
  while (std::cin >> op) {
    if (op == "reset") {
      spaces.clear();
      watch.clear();
      computed.clear();
      input.str("");
      input.clear();
      counter = std::make_shared<int>(0);
      state(vf::Trace::ev("reset"));
    } else if (op == "watch") {
      std::getline(std::cin, line);
      std::istringstream in(line);
      while (in >> x) watch.insert(x);
      std::vector<std::string> w;
      for (auto& y : watch) w.push_back(vf::quote(y));
      state(vf::Trace::ev("watch").raw("names", vf::join(w)));
    } else if (op == "interp") {
      int up;
      std::cin >> up;
      Space sp;
      if (up) sp.inter.reset(new Interpreter(spaces.at(up - 1).inter->make_sub()));
      else    sp.inter.reset(new Interpreter(std::vector<std::string>{}));
      sp.inter->printer = std::make_shared<Capture>();
      sp.ns = sp.inter->variables;
      spaces.push_back(std::move(sp));
      std::vector<int> ups;
      if (up) ups.push_back(up);
      state(vf::Trace::ev("interp").list("ups", ups));
    } else if (op == "space") {
      int n, u;
      std::cin >> n;
      std::vector<int> ups;
      Space sp;
      sp.ns = std::make_shared<Namespace>();
      for (int i = 0; i < n; ++i) {
        std::cin >> u;
        ups.push_back(u);
        sp.ns->supers.push_back(spaces.at(u - 1).ns);
      }
      spaces.push_back(std::move(sp));
      state(vf::Trace::ev("space").list("ups", ups));
    } else if (op == "file") {
      std::cin >> x;
      std::getline(std::cin, line);
      std::string text = unescape(line.empty() ? line : line.substr(1));
      std::ofstream(x) << text;
      state(vf::Trace::ev("file").str("x", x).str("text", text));
    } else if (op == "input") {
      std::getline(std::cin, line);
      std::string text = unescape(line.substr(1)), y;
      input.clear();
      input.str(text);
      std::vector<std::string> lines;
      std::istringstream in(text);
      while (std::getline(in, y)) lines.push_back(vf::quote(y));
      state(vf::Trace::ev("input").raw("lines", vf::join(lines)));
    } else if (op == "exec" || op == "eval" || op == "builtin") {
      std::cin >> s;
      std::getline(std::cin, line);
      std::string prog, what;
      if (op == "builtin") {
        std::ifstream file(Interpreter::builtin_file);
        if (!file.good()) vf::internal("cannot read " + Interpreter::builtin_file);
        prog = std::string(std::istreambuf_iterator<char>(file), {});
      } else prog = unescape(line.substr(1));
      if (op == "eval") {
        Space sp;
        sp.inter.reset(new Interpreter(spaces.at(s - 1).inter->make_sub()));
        sp.inter->printer = std::make_shared<Capture>();
        sp.ns = sp.inter->variables;
        spaces.push_back(std::move(sp));
      }
      out.clear();
      auto& inter = op == "eval" ? spaces.back().inter : spaces.at(s - 1).inter;
      alarm(20); // a program that does not end is a failure
      auto stdin_buf = std::cin.rdbuf(input.rdbuf());
      auto in_state = std::cin.rdstate();
      std::string st = attempt([&]() {inter->exec(prog);}, &what);
      std::cin.rdbuf(stdin_buf);
      std::cin.clear(in_state);
      alarm(0);
      auto named = what.find("undefined variable `");
      std::string undef = named == std::string::npos || st != "hil" ? "" : what.substr(named + 20, what.find('`', named + 20) - named - 20);
      state(vf::Trace::ev(op).i("s", s).str("prog", prog).str("st", st).str("out", out).str("undef", undef));
      if (op == "eval") spaces.pop_back();
    } else {
      std::cin >> s >> x;
      auto& n = *spaces.at(s - 1).ns;
      if (op == "tick") {
        auto c = counter;
        auto st = attempt([&]() {n.create<int>(x, new Namespace::Heisenberg<int>([c]() {return (*c)++;}));});
        if (st == "ok") computed.insert({s, x});
        done(vf::Trace::ev("tick"), st);
      } else if (op == "assign" || op == "default") {
        std::cin >> type;
        std::getline(std::cin, line);
        std::string v = unescape(line.substr(1)), st, val;
        bool a = op == "assign";
        if (type == "int") {
          int i = std::stoi(v);
          st = attempt([&]() {a ? n.assign<int>(x, i) : n.assign_default<int>(x, i);});
          val = value(i, {}, {});
        } else if (type == "real") {
          double d = std::stod(v);
          st = attempt([&]() {a ? n.assign<double>(x, d) : n.assign_default<double>(x, d);});
          val = value({}, d, {});
        } else {
          st = attempt([&]() {a ? n.assign<std::string>(x, v) : n.assign_default<std::string>(x, v);});
          val = value({}, {}, v);
        }
        done(vf::Trace::ev(op).raw("v", val), st);
      } else if (op == "lookup") {
        std::cin >> type;
        std::string val = "\"\"", st;
        if (type == "int") {
          std::optional<int> i;
          st = attempt([&]() {i = n.lookup<int>(x);});
          val = value(i, {}, {});
        } else if (type == "real") {
          std::optional<double> d;
          st = attempt([&]() {d = n.lookup<double>(x);});
          val = value({}, d, {});
        } else {
          std::optional<std::string> v;
          st = attempt([&]() {v = n.lookup<std::string>(x);});
          val = value({}, {}, v);
        }
        done(vf::Trace::ev("lookup").str("T", type).raw("v", val), st);
      } else if (op == "exists") {
        bool a, b;
        std::string st = attempt([&]() {a = n.exists(x); b = n.exists_recursive(x);});
        done(vf::Trace::ev("exists").b("own", a).b("rec", b), st);
      } else vf::internal("operation " + op);
    }
  }
}
