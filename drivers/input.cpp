// Reading of input files: inclusion of other files, the order in which the elements are offered to the simulator,
// rejected elements, and the simulation options from the file and from the command-line.
#include "vf.h"
#include "SIMdummy.h"
#include "SIMgeneric.h"
#include "IFEM.h"
#include "SIMoptions.h"
#include "ASMenums.h"
#include "tinyxml2.h"
#include <map>
#include <sys/stat.h>

static vf::Out* out;
static int reject = 0, offered = 0;
static std::vector<const char*>* prio = nullptr;
static std::string dir;

static std::string num(double v) { char b[32]; snprintf(b, 32, "%g", v); return b; }

static std::string options(const SIMoptions& o)
{
  vf::J j;
  j.set("discr", num(o.discretization)).set("solver", num(o.solver)).set("g0", num(o.nGauss[0])).set("g1", num(o.nGauss[1]));
  j.set("eig", num(o.eig)).set("nev", num(o.nev)).set("ncv", num(o.ncv)).set("shift", num(o.shift));
  j.set("format", num(o.format)).set("n0", num(o.nViz[0])).set("n1", num(o.nViz[1])).set("n2", num(o.nViz[2]));
  j.set("saveInc", num(o.saveInc)).set("dtSave", num(o.dtSave)).set("pSol", num(o.pSolOnly)).set("trac", num(o.saveTrac)).set("norms", num(o.saveNorms)).set("log", num(o.saveLog));
  j.set("hdf5", o.hdf5).set("vtf", o.vtf).set("rInc", num(o.restartInc)).set("rStep", num(o.restartStep)).set("rFile", o.restartFile);
  j.set("slu", num(o.num_threads_SLU)).set("groups", num(o.validateGroups));
  j.set("cache", num(ASM::cachePolicy)).set("msg", num(SIMadmin::msgLevel));
  std::vector<int> p;
  for (auto& x : o.project) p.push_back(x.first);
  j.arr("proj", p);
  return j.str();
}

using Attrs = std::vector<std::pair<std::string,std::string>>;
static std::string node(const std::string& n, const Attrs& a, const std::string& t, const std::vector<std::string>& c)
{
  std::vector<std::string> l;
  for (auto& x : a) l.push_back(vf::J().set("k", x.first).set("v", x.second).str());
  return vf::J().set("n", n).raw("a", vf::list(l)).set("t", t).raw("c", vf::list(c)).str();
}

static std::string tree(const tinyxml2::XMLNode* x)
{
  if (const tinyxml2::XMLElement* e = x->ToElement()) {
    Attrs a;
    std::vector<std::string> c;
    for (const tinyxml2::XMLAttribute* k = e->FirstAttribute(); k; k = k->Next()) a.push_back({ k->Name(), k->Value() });
    for (const tinyxml2::XMLNode* k = e->FirstChild(); k; k = k->NextSibling())
      if (k->ToElement() || k->ToText()) c.push_back(tree(k));
    return node(e->Value(), a, "", c);
  }
  return node("", {}, x->Value(), {});
}

class Sim : public SIMdummy<SIMgeneric>
{
public:
  Sim() : SIMdummy<SIMgeneric>(nullptr) {}
  const SIMoptions& options() const { return opt; }
  using SIMinput::parse;
  bool parse(const tinyxml2::XMLElement* elem) override
  {
    ++offered;
    std::string t = tree(elem), d = num(opt.discretization);
    bool r = offered != reject && (!strcasecmp(elem->Value(), "geometry") || this->SIMdummy<SIMgeneric>::parse(elem));
    out->step(vf::J("parse").raw("x", t).set("r", r).set("discr", d).set("dis2", num(opt.discretization)));
    return r;
  }
  const char** getPrioritizedTags() const override { return prio ? prio->data() : this->SIMdummy<SIMgeneric>::getPrioritizedTags(); }
};

static std::string xml(const std::string& s)
{
  std::string r;
  for (char c : s) r += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c);
  return r;
}

static std::string spaces(std::string s, const char* by)
{
  for (size_t p; (p = s.find('~')) < s.size(); ) s.replace(p, 1, by);
  return s;
}

// Reads one node of a scenario: its text for the file, and its abstract value (empty for a comment).
static std::string read(vf::In& in, std::string& abs, int depth = 0)
{
  static int k = 0;
  std::string w = in.tok(), nl = k++ % 3 ? "\n" + std::string(depth, ' ') : k % 2 ? " " : "";
  abs.clear();
  if (w == "T") { std::string t = in.tok(); abs = node("", {}, spaces(t, " "), {}); return nl + spaces(xml(t), " \n  ") + nl; }
  if (w == "C") { std::string t = in.tok(); return nl + "<!-- " + t + " -->"; }
  if (w == "I") {
    std::string f = dir + in.tok();
    abs = node("include", {}, "", { node("", {}, f, {}) });
    return nl + "<include>" + nl + f + nl + "</include>" + nl;
  }
  if (w != "E") { std::cerr << w <<": unknown node\n"; _exit(96); }
  std::string n = in.tok(), r = nl + "<" + n;
  Attrs a;
  std::vector<std::string> c;
  int na = in.num();
  for (int i = 0; i < na; i++) {
    std::string key = in.tok(), val = spaces(in.tok(), " ");
    a.push_back({ key, val });
    r += " " + key + "=\"" + xml(val) + "\"";
  }
  int nc = in.num();
  if (nc == 0) r += "/>";
  else {
    r += ">";
    for (int i = 0; i < nc; i++) {
      std::string b;
      r += read(in, b, depth + 2);
      if (!b.empty()) c.push_back(b);
    }
    r += nl + "</" + n + ">" + nl;
  }
  abs = node(n, a, "", c);
  return r;
}

static void run(vf::In& in, vf::Out& o, const std::string& id)
{
  out = &o;
  dir = std::string(getenv("VF_SCRATCH")) + "/in" + id + "/";
  mkdir(dir.c_str(), 0755);
  std::vector<std::string> files, names, args = { "app" }, jargs;
  std::vector<const char*> special;
  std::string mainFile = "a.xinp", cl;
  int times = 1;
  bool own = false;
  while (in.more()) {
    std::string w = in.tok();
    if (w == "file") {
      std::string f = in.tok(), kind = in.tok(), abs = node("", {}, "", {}), text;
      if (kind == "ok") text = read(in, abs);
      else if (kind == "broken") text = "<simulation><a></simulation>";
      else if (kind == "blank") text = "  \n";
      else if (kind == "comment") text = "<!-- nothing -->\n";
      else if (kind == "cut") { text = read(in, abs); text.resize(text.rfind("</") < text.size() ? text.rfind("</") : text.size() / 2); abs = node("", {}, "", {}); }
      std::ofstream(dir + f) << "<?xml version=\"1.0\"?>\n" << text << "\n";
      if (kind == "blank") std::ofstream(dir + f) << text;
      files.push_back(vf::J().set("f", dir + f).set("ok", kind == "ok").raw("x", abs).str());
      names.push_back(f);
    }
    else if (w == "main") mainFile = in.tok();
    else if (w == "times") times = in.num();
    else if (w == "rej") reject = in.num();
    else if (w == "prio") {
      own = true;
      for (int n = in.num(); n > 0; n--) special.push_back(strdup(in.tok().c_str()));
    }
    else if (w == "cli") { for (int n = in.num(); n > 0; n--) args.push_back(in.tok()); }
    else { std::cerr << w <<": unknown\n"; _exit(96); }
  }
  std::vector<std::string> pr;
  if (own) {
    for (const char* s : special) pr.push_back(s);
    special.push_back(nullptr);
    prio = &special;
  }
  else
    pr = { "console", "discretization", "geometry" };
  for (size_t i = 1; i < args.size(); i++) jargs.push_back(vf::J().set("s", args[i]).set("d", args[i][0] == '-').str());
  o.begin(id, vf::J().raw("files", vf::list(files)).set("main", dir + mainFile).sarr("prio", pr).raw("cli", vf::list(jargs)).set("thr", num(SIMoptions().num_threads_SLU)).str());
  o.step(vf::J("begin"));

  std::vector<char*> argv;
  for (std::string& s : args) argv.push_back(strdup(s.c_str()));
  argv.push_back(nullptr);
  IFEM::Init(args.size(), argv.data(), nullptr, true);
  Sim sim;
  for (int k = 0; k < times; k++) {
    o.step(vf::J("read"));
    bool ok = sim.read((dir + mainFile).c_str());
    o.step(vf::J("ret").set("ok", ok).raw("opt", options(sim.options())));
    reject = 0;
  }

  for (const std::string& f : names) unlink((dir + f).c_str());
  rmdir(dir.c_str());
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
