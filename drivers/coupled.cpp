// Coupled simulators (SIMCoupled, SIMCoupledSI, nested couplings, plane-decoupled SIMSemi3D) over scripted sub-simulators
// which record what they are asked to do, and the exchange of fields between simulators (SIMdependency).
#include "vf.h"
#include "fake_asm.h"
#include "IntegrandBase.h"
#include "SIMdependency.h"
#include "SIMoptions.h"
#include "SIMCoupled.h"
#include "SIMCoupledSI.h"
#include "SIMSemi3D.h"
#include "DataExporter.h"
#include "ProcessAdm.h"
#include "Field.h"
#include "Fields.h"
#include "MPC.h"
#include <deque>
#include <map>
#include <memory>

static const double U = 4096.0;
static int q(double v) { return vf::q(v, U); }

// Fields over another basis are not created here, only asked for.
static int created = 0;
Field* Field::create(const ASMbase*, const RealArray&, char, char cmp, const char*) { created = cmp; return nullptr; }
Fields* Fields::create(const ASMbase*, const RealArray&, char, int, const char*) { created = -1; return nullptr; }

struct Env
{
  vf::Out* out;
  std::map<std::pair<int,std::string>, std::deque<int>> script;
  int pop(int s, const std::string& f, int def)
  {
    std::deque<int>& d = script[{s, f}];
    if (d.empty()) return def;
    int r = d.front();
    d.pop_front();
    return r;
  }
  int call(int s, const char* f, const std::vector<int>& a = {}, int def = 1, const std::string& n = "")
  {
    int r = this->pop(s, f, def);
    out->step(vf::J("call").set("s", s).set("f", f).arr("a", a).set("n", n).set("r", r));
    return r;
  }
};
static Env env;

class Dep : public SIMdependency
{
public:
  int id;
  explicit Dep(int i) : id(i) {}
  size_t getNoSpaceDim() const override { return 2; }
  std::string getName() const override { return "D" + std::to_string(id); }
};

class Part
{
public:
  int id;
  Dep dep;
  Vector u;
  std::string partner;
  ProcessAdm adm;
  VTF* vtf = nullptr;

  explicit Part(int i) : id(i), dep(i), u(1) { adm.cout.setNull(); }
  std::string getName() const { return "P" + std::to_string(id); }
  const ProcessAdm& getProcessAdm() const { return adm; }
  int getRefined() const { return 40 + id; }
  bool preprocess() { return env.call(id, "pre"); }
  bool advanceStep(TimeStep& tp) { return env.call(id, "adv", { tp.step }); }
  bool init(const TimeStep& tp) { return env.call(id, "init", { tp.step }); }
  bool solveStep(TimeStep& tp) { return env.call(id, "solve", { tp.step }); }
  SIM::ConvStatus solveIteration(TimeStep& tp)
  {
    const std::vector<double>* p = dep.getDependentField(partner);
    u[0] = std::fmod(3.0*u[0] + (p ? p->front() : 0.0) + tp.step + tp.iter, 16.0);
    return (SIM::ConvStatus)env.call(id, "it", { tp.step, tp.iter, q(u[0]) }, SIM::CONVERGED);
  }
  void postSolve(TimeStep& tp) { env.call(id, "post", { tp.step, tp.iter, tp.time.first }); }
  bool saveStep(const TimeStep& tp, int& nBlock) { int b = nBlock; nBlock += id; return env.call(id, "save", { tp.step, b }); }
  bool saveModel(char* f, int& geo, int& blk)
  {
    geo += 1; blk += 2;
    bool ok = env.call(id, "model", { f != nullptr });
    if (ok) vtf = (VTF*)(size_t)(16*id);
    return ok;
  }
  VTF* getVTF() const { return vtf; }
  void setVTF(VTF* v) { vtf = v; env.call(id, "vtf", { (int)((size_t)v / 16) }); }
  void registerDependency(SIMdependency* sim, const std::string& name, short int nvc, const std::vector<ASMbase*>& p, char diff, int comp)
  { env.call(id, "dep6", { static_cast<Dep*>(sim)->id, nvc, (int)p.size(), diff, comp }, 1, name); }
  void registerDependency(SIMdependency* sim, const std::string& name, short int nvc)
  { env.call(id, "dep3", { static_cast<Dep*>(sim)->id, nvc }, 1, name); }
  int getUniquePropertyCode(const std::string& n, int c) { return env.call(id, "upc", { c }, 70 + id, n); }
  bool createPropertySet(const std::string& n, int c) { return env.call(id, "cps", { c }, 1, n); }
  size_t setVecProperty(int c, Property::Type, VecFunc*, int f) { return env.call(id, "svp", { c, f }, 80 + id); }
  void registerFields(DataExporter&) { env.call(id, "regf"); }
  bool setInitialConditions() { return env.call(id, "ic"); }
  bool hasIC(const std::string& n) const { return env.call(id, "hasic", {}, 1, n); }
  Vector* getField(const std::string& n) { return env.call(id, "getf", {}, 1, n) ? &u : nullptr; }
  bool serialize(std::map<std::string,std::string>& m) { m[this->getName()] = "x"; return env.call(id, "ser", { (int)m.size() }); }
  bool deSerialize(const std::map<std::string,std::string>& m) { return env.call(id, "des", { (int)m.size() }); }
};

class SI : public SIMCoupledSI<Part,Part>
{
  Vector resid;
public:
  SI(Part& a, Part& b) : SIMCoupledSI<Part,Part>(a, b), resid(1) {}
  void setup(const std::string& xml)
  {
    tinyxml2::XMLDocument doc;
    doc.Parse(xml.c_str());
    this->parseIterations(doc.RootElement());
  }
  const Vector& getAitkenResidual() const override { return resid; }
  const Vector& getRelaxationVector() const override { return S1.u; }
  void setRelaxedSolution(const Vector& v) override { env.call(0, "relax", { q(v[0]) }); S1.u = v; }
  SIM::ConvStatus checkConvergence(const TimeStep& tp, SIM::ConvStatus a, SIM::ConvStatus b) override
  {
    resid[0] = env.pop(0, "res", 0);
    int r = this->SIMCoupledSI<Part,Part>::checkConvergence(tp, a, b);
    int o = env.pop(0, "over", -1);
    env.out->step(vf::J("call").set("s", 0).set("f", "chk").arr("a", std::vector<int>{ a, b, (int)resid[0], r }).set("n", "").set("r", o < 0 ? r : o));
    return (SIM::ConvStatus)(o < 0 ? r : o);
  }
};

using Pair = SIMCoupled<Part,Part>;
using Nest = SIMCoupled<Pair,Part>;

struct Driver
{
  TimeStep tp;
  virtual ~Driver() = default;
  virtual bool has(const std::string& f) = 0;
  virtual void op(const std::string& f, vf::In& in) = 0;
  void done(const char* f, int ok, const std::vector<int>& x = {}, const std::string& n = "")
  { env.out->step(vf::J("ret").set("f", f).set("ok", ok).arr("x", x).set("n", n)); }
  void start(const std::string& f, const std::vector<int>& a = {}, const std::string& n = "")
  { env.out->step(vf::J("do").set("f", f).arr("a", a).set("n", n)); }
};

template<class C> struct Coupled : Driver
{
  std::vector<std::unique_ptr<Part>> p;
  std::unique_ptr<Pair> in;
  std::unique_ptr<C> c;
  ~Coupled() override
  {
    this->start("end");
    c.reset();
    in.reset();
    this->done("end", 1);
  }
  bool has(const std::string&) override { return true; }
  int which(const void* v) { for (auto& x : p) if (v == &x->u) return x->id; return 0; }
  void op(const std::string& f, vf::In& s) override
  {
    std::map<std::string,std::string> m;
    if (f == "pre") { this->start(f); bool ok = c->preprocess(); this->done("pre", ok); }
    else if (f == "adv") { this->start(f); bool ok = c->advanceStep(tp); this->done("adv", ok); }
    else if (f == "init") { this->start(f); bool ok = c->init(tp); this->done("init", ok); }
    else if (f == "ic") { this->start(f); bool ok = c->setInitialConditions(); this->done("ic", ok); }
    else if (f == "ser") { this->start(f); bool ok = c->serialize(m); this->done("ser", ok, { (int)m.size() }); }
    else if (f == "des") { this->start(f); bool ok = c->deSerialize(m); this->done("des", ok); }
    else if (f == "save") { this->start(f); int b = 5; bool ok = c->saveStep(tp, b); this->done("save", ok, { b }); }
    else if (f == "model") { this->start(f); int g = 3, b = 5; char n[4] = "m"; bool ok = c->saveModel(n, g, b); this->done("model", ok, { g, b, (int)((size_t)c->getVTF() / 16) }); }
    else if (f == "solve") {
      int first = s.num();
      this->start(f, { first });
      tp.time.first = true;
      bool ok = c->solveStep(tp, first != 0);
      this->done("solve", ok, { tp.iter, tp.time.first });
    }
    else if (f == "stag") { int b = s.num(); this->start(f, { b }); c->enableStaggering(b != 0); this->done("stag", 1); }
    else if (f == "dep3") { int k = s.num(), n = s.num(); this->start(f, { k, n }, "a"); c->registerDependency(&p[k-1]->dep, "a", n); this->done("dep3", 1); }
    else if (f == "dep6") {
      int k = s.num(), n = s.num(), np = s.num(), d = s.num(), cm = s.num();
      this->start(f, { k, n, np, d, cm }, "b");
      c->registerDependency(&p[k-1]->dep, "b", n, std::vector<ASMbase*>(np, nullptr), d, cm);
      this->done("dep6", 1);
    }
    else if (f == "regf") { this->start(f); DataExporter e(true); c->registerFields(e); this->done("regf", 1); }
    else if (f == "hasic") { this->start(f, {}, "i"); bool ok = c->hasIC("i"); this->done("hasic", ok); }
    else if (f == "getf") { this->start(f, {}, "g"); Vector* v = c->getField("g"); this->done("getf", this->which(v)); }
    else if (f == "upc") { int a = s.num(); this->start(f, { a }, "s"); int r = c->getUniquePropertyCode("s", a); this->done("upc", r); }
    else if (f == "cps") { int a = s.num(); this->start(f, { a }, "s"); int r = c->createPropertySet("s", a); this->done("cps", r); }
    else if (f == "svp") { int a = s.num(), b = s.num(); this->start(f, { a, b }, ""); int r = c->setVecProperty(a, Property::NEUMANN, nullptr, b); this->done("svp", r); }
    else if (f == "name") { int k = s.num(); this->start(f, { k }); std::string n = c->getName(k); this->done("name", c->getRefined(), {}, n); }
    else { std::cerr << f <<": unknown\n"; _exit(96); }
  }
};

class Plane
{
public:
  struct SetupProps {};
  static std::vector<Plane*> all;
  static int base;
  int id;
  SIMoptions opt;
  ProcessAdm adm;
  Vector u;
  DataExporter* exp = nullptr;
  explicit Plane(const SetupProps&) : u(1) { id = ++base; all.push_back(this); }
  void clearProblem() { env.call(id, "clear"); }
  const ProcessAdm& getProcessAdm() const { return adm; }
  bool preprocess() { return env.call(id, "pre"); }
  int getNoNodes() const { return 10 + id; }
  bool advanceStep(TimeStep& tp) { return env.call(id, "adv", { tp.step }); }
  bool init(const TimeStep& tp) { return env.call(id, "init", { tp.step }); }
  bool solveStep(TimeStep& tp) { return env.call(id, "solve", { tp.step }); }
  bool setInitialConditions() { return env.call(id, "ic"); }
  void initSystem() { env.call(id, "sys"); }
  void setupDependencies() { env.call(id, "setdep"); }
  bool updateALE() { return env.call(id, "ale"); }
  std::vector<ASMbase*> getFEModel() { return std::vector<ASMbase*>(id, nullptr); }
  void registerDependency(Plane* s, const std::string& n, short int nvc) { env.call(id, "dep3", { s->id, nvc }, 1, n); }
  void registerDependency(Plane* s, const std::string& n, short int nvc, const std::vector<ASMbase*>& p, char d, int c)
  { env.call(id, "dep6", { s->id, nvc, (int)p.size(), d, c }, 1, n); }
  void registerFields(DataExporter& e);
};
std::vector<Plane*> Plane::all;
int Plane::base = 0;

class PlaneWriter : public DataWriter
{
  int id;
public:
  PlaneWriter(int i, const ProcessAdm& adm) : DataWriter("rec", adm), id(i) {}
  int getLastTimeLevel() override { return -1; }
  void openFile(int) override {}
  void closeFile(int) override {}
  void writeVector(int l, const DataEntry&) override { env.call(id, "dump", { l }); }
  void writeSIM(int, double, const DataEntry&, bool, const std::string&) override {}
  void writeNodalForces(int, const DataEntry&) override {}
  void writeKnotspan(int, const DataEntry&, const std::string&) override {}
  void writeBasis(int, const DataEntry&, const std::string&) override {}
  bool writeTimeInfo(int, double) override { return true; }
  bool writeLog(const std::string&, const std::string&) override { return true; }
};

void Plane::registerFields(DataExporter& e)
{
  exp = &e;
  e.registerField("u", "u", DataExporter::VECTOR);
  e.setFieldValue("u", &u);
  e.registerWriter(new PlaneWriter(id, adm));
  env.call(id, "regf");
}

struct Semi : Driver
{
  std::unique_ptr<SIMSemi3D<Plane>> a, b;
  std::string file;
  bool reg = false;
  Semi(int np, const std::string& f) : file(f)
  {
    { std::ofstream os(f + ".xinp"); os <<"<simulation><semi3d nplanes=\""<< np <<"\"/></simulation>"; }
    Plane::SetupProps pr;
    a.reset(new SIMSemi3D<Plane>(pr));
    b.reset(new SIMSemi3D<Plane>(pr));
    Plane::base = 0;
    if (!a->read((f + ".xinp").c_str())) _exit(95);
    Plane::base = 10;
    if (!b->read((f + ".xinp").c_str())) _exit(95);
    for (Plane* p : Plane::all) p->adm.cout.setNull();
  }
  ~Semi() override
  {
    for (DataExporter* e : plane_exporters) delete e;
    plane_exporters.clear();
    this->start("end");
    a.reset();
    this->done("end", 1);
    b.release();
    unlink((file + ".xinp").c_str());
    for (int i = 1; i < 9; i++) unlink((file + "_plane" + std::to_string(i) + ".hdf5").c_str());
  }
  bool has(const std::string&) override { return true; }
  void op(const std::string& f, vf::In& s) override
  {
    if (f == "pre") {
      this->start(f);
      bool ok = a->preprocess();
      std::vector<int> n;
      if (ok) for (size_t i = 0; i < a->getNoPlanes(); i++) n.push_back(a->getPlaneNodes(i));
      this->done("pre", ok, n);
    }
    else if (f == "adv") { this->start(f); bool ok = a->advanceStep(tp); this->done("adv", ok); }
    else if (f == "init") { this->start(f); bool ok = a->init(tp); this->done("init", ok); }
    else if (f == "ic") { this->start(f); bool ok = a->setInitialConditions(); this->done("ic", ok); }
    else if (f == "solve") { s.num(); this->start(f, { 1 }); bool ok = a->solveStep(tp); this->done("solve", ok, { 0, 0 }); }
    else if (f == "ale") { this->start(f); bool ok = a->updateALE(); this->done("ale", ok); }
    else if (f == "sys") { this->start(f); a->initSystem(); this->done("sys", 1); }
    else if (f == "setdep") { this->start(f); a->setupDependencies(); this->done("setdep", 1); }
    else if (f == "dep3") { int n = s.num(); this->start(f, { n }, "a"); a->registerDependency(b.get(), "a", n, SIMdependency::PatchVec()); this->done("dep3", 1); }
    else if (f == "dep6") { int n = s.num(), d = s.num(), c = s.num(); this->start(f, { n, d, c }, "b"); a->registerDependency(b.get(), "b", n, SIMdependency::PatchVec(), d, c); this->done("dep6", 1); }
    else if (f == "regf") {
      if (reg) return;
      reg = true;
      DataExporter e(true);
      PlaneWriter w(0, Plane::all[0]->adm);
      this->start(f);
      struct Named : DataWriter { using DataWriter::DataWriter; };
      e.registerWriter(new NamedWriter(file, Plane::all[0]->adm));
      a->registerFields(e);
      this->done("regf", 1);
    }
    else if (f == "null") { // the results of a plane are undefined
      int k = s.num(), on = s.num();
      Plane* p = Plane::all[k-1];
      if (!p->exp) return;
      p->exp->setFieldValue("u", on ? nullptr : &p->u);
      this->start(f, { k, on });
      this->done("null", 1);
    }
    else if (f == "save") { this->start(f); int n = 5; bool ok = a->saveStep(tp, n); this->done("save", ok, { n }); }
    else { std::cerr << f <<": unknown\n"; _exit(96); }
  }
  class NamedWriter : public PlaneWriter
  {
  public:
    NamedWriter(const std::string& n, const ProcessAdm& adm) : PlaneWriter(0, adm) { m_name = n + ".hdf5"; }
  };
};

//! Simulators which use each others' fields.
class Sim : public SIMdependency
{
public:
  int id;
  PatchVec model;
  explicit Sim(int i) : id(i) {}
  size_t getNoSpaceDim() const override { return 2; }
  std::string getName() const override { return "S" + std::to_string(id); }
  bool extract(IntegrandBase* p, size_t k) { return this->extractPatchDependencies(p, model, k); }
};

class Itg : public IntegrandBase
{
public:
  std::map<std::string,Vector> v;
  std::map<std::string,int> made;
  Itg() : IntegrandBase(2) {}
  void add(const std::string& n) { this->registerVector(n, &v[n]); }
  void setNamedField(const std::string& n, Field*) override { made[n] = created; }
  void setNamedFields(const std::string& n, Fields*) override { made[n] = created; }
};

static void dependencies(vf::In& in, vf::Out& out)
{
  static const int madof[] = { 1, 2, 4, 5, 5, 7, 8 };
  std::vector<RealArray> store(5);
  std::vector<std::unique_ptr<FakeASM>> patch;
  std::vector<std::unique_ptr<Sim>> sim;
  std::vector<Itg> itg(3);
  static const IntVec nodes[] = { { 1, 3, 2 }, { 4, 2 }, { 6, 5, 1, 4 } };
  static const int nf[] = { 1, 2, 1 };
  for (int i = 0; i < 3; i++) {
    patch.emplace_back(new FakeASM(nf[i]));
    patch.back()->setTopology(nodes[i], {}, {});
    sim.emplace_back(new Sim(i+1));
  }
  for (int i = 0; i < 3; i++)
    for (int k = 0; k < 3; k++)
      sim[i]->model.push_back(patch[(i+k)%3].get());
  auto obs = [](const std::vector<double>* v) { if (!v) return std::string("[-1]"); std::vector<int> r; for (double x : *v) r.push_back(vf::q(x)); return vf::ilist(r); };
  while (in.more())
  {
    std::string f = in.tok();
    int s = in.num();
    if (f == "val") {
      int n = in.num();
      store[s].clear();
      std::vector<int> x;
      for (int i = 0; i < n; i++) { x.push_back(in.num()); store[s].push_back(x.back()); }
      out.step(vf::J("val").set("v", s).arr("x", x));
      continue;
    }
    std::string n = in.tok();
    Sim& S = *sim[s-1];
    if (f == "field") { int v = in.num(); S.registerField(n, store[v]); out.step(vf::J("field").set("s", s).set("n", n).set("v", v)); }
    else if (f == "vec") { itg[s-1].add(n); out.step(vf::J("vec").set("s", s).set("n", n)); }
    else if (f == "dep") {
      int on = in.num(), nvc = in.num(), mode = in.num(), np = in.num(), diff = 0, comp = 1;
      SIMdependency::PatchVec p;
      std::vector<int> pi;
      for (int i = 0; i < np; i++) { pi.push_back(in.num()); p.push_back(patch[pi.back()-1].get()); }
      if (mode == 1) { diff = in.num(); comp = in.num(); S.registerDependency(sim[on-1].get(), n, nvc, p, (char)diff, comp); }
      else if (mode == 2) S.registerDependency(sim[on-1].get(), n, nvc, p, madof);
      else { pi.clear(); S.registerDependency(sim[on-1].get(), n, nvc); }
      out.step(vf::J("dep").set("s", s).set("n", n).set("on", on).set("nvc", nvc).set("mode", mode).arr("p", pi).set("diff", diff).set("comp", comp));
    }
    else if (f == "getf") { const Sim& C = S; bool cst = in.num(); out.step(vf::J("getf").set("s", s).set("n", n).raw("x", obs(cst ? C.getField(n) : S.getField(n)))); }
    else if (f == "depf") out.step(vf::J("depf").set("s", s).set("n", n).raw("x", obs(S.getDependentField(n))));
    else if (f == "fill") {
      int k = in.num();
      RealArray v;
      std::vector<int> x;
      for (int i = 0; i < k; i++) { x.push_back(in.num()); v.push_back(x.back()); }
      bool ok = S.fillField(n, v);
      out.step(vf::J("fill").set("s", s).set("n", n).arr("x", x).set("ok", ok));
    }
    else if (f == "dpat") {
      int k = in.num(), r = 0;
      ASMbase* p = S.getDependentPatch(n, k);
      for (int i = 0; i < 3; i++) if (p == patch[i].get()) r = i+1;
      out.step(vf::J("dpat").set("s", s).set("n", n).set("k", k).set("r", p && !r ? -1 : r));
    }
    else if (f == "ext") {
      int k = in.num();
      for (auto& v : itg[s-1].v) v.second = RealArray(1, -7.0);
      itg[s-1].made.clear();
      bool ok = S.extract(&itg[s-1], k);
      std::vector<std::string> l;
      for (auto& v : itg[s-1].v)
        l.push_back(vf::J().set("n", v.first).raw("x", obs(&static_cast<const RealArray&>(v.second))).set("m", itg[s-1].made.count(v.first) ? itg[s-1].made[v.first] : 0).str());
      out.step(vf::J("ext").set("s", s).set("n", n).set("k", k).set("ok", ok).raw("v", vf::list(l)));
    }
    else { std::cerr << f <<": unknown\n"; _exit(96); }
  }
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  env.out = &out;
  env.script.clear();
  std::string kind = in.tok();
  if (kind == "dep") {
    out.begin(id, vf::J().set("kind", kind).str());
    out.step(vf::J("begin"));
    dependencies(in, out);
    return;
  }
  std::unique_ptr<Driver> d;
  vf::J cfg;
  cfg.set("kind", kind);
  if (kind == "semi") {
    int np = in.num();
    cfg.set("np", np);
    d.reset(new Semi(np, std::string(getenv("VF_SCRATCH")) + "/cp" + id));
  }
  else {
    auto parts = [](int n) { std::vector<std::unique_ptr<Part>> p; for (int i = 1; i <= n; i++) p.emplace_back(new Part(i)); return p; };
    if (kind == "c") {
      Coupled<Pair>* c = new Coupled<Pair>;
      c->p = parts(2);
      c->c.reset(new Pair(*c->p[0], *c->p[1]));
      d.reset(c);
    }
    else if (kind == "n") {
      Coupled<Nest>* c = new Coupled<Nest>;
      c->p = parts(3);
      c->in.reset(new Pair(*c->p[0], *c->p[1]));
      c->c.reset(new Nest(*c->in, *c->p[2]));
      d.reset(c);
    }
    else {
      Coupled<SI>* c = new Coupled<SI>;
      c->p = parts(2);
      c->c.reset(new SI(*c->p[0], *c->p[1]));
      d.reset(c);
      for (int k = 0; k < 2; k++) {
        Part& p = *c->p[k];
        p.dep.registerField("u" + std::to_string(k+1), p.u);
        p.partner = "u" + std::to_string(2-k);
        p.dep.registerDependency(&c->p[1-k]->dep, p.partner, 1);
      }
      int mode = in.num(), n = in.num(), om = in.num(), ait = in.num();
      std::ostringstream x;
      x <<"<subiterations";
      if (mode == 1) x <<" max=\""<< n <<"\"";
      else if (mode == 2) x <<" max=\""<< n <<"*t\"";
      else if (mode == 3) x <<" maxFunc=\"t+"<< n <<"\"";
      x.precision(17);
      if (om) x << (n % 2 ? " relax=\"" : " omega=\"") << om/64.0 <<"\"";
      if (ait) x <<" aitken=\"true\"";
      x <<"/>";
      c->c->setup(x.str());
      cfg.set("mode", mode).set("n", n).set("om", om).set("ait", ait != 0);
    }
  }
  out.begin(id, cfg.str());
  out.step(vf::J("begin"));
  while (in.more())
  {
    std::string f = in.tok();
    if (f == "res") {
      int s = in.num();
      std::string nm = in.tok();
      int n = in.num();
      for (int i = 0; i < n; i++) env.script[{s, nm}].push_back(in.num());
    }
    else if (f == "step") {
      d->tp.step = in.num();
      d->tp.stopTime = in.num();
      out.step(vf::J("step").set("n", d->tp.step));
    }
    else
      d->op(f, in);
  }
  d.reset();
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
