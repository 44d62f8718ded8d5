// Adaptive mesh refinement. "mark": AdaptiveSetup decides which elements to refine, from given norms.
// "run": the adaptive drivers (SIMSolverAdapImpl over AdaptiveSIM and AdaptiveISolver) run on a chain of elements with
// given errors, which are halved when an element is split; any step may fail.
#include "vf.h"
#include "fake_asm.h"
#include "ASMunstruct.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "SAMpatch.h"
#include "AlgEqSystem.h"
#include "ElmMats.h"
#include "ElmNorm.h"
#include "IntegrandBase.h"
#include "DataExporter.h"
#include "Utilities.h"
#include "SIMSolverAdap.h"
#include "Profiler.h"
#include "LogStream.h"
#include "tinyxml2.h"
#include <limits>
#include <memory>

static vf::Out* OUT = nullptr;
static int NF = 0, FK = 0;
static bool fallible() { return ++NF != FK; }
static std::vector<int> ints(const std::vector<double>& v) { std::vector<int> r; for (double x : v) r.push_back(vf::q(x, 1.0)); return r; }

struct El { double a, b, d; };
struct Mesh { std::vector<El> e; double U = 0, X = 0; };

class Patch : public FakeASM, public ASMunstruct
{
public:
  Mesh* mesh;
  const char* kind = "";
  explicit Patch(Mesh* m) : FakeASM(1, 1, 1), mesh(m) { this->number(m->e.size()); }
  void number(size_t ne)
  {
    IntVec nodes, ids;
    std::vector<IntVec> elms;
    for (size_t i = 0; i <= ne; i++) nodes.push_back(1+i);
    for (size_t i = 0; i < ne; i++) { elms.push_back({(int)i, (int)i+1}); ids.push_back(1+i); }
    this->setTopology(nodes, elms, ids);
  }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  void getNoIntPoints(size_t&, size_t&) override {}
  //! A function has the errors of the elements of its support
  void remapErrors(RealArray& errors, const RealArray& orig, bool elm) const override
  {
    if (elm)
      for (size_t i = 0; i < errors.size(); i++) errors[i] = 2*orig[i];
    else
      for (size_t i = 0; i < orig.size(); i++) { errors[i] += orig[i]; errors[i+1] += orig[i]; }
  }
  bool refine(const LR::RefineData& prm, Vectors& sol) override
  {
    bool ok = fallible();
    std::vector<std::string> s;
    for (const Vector& v : sol) s.push_back(vf::ilist(ints(v)));
    OUT->step(vf::J("refine").arr("el", prm.elements).arr("opt", prm.options).arr("er", ints(prm.errors)).raw("sol", vf::list(s)).set("r", ok));
    if (!ok) return false;
    std::vector<char> cut(mesh->e.size(), 0);
    for (int i : prm.elements)
      if (prm.options[2] < 2) cut[i] = 1;
      else
      {
        if (i > 0) cut[i-1] = 1;
        if (i < (int)cut.size()) cut[i] = 1;
      }
    if (!prm.errors.empty()) cut[0] = 1;
    std::vector<El> e;
    for (size_t i = 0; i < cut.size(); i++)
      if (cut[i])
        for (int k = 0; k < 2; k++) e.push_back({mesh->e[i].a/2, mesh->e[i].b/2, mesh->e[i].d/2});
      else
        e.push_back(mesh->e[i]);
    mesh->e = e;
    for (Vector& v : sol)
    {
      double x = v.empty() ? 0.0 : v[0];
      v.resize(mesh->e.size()+1);
      v.fill(x+100);
    }
    return true;
  }
  bool integrate(Integrand& itg, GlobalIntegral& glb, const TimeDomain&) override;
};

class Norms : public NormBase
{
public:
  int np; bool ana, none;
  Norms(IntegrandBase& p, int n, bool a, bool z) : NormBase(p), np(n), ana(a), none(z) {}
  bool has(int p) { return !this->getProjection(p-1).empty() || (p == 1 && none); }
  bool dual() const { const Vector& s = myProblem.getSolution(); return !s.empty() && s[0] < 0.0; }
  size_t getNoFields(int g) const override { return g == 0 ? 1+np : g > 1+np ? 0 : g == 1 && ana ? 4 : 2; }
};

class Prob : public IntegrandBase
{
public:
  int np = 0; bool ana = false, none = false;
  Prob() : IntegrandBase(1) { primsol.resize(1); }
  NormBase* getNormIntegrand(AnaSol*) const override { return new Norms(const_cast<Prob&>(*this), np, ana, none); }
  size_t getNoFields(int f) const override { return 1; }
};

bool Patch::integrate(Integrand& itg, GlobalIntegral& glb, const TimeDomain& t)
{
  Norms* n = dynamic_cast<Norms*>(&itg);
  if (!n) return false;
  bool ok = fallible(), dual = n->dual();
  std::vector<int> pr;
  for (int p = 1; p <= n->np; p++) pr.push_back(n->getProjection(p-1).empty() ? -1 : vf::q(n->getProjection(p-1)[0], 1.0));
  OUT->step(vf::J("norms").set("dual", dual).set("np", nel).arr("pr", pr).set("r", ok));
  if (!ok) return false;
  for (size_t i = 1; i <= nel; i++)
  {
    const El& e = mesh->e[i-1];
    LocalIntegral* l = n->getLocalIntegral(2, i, false);
    ElmNorm& v = static_cast<ElmNorm&>(*l);
    size_t k = 0;
    auto put = [&v,&k](double x) { v[k++] += x*x; };
    double a = dual ? e.d : e.a;
    put(i == 1 ? mesh->U : 0.0);
    put(0.0);
    if (n->ana) { put(i == 1 ? mesh->X : 0.0); put(dual ? e.d : e.b); }
    for (int p = 1; p <= n->np; p++)
      if (n->has(p)) { put(p*e.b); put(p*a); }
    if (!glb.assemble(l, i)) return false;
    l->destruct();
  }
  return true;
}

class Model : public SIMdummy<SIMgeneric>
{
public:
  Mesh mesh;
  Prob* prob;
  bool ana = false, dual = false, iso = false;
  int step = 0, nrc = 0;
  double ref = 0;
  bool refSet = false;
  Vectors isol;
  const Vector* sol = nullptr;

  Model() : SIMdummy<SIMgeneric>(new Prob) { prob = static_cast<Prob*>(myProblem); opt.solver = LinAlg::DENSE; opt.format = -1; }
  void patches(int n)
  {
    for (int i = 0; i < n; i++) { myModel.push_back(new Patch(&mesh)); myModel.back()->idx = i; }
    nGlPatches = n;
  }
  void setup()
  {
    static_cast<Patch*>(myModel.front())->number(mesh.e.size());
    delete mySam;
    SAMpatch* sam = new SAMpatch;
    mySam = sam;
    sam->init(myModel, mesh.e.size()+1, {});
  }
  bool haveAnaSol() const override { return ana; }
  bool haveDualSol() const override { return dual; }
  size_t getNoRHS() const override { return dual ? 2 : 1; }
  double getReferenceNorm(const Vectors& g, size_t a) const override { return refSet ? ref : this->SIMgeneric::getReferenceNorm(g, a); }
  void printNorms(const Vectors&, size_t) const override {}
  double externalEnergy(const Vectors&, const TimeDomain&) const override { return 0.0; }
  void clearProperties() override { OUT->step(vf::J("clear")); }
  bool read(const char* f) override { bool ok = fallible(); OUT->step(vf::J("read").set("f", f ? f : "").set("r", ok)); return ok; }
  bool preprocess(const IntVec&, bool) override
  {
    bool ok = fallible();
    OUT->step(vf::J("pre").set("r", ok));
    if (ok) this->setup();
    return ok;
  }
  bool assembleSystem(const TimeDomain&, const Vectors&, bool newLHS, bool) override
  {
    bool ok = fallible();
    OUT->step(vf::J("asm").set("n", mySam->getNoNodes()).set("r", ok));
    if (!ok) return false;
    bool nan = !fallible();
    OUT->step(vf::J("nan").set("r", !nan));
    myEqSys->initialize(newLHS);
    for (size_t i = 0; i < mesh.e.size(); i++)
    {
      ElmMats elm(newLHS);
      elm.resize(1, this->getNoRHS());
      elm.redim(2);
      elm.A.front().fill(0.0);
      elm.A.front()(1,1) = elm.A.front()(2,2) = 1.0;
      for (size_t j = 0; j < elm.b.size(); j++)
        elm.b[j].fill(nan && i == 0 ? std::numeric_limits<double>::quiet_NaN() : (j == 0 ? step : -step));
      if (!myEqSys->assemble(&elm, 1+i)) return false;
    }
    return myEqSys->finalize(newLHS);
  }
  bool solveSystem(Vector& s, int p, double* rc, const char* n, size_t i) override
  {
    bool ok = this->SIMdummy<SIMgeneric>::solveSystem(s, p, rc, n, i);
    if (rc) *rc = 1.0/nrc;
    return ok;
  }
  bool project(Matrix& ssol, const Vector& psol, SIMoptions::ProjectionMethod m, const TimeDomain&) const override
  {
    bool ok = fallible();
    OUT->step(vf::J("proj").set("m", (int)m).arr("x", ints(psol)).set("r", ok));
    if (!ok) return false;
    ssol.resize(1, psol.size());
    for (size_t i = 0; i < psol.size(); i++) ssol(1,1+i) = psol[i]*10;
    return true;
  }
  bool project(Matrix& ssol, const Vector& psol, SIMoptions::ProjectionMethod m = SIMoptions::GLOBAL) const { return this->project(ssol, psol, m, TimeDomain()); }

  // the interface of SIMSolver
  void setSol(const Vector* s) { sol = s; }
  bool saveModel(char*, int&, int&) { return false; }
  bool saveStep(const TimeStep&, int&) { return false; }
  void registerFields(DataExporter&) {}
  // for AdaptiveISolver
  bool init(const TimeStep&)
  {
    isol.assign(1, Vector(mySam->getNoNodes()));
    OUT->step(vf::J("isinit").set("n", mySam->getNoNodes()));
    return true;
  }
  void setSolution(const RealArray& s, int i)
  {
    OUT->step(vf::J("isset").set("i", i).arr("x", ints(s)));
    isol[i] = Vector(s);
  }
  bool solveStep(TimeStep&)
  {
    bool ok = fallible();
    OUT->step(vf::J("isolve").arr("x", ints(isol.front())).set("r", ok));
    for (double& v : isol.front()) v = step;
    return ok;
  }
  const Vectors& getSolutions() const { return isol; }
  bool savePoints(double, int k) const { bool ok = fallible(); OUT->step(vf::J("points").set("k", k).set("r", ok)); return ok; }
};

template<class T> class Adap : public T
{
  Model& m;
public:
  template<class S> Adap(S& s, bool sa) : T(s, sa), m(s) {}
  bool initAdaptor(size_t g = 0)
  {
    bool ok = this->T::initAdaptor(g);
    OUT->step(vf::J("prm").set("ok", ok).set("adaptor", ok ? this->adaptor : 0).set("norm", ok ? this->adNorm : 0).set("row", ok ? this->eRow : 0));
    return ok;
  }
  bool adaptMesh(int i)
  {
    bool r = this->T::adaptMesh(i);
    OUT->step(vf::J("adapted").set("k", i).set("r", r));
    return r;
  }
  bool solveStep(char* f, int i)
  {
    m.step = i;
    bool r = this->T::solveStep(f, i);
    OUT->step(vf::J("solved").set("k", i).set("r", r));
    return r;
  }
  bool writeGlv(const char* f, int i)
  {
    bool r = this->T::writeGlv(f, i) && fallible();
    OUT->step(vf::J("glv").set("k", i).set("r", r));
    return r;
  }
};

class Writer : public DataWriter
{
  const Model& m;
public:
  Writer(const Model& mod, const ProcessAdm& a) : DataWriter("x", a), m(mod) {}
  int getLastTimeLevel() override { return -1; }
  void openFile(int) override {}
  void closeFile(int) override {}
  void writeVector(int, const DataEntry&) override {}
  void writeSIM(int level, double, const DataEntry& e, bool geo, const std::string&) override
  {
    const std::vector<const void*>& d = e.second.data2;
    const Vector* s = static_cast<const Vector*>(d[0]);
    const Vectors* p = static_cast<const Vectors*>(d[1]);
    const Matrix* en = static_cast<const Matrix*>(d[2]);
    std::vector<int> ps;
    for (const Vector& v : *p) ps.push_back(v.empty() ? -1 : vf::q(v[0], 1.0));
    OUT->step(vf::J("dump").set("lev", level).set("geo", geo).arr("x", ints(*s)).arr("pr", ps)
              .set("ne", en->cols()).set("same", s == m.sol && e.second.data == &m));
  }
  void writeNodalForces(int, const DataEntry&) override {}
  void writeKnotspan(int, const DataEntry&, const std::string&) override {}
  void writeBasis(int, const DataEntry&, const std::string&) override {}
  bool writeTimeInfo(int, double) override { return true; }
  bool writeLog(const std::string&, const std::string&) override { return true; }
};

template<class D> class Open : public D
{
public:
  explicit Open(Model& m) : D(m) {}
  void exporter_(Model& m, bool miss)
  {
    this->exporter = new DataExporter(true);
    this->exporter->registerWriter(new Writer(m, m.getProcessAdm()));
    this->exporter->registerField("u", "solution", DataExporter::SIM);
    if (miss) this->exporter->registerField("v", "nothing", DataExporter::VECTOR);
  }
  bool config(const std::string& xml, const std::string& flat)
  {
    if (!flat.empty())
    {
      std::istringstream is(flat);
      char kw[] = "ADAPTIVE 1";
      return this->aSim.parse(kw, is);
    }
    tinyxml2::XMLDocument doc;
    doc.Parse(xml.c_str());
    return this->parse(doc.RootElement());
  }
};

class Mark : public AdaptiveSetup
{
public:
  Mark(SIMoutput& s) : AdaptiveSetup(s) {}
  int calc(LR::RefineData& prm, int it, const Vectors& g, const Vector& x, int dofs, int nrc, int ad, int no)
  {
    adaptor = ad;
    adNorm = no;
    rCond = 1.0/nrc;
    return this->calcRefinement(prm, it, g, x, dofs);
  }
};

static std::string qs(int v) { std::ostringstream os; os << 0.25*v; return os.str(); }

template<class D> static void run(Model& m, const std::string& xml, const std::string& flat, bool miss, bool exp)
{
  Open<D> drv(m);
  if (exp) drv.exporter_(m, miss);
  OUT->step(vf::J("parsed").set("r", drv.config(xml, flat)));
  char inp[] = "model.xinp";
  int code = drv.solveProblem(inp);
  OUT->step(vf::J("ret").set("code", code));
}

static void go(vf::In& in, vf::Out& out, const std::string& id)
{
  OUT = &out;
  NF = FK = 0;
  utl::profiler = new Profiler("x");
  IFEM::getOptions().format = -1;
  Model m;
  m.prob->np = 0;
  std::string kind = in.tok();
  // configuration
  int n = in.num();
  std::string xml = "<adaptive>", flat;
  std::vector<std::string> xs;
  for (int i = 0; i < n; i++)
  {
    std::string k = in.tok();
    vf::J j;
    j.set("n", k);
    if (k == "flat")
    {
      int c = in.num();
      std::vector<int> v;
      for (int l = 0; l < c; l++) { v.push_back(in.num()); flat += (l ? " " : "") + (l < 2 ? qs(v.back()) : std::to_string(v.back())); }
      flat += "\n";
      j.arr("l", v);
    }
    else if (k == "beta")
    {
      int v = in.num(); std::string type = in.tok(); int eps = in.num(), fn = in.num();
      xml += "<beta";
      if (type != "-") xml += " type=\"" + type + "\"";
      if (eps >= 0) xml += " eps=\"" + qs(eps) + "\"";
      if (fn) xml += " functype=\"expression\"";
      xml += ">" + (fn ? "t*" + qs(v) : qs(v)) + "</beta>";
      j.set("v", v).set("type", type).set("eps", eps).set("fn", fn);
    }
    else if (k == "scheme")
    {
      std::string v = in.tok(); int tj = in.num(), asp = in.num(), gap = in.num();
      xml += "<scheme";
      if (tj >= 0) xml += " maxTjoints=\"" + std::to_string(tj) + "\"";
      if (asp >= 0) xml += " maxAspectRatio=\"" + qs(asp) + "\"";
      if (gap >= 0) xml += " closeGaps=\"" + std::string(gap ? "true" : "false") + "\"";
      xml += ">" + v + "</scheme>";
      j.set("v", v).set("tj", tj).set("asp", asp).set("gap", gap);
    }
    else if (k == "use_norm")
    {
      int v = in.num(), ix = in.num();
      xml += "<use_norm" + (ix >= 0 ? " index=\"" + std::to_string(ix) + "\"" : "") + ">" + std::to_string(v) + "</use_norm>";
      j.set("v", v).set("ix", ix);
    }
    else if (k == "test_linear_independence") xml += "<" + k + "/>";
    else
    {
      int v = in.num();
      xml += "<" + k + ">" + (k == "errtol" ? qs(v) : std::to_string(v)) + "</" + k + ">";
      j.set("v", v);
    }
    xs.push_back(j.str());
  }
  xml += "</adaptive>";
  if (!flat.empty()) xml = "";
  m.ana = in.num();
  vf::J cfg;
  cfg.set("kind", kind).raw("x", vf::list(xs)).set("ana", m.ana);
  if (kind == "mark")
  {
    int np = in.num();
    m.patches(np);
    m.refSet = true;
    out.begin(id, cfg.set("np", np).str());
    out.step(vf::J("begin"));
    Mark mk(m);
    {
      bool ok;
      if (flat.empty())
      {
        tinyxml2::XMLDocument doc;
        doc.Parse(xml.c_str());
        ok = mk.parse(doc.RootElement());
      }
      else
      {
        std::istringstream is(flat);
        char kw[] = "ADAPTIVE 1";
        ok = mk.parse(kw, is);
      }
      out.step(vf::J("parsed").set("r", ok));
    }
    while (in.more())
    {
      int it = in.num(), ref = in.num(), dofs = in.num(), nrc = in.num(), ad = in.num(), no = in.num(), ng = in.num();
      m.ref = ref;
      Vectors g(ng);
      std::vector<std::string> gs;
      for (int i = 0; i < ng; i++)
      {
        std::vector<int> w;
        for (int k = 0; k < 4; k++) { int x = in.num(); w.push_back(x); g[i].push_back(0.25*x); }
        gs.push_back(vf::ilist(w));
      }
      int ne = in.num();
      std::vector<int> x;
      Vector e;
      for (int i = 0; i < ne; i++) { x.push_back(in.num()); e.push_back(x.back()); }
      m.mesh.e.assign(ne, {0, 0, 0});
      if (np > 0) static_cast<Patch*>(m.getPatch(1))->number(ne);
      LR::RefineData prm;
      prm.elements = {1, 2}; prm.errors = {1.0}; prm.options = {7};
      int r = mk.calc(prm, it, g, e, dofs, nrc, ad, no);
      out.step(vf::J("calc").set("it", it).set("ref", ref).set("dofs", dofs).set("nrc", nrc).set("ad", ad).set("no", no).raw("g", vf::list(gs)).arr("x", x)
               .set("r", r).arr("el", prm.elements).arr("opt", prm.options).arr("er", ints(prm.errors)));
    }
    return;
  }
  m.dual = in.num();
  m.nrc = in.num();
  bool transfer = in.num(), exp = in.num(), miss = in.num();
  FK = in.num();
  int none = in.num(), np = in.num();
  m.prob->ana = m.ana;
  m.prob->np = none + np;
  m.prob->none = none;
  if (none) m.opt.project[SIMoptions::NONE] = "residuals";
  for (int i = 0; i < np; i++) m.opt.project[(SIMoptions::ProjectionMethod)(1+i)] = "projection";
  m.mesh.U = in.num(); m.mesh.X = in.num();
  int ne = in.num();
  std::vector<std::string> js;
  for (int i = 0; i < ne; i++)
  {
    int a = in.num(), b = in.num(), d = in.num();
    m.mesh.e.push_back({(double)a, (double)b, (double)d});
    js.push_back(vf::J().set("a", a).set("b", b).set("d", d).str());
  }
  m.patches(1);
  m.setup();
  out.begin(id, cfg.set("dual", m.dual).set("nrc", m.nrc).set("transfer", transfer).set("exp", exp).set("miss", miss).set("fk", FK).set("none", none).set("proj", np)
                .set("U", (int)m.mesh.U).set("X", (int)m.mesh.X).raw("e", vf::list(js)).str());
  out.step(vf::J("begin"));
  if (kind == "run") run<SIMSolverAdapImpl<Model,Adap<AdaptiveSIM>>>(m, xml, flat, miss, exp);
  else if (transfer) run<SIMSolverAdapImpl<Model,Adap<AdaptiveISolver<Model,true>>>>(m, xml, flat, miss, exp);
  else run<SIMSolverAdapImpl<Model,Adap<AdaptiveISolver<Model>>>>(m, xml, flat, miss, exp);
}

int main(int argc, char** argv) { return vf::drive(argc, argv, go); }
