// The simulation drivers (SIMSolverStat, SIMSolver, SIMSolverTS, SIMSolverAdapInternal) run over a scripted solver,
// which records what it is asked to do. Several runs, which may fail, use the same output and restart files.
#include "vf.h"
#include "fake_asm.h"
#include "ASMunstruct.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "DataExporter.h"
#include "Utilities.h"
#include "SIMSolver.h"
#include "SIMSolverTS.h"
#include "SIMSolverAdap.h"
#include "Profiler.h"
#include "LogStream.h"
#include <map>
#include <memory>
#include <sys/stat.h>

static const double U = 64.0;
static int q(double v) { return vf::q(v, U); }
struct Crash {};

class MeshPatch : public FakeASM, public ASMunstruct
{
public:
  int ver;
  explicit MeshPatch(int v) : FakeASM(1, 2, 2), ver(v) {}
  Vec3 getElementCenter(int) const override { return Vec3(); }
  bool refine(const LR::RefineData&, Vectors&) override { ++ver; return true; }
  bool write(std::ostream& os, int) const override { os <<" PATCH OF THE REFINED MESH "<< ver; return true; }
};

//! The solver: its solution is one number, which depends on all steps since the start.
class S1 : public SIMdummy<SIMgeneric>
{
public:
  vf::Out* out;
  std::vector<double> sol;
  int saved = 0;
  double start = 0.0;
  std::map<std::string,int> cnt, fail; //!< calls, and which one of them fails
  std::vector<int> adapt;              //!< results of the mesh adaption
  size_t nad = 0;
  int noexp = 0, crash = 0;
  DataExporter* exp = nullptr;

  explicit S1(vf::Out* o) : SIMdummy<SIMgeneric>(nullptr), out(o), sol(1, 1.0) {}
  void firstMesh() { if (myModel.empty()) { myModel.push_back(new MeshPatch(1)); nGlPatches = 1; } }
  std::string getName() const override { return "S1"; }
  int mesh() const { return myModel.empty() ? -1 : static_cast<MeshPatch*>(myModel.front())->ver; }
  int u() const { return (int)sol[0]; }
  ASMbase* readPatch(std::istream& is, int, const CharVec&, const char*) const override
  {
    std::string s;
    for (int i = 0; i < 5; i++) is >> s;
    int v = -7;
    is >> v;
    return new MeshPatch(v);
  }
  bool call(const char* f, const std::vector<int>& a, int res = 1, int x = 0)
  {
    int k = ++cnt[f];
    if (fail.count(f) && fail[f] == k) res = 0;
    out->step(vf::J("call").set("f", f).arr("a", a).set("r", res).set("x", x));
    return res;
  }
  std::vector<int> at(const TimeStep& tp) const { return { tp.step, q(tp.time.t), q(tp.time.dt), u() }; }

  // the interface of SIMSolver
  bool saveModel(char* fn, int& geo, int& blk) { ++geo; ++blk; return call("model", { fn != nullptr, mesh() }); }
  bool saveStep(const TimeStep& tp, int&)
  {
    bool x = ++saves == noexp && exp;
    if (x) exp->setFieldValue("u", nullptr);
    std::vector<int> a = at(tp);
    a.push_back(mesh());
    return call("save", a, 1, x);
  }
  bool advanceStep(TimeStep& tp) { return call("adv", at(tp)); }
  bool solveStep(TimeStep& tp)
  {
    if (++solves == crash) throw Crash();
    sol[0] = (int)(3*sol[0] + tp.step + mesh()) % 997;
    return call("solve", at(tp));
  }
  void registerFields(DataExporter& e)
  {
    exp = &e;
    e.registerField("u", "solution", DataExporter::VECTOR);
    e.setFieldValue("u", &val);
  }
  bool serialize(HDF5Restart::SerializeData& data)
  {
    if (!call("ser", { u() })) return false;
    data["S1"] = std::to_string(u());
    return this->saveBasis(data);
  }
  bool deSerialize(const HDF5Restart::SerializeData& data)
  {
    HDF5Restart::SerializeData::const_iterator it = data.find("S1");
    if (it == data.end() || !call("deser", { atoi(it->second.c_str()) })) return false;
    sol[0] = atoi(it->second.c_str());
    return true;
  }
  // for time-slab adaptivity
  bool preRefine(int mx, int n, double) { bool ok = call("prefine", { mx, n }); if (ok) newMesh(); return ok; }
  bool initialRefine(double, double, int mx) { bool ok = call("irefine", { mx }); if (ok) newMesh(); return ok; }
  void newMesh() { LR::RefineData prm; if (!this->refine(prm)) std::abort(); }
  bool parsePreref(const tinyxml2::XMLElement*) { return true; }
  void saveState() { saved = u(); call("sstate", { u() }); }
  void restoreState() { sol[0] = saved; call("rstate", { u() }); }
  void enableStaggering(bool on) { call("stag", { on }); }
  bool stopped() const { return false; }
  bool dumpMesh(const char*) { return call("dump", {}); }
  int adaptMesh(double, double, int)
  {
    int r = nad < adapt.size() ? adapt[nad++] : 0;
    if (r > 0) { newMesh(); sol[0] = saved; }
    call("adapt", {}, r);
    return r;
  }
  // for internal adaptivity
  bool initAdapPrm() { return call("init", {}); }
  bool adaptMesh(int i) { int r = nad < adapt.size() ? adapt[nad++] > 0 : 0; return call("adapti", { i }, r); }
  bool solveStep(char* fn, int i) { return call("solvei", { fn != nullptr, i }); }
  bool projectNorms(int i) { return call("norms", { i }); }
  bool saveElmNorms(int i, int&) { return call("enorm", { i }); }
  bool saveProjections(int i, int&) { return call("proj", { i }); }

  int saves = 0, solves = 0;
  utl::vector<double> val;
};

class Recorder : public DataWriter
{
  S1& s;
public:
  Recorder(const ProcessAdm& adm, S1& s1) : DataWriter("rec", adm), s(s1) {}
  int getLastTimeLevel() override { return -1; }
  void openFile(int) override {}
  void closeFile(int) override {}
  void writeVector(int l, const DataEntry&) override { s.call("export", { l, s.u() }); }
  void writeSIM(int, double, const DataEntry&, bool, const std::string&) override {}
  void writeNodalForces(int, const DataEntry&) override {}
  void writeKnotspan(int, const DataEntry&, const std::string&) override {}
  void writeBasis(int, const DataEntry&, const std::string&) override {}
  bool writeTimeInfo(int, double) override { return true; }
  bool writeLog(const std::string&, const std::string&) override { return true; }
};

template<class D> class Open : public D
{
public:
  explicit Open(S1& s) : D(s) {}
  void record(S1& s) { if (this->exporter) this->exporter->registerWriter(new Recorder(s.getProcessAdm(), s)); }
};

struct Run
{
  std::string kind, xml, file;
  int save, rst, from, rbad;
};

template<class D> constexpr bool isTS = std::is_base_of<SIMSolverTS<S1>,D>::value;
template<class D> constexpr bool isTransient = std::is_base_of<SIMSolver<S1>,D>::value;

template<class D> static void go(S1& s, const Run& r, vf::Out& out)
{
  std::string xf = r.file + ".xinp";
  { std::ofstream os(xf); os << r.xml; }
  const int bad = -99;
  if constexpr (isTS<D>)
    if (r.from >= 0) {
      int rb = s.restartBasis(r.file + "_restart", r.from - 1);
      out.step(vf::J("basis").set("ok", rb >= 0).set("mesh", s.mesh() < 0 ? 1 : s.mesh()).set("nref", s.getRefined()));
      if (rb < 0) return;
    }
  s.firstMesh();
  Open<D> drv(s);
  bool ok = drv.read(xf.c_str());
  if constexpr (isTransient<D>) {
    out.step(vf::J("read").set("ok", ok).set("multi", drv.getTimePrm().multiSteps()));
    if (!ok) return;
    if (r.from >= 0) {
      int k = drv.restart(r.file + "_restart", r.from);
      out.step(vf::J("restart").set("ok", k >= 0).arr("a", s.at(drv.getTimePrm())));
      if (k < 0) return;
    }
    std::string f = r.rbad ? r.file + "_bad" : r.file;
    if (r.rbad) mkdir((f + "_restart.hdf5").c_str(), 0700);
    if (r.save > 0) { drv.handleDataOutput(f, s.getProcessAdm(), r.save, r.rst); drv.record(s); }
  }
  else {
    out.step(vf::J("read").set("ok", ok).set("multi", false));
    if (!ok) return;
    if (r.save > 0) { drv.handleDataOutput(r.file, s.getProcessAdm(), r.save); drv.record(s); }
  }
  char name[8] = "model";
  int ret = bad;
  try { ret = drv.solveProblem(name, nullptr); }
  catch (const Crash&) { out.step(vf::J("killed").set("k", s.solves)); return; }
  out.step(vf::J("end").set("r", ret));
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("simsolver");
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  SIMadmin::msgLevel = -3;
  std::string file = std::string(getenv("VF_SCRATCH")) + "/ss" + id;
  Run r;
  r.file = file;
  r.kind = in.tok(); // stat, sol, ts, adi
  // time stepping
  int start = in.num(), nseg = in.num(), prev = start;
  std::ostringstream x;
  x <<"<simulation><timestepping maxStep=\"";
  int maxStep = in.num();
  x << maxStep <<"\"";
  std::vector<std::string> segs;
  int stop = 0, dt0 = 0;
  x.precision(17);
  if (nseg == 0) {
    stop = in.num(); dt0 = in.num();
    x <<" start=\""<< start/U <<"\" end=\""<< stop/U <<"\" dt=\""<< dt0/U <<"\">";
  }
  else
    x <<">";
  for (int i = 0; i < nseg; i++) {
    int e = in.num(), n = in.num();
    std::vector<int> d;
    x <<"<step start=\""<< prev/U <<"\" end=\""<< e/U <<"\">";
    for (int k = 0; k < n; k++) { d.push_back(in.num()); x << (k ? " " : "") << d.back()/U; }
    x <<"</step>";
    segs.push_back(vf::J().arr("d", d).set("e", e).str());
    prev = e;
  }
  x <<"</timestepping>";
  int div = in.num();
  if (div) x <<"<postprocessing><savediverged/></postprocessing>";
  // time-slab adaptivity
  int fwd = in.num(), prd = in.num(), mxp = in.num(), mxr = in.num(), pre = in.num(), aSt = in.num();
  if (r.kind == "ts") {
    x <<"<adaptive start=\""<< aSt/U <<"\"><forward_steps>"<< fwd <<"</forward_steps><predict_steps>"<< prd <<"</predict_steps><max_prediction>"
      << mxp <<"</max_prediction><nrefinements>"<< mxr <<"</nrefinements>";
    if (pre) x <<"<prerefine>"<< pre <<"</prerefine>";
    x <<"</adaptive>";
  }
  x <<"</simulation>";
  r.xml = x.str();
  out.begin(id, vf::J().set("kind", r.kind).set("start", start).raw("segs", vf::list(segs)).set("stop", stop).set("dt0", dt0).set("maxStep", maxStep)
                .set("div", div != 0).set("fwd", fwd).set("prd", prd).set("mxp", mxp).set("mxr", mxr).set("pre", pre).set("aStart", aSt).str());
  out.step(vf::J("begin"));
  while (in.more())
  {
    in.tok(); // run
    r.save = in.num(); r.rst = in.num(); r.from = in.num(); r.rbad = in.num();
    S1 s(&out);
    std::string ff = in.tok();
    int fk = in.num();
    if (ff == "noexp") s.noexp = fk;
    else if (ff == "crash") s.crash = fk;
    else if (ff != "-") s.fail[ff] = fk;
    int na = in.num();
    for (int i = 0; i < na; i++) s.adapt.push_back(in.num());
    out.step(vf::J("run").set("save", r.save).set("rst", r.save > 0 ? r.rst : 0).set("from", r.from).set("rbad", r.rbad != 0));
    if (r.kind == "stat") go<SIMSolverStat<S1>>(s, r, out);
    else if (r.kind == "sol") go<SIMSolver<S1>>(s, r, out);
    else if (r.kind == "ts") go<SIMSolverTS<S1>>(s, r, out);
    else go<SIMSolverAdapInternal<S1>>(s, r, out);
  }
  for (const char* e : { ".hdf5", "_restart.hdf5", "_bad.hdf5", ".xinp" }) unlink((file + e).c_str());
  rmdir((file + "_bad_restart.hdf5").c_str());
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
