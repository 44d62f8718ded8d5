// The integrators of first-order systems: explicit and embedded Runge-Kutta, explicit and implicit multi-step methods, backward differences.
// Each evaluation of the right-hand side of u' = f is a unit vector of its own, so the solution shows which evaluations are combined, and how.
#include "mocksim.h"
#include "Utilities.h"
#include "SIMExplicitRK.h"
#include "SIMExplicitRKE.h"
#include "SIMExplicitLMM.h"
#include "SIMImplicitLMM.h"
#include "BDF.h"
#include "BDFMats.h"
#include "SIMsolution.h"
#include "SystemMatrix.h"
#include "tinyxml2.h"
#include <map>
#include <memory>

const int NH = 6, NE = 90, N = 1 + NH + NE; // prescribed value, initial solutions, evaluations
const double QUANT = 1024.0;
static double D = 1.0;
static double G(double t) { return 2.0*t + 3.0; }
static std::string quanta(double t) { return std::to_string(vf::qt(t, QUANT)); }
static std::string combination(const Vector& v)
{
  if (v.size() != (size_t)N) return "\"bc\":" + std::to_string(vf::BAD) + ",\"h\":0,\"k\":[]";
  int h = 0;
  for (int j = 1; j <= NH; j++)
    if (v[j] != 0.0) h = h == 0 && std::fabs(v[j] - 1.0) < 1.0e-12 ? j : vf::BAD;
  std::vector<int> k;
  for (int j = 1 + NH; j < N; j++) {
    double x = v[j] * QUANT / 104.0 * D, r = std::nearbyint(x);
    k.push_back(std::fabs(x) > 1.9e9 || (D < 1.0e6 && std::fabs(x - r) > 1.0e-6) ? vf::BAD : (int)r);
  }
  while (!k.empty() && k.back() == 0) k.pop_back();
  return "\"bc\":" + quanta(v[0]) + ",\"h\":" + std::to_string(h) + ",\"k\":" + vf::ilist(k);
}
static Vector initial(int j, double bc) { Vector v(N); v[j] = 1.0; v[0] = bc; return v; }

//! What is observed, and the faults injected
struct Log
{
  std::vector<std::string> ev, err;
  std::vector<int> ests;
  size_t iest = 0;
  int calls = 0, fk = 0, nev = 0;
  bool hit = false;
  void start(int f, const std::vector<int>& e) { ev.clear(); err.clear(); ests = e; iest = 0; calls = 0; fk = f; hit = false; }
  bool call() { if (++calls == fk) hit = true; return calls != fk; }
  void eval(double t, const Vector& u, double cv, bool nw)
  {
    ev.push_back("{\"t\":" + quanta(t) + "," + combination(u) + ",\"cv\":" + quanta(cv) + ",\"new\":" + (nw ? "true}" : "false}"));
  }
  int symbol() { if (nev >= NE) _exit(97); return 1 + NH + nev++; }
};

static bool store(std::map<std::string,std::string>& d, const Vectors& s)
{
  for (size_t i = 0; i < s.size(); i++)
    d["mock" + std::to_string(i)] = std::string((const char*)s[i].ptr(), N*sizeof(double));
  return true;
}
static bool fetch(const std::map<std::string,std::string>& d, Vectors& s)
{
  for (size_t i = 0; i < s.size(); i++) {
    auto it = d.find("mock" + std::to_string(i));
    if (it == d.end()) return false;
    memcpy(s[i].ptr(), it->second.data(), N*sizeof(double));
  }
  return true;
}

//! A simulator for the explicit methods
class Ex
{
  struct Prob { std::string getField1Name(int) const { return "u"; } };
  ProcessAdm adm;
  Prob prob;
  SIM::SolutionMode mode = SIM::DYNAMIC;
  int lhs = 0;         // 0: none, 1: assembled, 2: zero
  double cv = 0.0;     // prescribed value, or its increment
  StdVector rhs;
public:
  static int msgLevel;
  Log& log;
  Vectors sol;
  int ics;
  Ex(Log& l, int ns, int nic, double dt) : log(l), sol(ns), ics(nic)
  {
    for (int j = 0; j < ns; j++) sol[j] = initial(j + 1, G(-j*dt));
  }
  const ProcessAdm& getProcessAdm() const { return adm; }
  void setMode(int m, bool = false) { mode = (SIM::SolutionMode)m; }
  bool updateDirichlet(double time, const Vector* prev, bool tangent = false)
  {
    if (!log.call()) return false;
    if (!prev) cv = 0.0;
    else if (tangent) cv = 2.0;
    else cv = prev->empty() ? G(time) : G(time) - (*prev)[0];
    return true;
  }
  bool initDirichlet(double time) { Vector dummy; return this->updateDirichlet(time, &dummy); }
  bool applyDirichlet(Vector& v) { if (!log.call()) return false; v[0] = cv; return true; }
  Vector& getSolution(int i = 0) { return sol[i]; }
  bool assembleSystem(const TimeDomain& time, const Vectors& s, bool newLHS = true)
  {
    if (!log.call()) return false;
    log.eval(time.t, s.front(), cv, newLHS);
    if (newLHS) lhs = mode == SIM::RHS_ONLY ? 2 : 1;
    rhs.resize(N);
    rhs.init();
    rhs(log.symbol() + 1) = 1.0;
    return true;
  }
  bool solveSystem(Vector& v)
  {
    if (!log.call() || lhs != 1) return false;
    v = rhs;
    v[0] = cv;
    return true;
  }
  SystemVector* getRHSvector(size_t, bool copy) { return copy ? rhs.copy() : &rhs; }
  void addToRHSvector(size_t, const SystemVector& v, double s) { rhs.add(v, s); }
  bool hasIC(const std::string& n) const { return n.substr(0, 2) == "fi" && atoi(n.c_str() + 5) <= ics; }
  void printSolutionSummary(const Vector&, int, const char*) {}
  Prob* getProblem() { return &prob; }
  size_t getNoFields(int) const { return 1; }
  double solutionNorms(const Vector& e, double*, size_t*, size_t)
  {
    log.err.push_back("{" + combination(e) + "}");
    int x = log.iest < log.ests.size() ? log.ests[log.iest] : -99;
    ++log.iest;
    return x == -99 ? 0.0 : std::ldexp(1.0e-3, x);
  }
  bool advanceStep(TimeStep&) { for (size_t j = sol.size() - 1; j > 0; j--) sol[j] = sol[j-1]; return true; }
  bool saveModel(char*, int&, int&) { return true; }
  bool saveStep(const TimeStep&, int&) { return true; }
  void registerFields(DataExporter&) {}
  bool serialize(std::map<std::string,std::string>& d) { return store(d, sol); }
  bool deSerialize(const std::map<std::string,std::string>& d) { return fetch(d, sol); }
};
int Ex::msgLevel = 0;

class SamN : public SAM
{
public:
  explicit SamN(int n)
  {
    ndof = neq = n;
    nmmnpc = nel = nnod = 1;
    mmnpc = new int[1]; mmnpc[0] = 1;
    mpmnpc = new int[2]; std::iota(mpmnpc, mpmnpc + 2, 1);
    madof = new int[2]; madof[0] = 1; madof[1] = n + 1;
    msc = new int[n]; std::fill(msc, msc + n, 1);
    this->initSystemEquations();
  }
};

//! A simulator for the implicit methods
class Im : public SIMdummy<SIMgeneric>, public SIMsolution
{
  double scale = 1.0;
  std::map<int,int> sym; // evaluation per time
public:
  Log& log;
  int ics;
  std::vector<std::string> bad;
  Im(Log& l, int ns, int nic) : SIMdummy<SIMgeneric>(new MockItg), log(l), ics(nic)
  {
    mySam = new SamN(N);
    this->initSystem(LinAlg::DENSE, 1, 1);
    this->initSolution(N, ns);
    for (int j = 0; j < ns; j++) solution[j] = initial(j + 1, 0.0);
  }
  void setTimeScale(double s) { scale = s; }
  bool hasIC(const std::string& n) const override { return n.substr(0, 2) == "fi" && atoi(n.c_str() + 5) <= ics; }
  bool updateDirichlet(double, const Vector*, bool) override { return log.call(); }
  bool updateConfiguration(const Vector&) override { return true; }
  bool assembleSystem(const TimeDomain& time, const Vectors& s, bool newLHS = true, bool = false) override
  {
    if (!log.call()) return false;
    int key = vf::qt(time.t, QUANT);
    if (s.size() == 1) log.eval(time.t, s.front(), 0.0, newLHS);
    if (sym.find(key) == sym.end()) sym[key] = log.symbol();
    const bool rhsOnly = myProblem->getMode() == SIM::RHS_ONLY;
    ElmMats elm(newLHS);
    elm.rhsOnly = rhsOnly || !newLHS;
    elm.resize(1, 1);
    elm.redim(N);
    elm.A.front().fill(0.0);
    elm.b.front().fill(0.0);
    if (!rhsOnly) elm.A.front().diag(1.0, N);
    elm.b.front()[sym[key]] = scale;
    if (s.size() > 1)
      for (int j = 0; j < N; j++) elm.b.front()[j] -= s[0][j] - s[1][j];
    myEqSys->initialize(newLHS);
    return myEqSys->assemble(&elm, 1) && myEqSys->finalize(newLHS);
  }
  Vector& getSolution(int i = 0) { return solution[i]; }
  bool advanceStep(TimeStep&) { this->pushSolution(); return true; }
  bool saveModel(char*, int&, int&) { return true; }
  bool saveStep(const TimeStep&, int&) { return true; }
  void registerFields(DataExporter&) {}
  bool serialize(std::map<std::string,std::string>& d) { return store(d, solution); }
  bool deSerialize(const std::map<std::string,std::string>& d) { return fetch(d, solution); }
};

static Vectors& sols(Ex& s) { return s.sol; }
static Vectors& sols(Im& s) { return s.theSolutions(); }

template<class Sim, class Stepper> static void history(vf::In& in, vf::Out& out, Log& log, TimeStep& tp,
                                                       const std::function<Sim*()>& sim, const std::function<Stepper*(Sim&)>& make)
{
  std::unique_ptr<Sim> s(sim());
  std::unique_ptr<Stepper> x(make(*s));
  bool alive = true;
  while (in.more() && alive) {
    if (in.tok() == "R") {
      std::map<std::string,std::string> data;
      bool ok = x->serialize(data);
      x.reset();
      s.reset(sim());
      for (Vector& v : sols(*s)) v.fill(7.0);
      x.reset(make(*s));
      ok &= x->deSerialize(data);
      out.step(vf::J("restart").set("ok", ok));
      continue;
    }
    int fk = in.num();
    std::vector<int> ests(in.num());
    for (int& e : ests) e = in.num();
    log.start(fk, ests);
    bool ok = tp.increment() && x->advanceStep(tp);
    std::vector<std::string> ics;
    ics.swap(log.ev);
    if (ok) ok = x->solveStep(tp);
    out.step(vf::J("step").set("ok", ok).set("hit", log.hit).arr("ests", ests).raw("ics", vf::list(ics)).raw("ev", vf::list(log.ev))
             .raw("err", vf::list(log.err)).raw("t", quanta(tp.time.t)).set("dt", vf::qt(tp.time.dt, QUANT/104.0)).raw("u", "{" + combination(sols(*s).front()) + "}"));
    alive = ok;
  }
  x.reset();
  out.step(vf::J("end"));
}

static void bdf(vf::In& in, vf::Out& out, const std::string& id)
{
  int degree = in.num(), order = in.num(), first = in.num();
  bool args = in.num();
  out.begin(id, vf::J().set("kind", "bdf").set("degree", degree).set("order", order).set("first", first).str());
  out.step(vf::J("begin"));
  std::unique_ptr<TimeIntegration::BDF> b;
  TimeIntegration::BDFD2* d2 = nullptr;
  if (degree == 2) b.reset(d2 = first > 0 ? new TimeIntegration::BDFD2(order, first) : new TimeIntegration::BDFD2(order));
  else if (first == 0) b.reset(new TimeIntegration::BDF(order));
  while (in.more()) {
    int dt = in.num(), dtn = in.num();
    if (!args) dt = dtn = 1;
    vf::J j("adv");
    bool ok = args ? b->advanceStep(dt/64.0, dtn/64.0) : b->advanceStep();
    j.set("ok", ok).set("dt", dt).set("dtn", dtn);
    std::vector<int> cf;
    for (double x : b->getCoefs()) cf.push_back(vf::qt(x, degree == 1 ? dtn*(dt + dtn) : 2));
    for (size_t k = 0; k < cf.size(); k++)
      if ((*b)[k] != b->getCoefs()[k]) cf[k] = vf::BAD;
    std::vector<int> v = {in.num(), in.num()};
    j.arr("cf", cf).set("ord", b->getOrder()).set("act", b->getActualOrder()).set("deg", (int)b->getDegree());
    j.arr("v", v).set("ext", b->extrapolate(v));
    if (d2) { // an element
      int h = in.num();
      std::vector<int> M(4), K(4), r(2);
      std::vector<std::string> vec(4);
      BDFMats elm(*d2);
      elm.resize(3, 1);
      elm.redim(2);
      elm.vec.resize(4);
      for (int k = 0; k < 4; k++) elm.A[1](1 + k/2, 1 + k%2) = M[k] = in.num();
      for (int k = 0; k < 4; k++) elm.A[2](1 + k/2, 1 + k%2) = K[k] = in.num();
      for (int k = 0; k < 2; k++) elm.b[0][k] = r[k] = in.num();
      for (int k = 0; k < 4; k++) {
        std::vector<int> x = {in.num(), in.num()};
        elm.vec[k].resize(2);
        elm.vec[k][0] = x[0]; elm.vec[k][1] = x[1];
        vec[k] = vf::ilist(x);
      }
      elm.setStepSize(1.0/h, 1);
      const ElmMats& el = elm;
      const Matrix& A = el.getNewtonMatrix();
      std::vector<int> n, R;
      for (int k = 0; k < 4; k++) n.push_back(vf::qt(A(1 + k/2, 1 + k%2), 2));
      for (double x : el.getRHSVector()) R.push_back(vf::qt(x, 2));
      j.set("h", h).arr("M", M).arr("K", K).arr("b", r).raw("vec", vf::list(vec)).arr("N", n).arr("R", R);
    }
    out.step(j);
  }
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("steppers");
  using namespace TimeIntegration;
  std::string kind = in.tok();
  if (kind == "bdf") return bdf(in, out, id);
  if (kind == "names") {
    out.begin(id, vf::J().set("kind", "names").str());
    out.step(vf::J("begin"));
    vf::J ids, os;
    while (in.more()) {
      std::string n = in.tok();
      Method m = TimeIntegration::get(n);
      std::vector<int> x = {Order(m), Steps(m)};
      ids.set(n.c_str(), (int)m - (int)NONE);
      os.arr(n.c_str(), x);
    }
    out.step(vf::J("names").raw("id", "{" + ids.str().substr(1)).raw("os", "{" + os.str().substr(1)));
    return;
  }
  std::string meth = in.tok();
  int lin = in.num(), dt = in.num(), dtmin = in.num(), ics = in.num();
  bool alone = in.num();
  out.begin(id, vf::J().set("kind", kind).set("meth", meth).set("lin", (bool)lin).set("dt", dt).set("dtmin", dtmin).set("ics", ics).set("alone", alone).str());
  out.step(vf::J("begin"));
  Log log;
  Method m = TimeIntegration::get(meth);
  const std::map<std::string,double> den = {{"euler",1},{"heun",2},{"rk3",6},{"rk4",6},{"heuneuler",2},{"bs",72},{"fehlberg",1e7}};
  D = den.count(meth) ? den.at(meth) : 720.0;
  TimeStep tp;
  const double h = dt*104.0/QUANT;
  tinyxml2::XMLDocument doc;
  char xml[300];
  sprintf(xml, "<timestepping start=\"0\" end=\"10000\" dt=\"%.12g\" dtMin=\"%.12g\" dtMax=\"%.12g\" f1=\"1\" f2=\"0.5\"/>", h, dtmin*104.0/QUANT, dtmin*104.0/QUANT);
  doc.Parse(xml);
  tp.parse(doc.RootElement());
  int ns = (meth.substr(0, 2) == "ab" || meth.substr(0, 2) == "am" ? meth[2] - '0' : 1) + 1;
  std::function<Ex*()> ex = [&]() { return new Ex(log, ns, ics, h); };
  if (kind == "rk")
    history<Ex, SIMExplicitRK<Ex>>(in, out, log, tp, ex, [&](Ex& s) { auto* x = new SIMExplicitRK<Ex>(s, m, alone); x->setLinear(lin); return x; });
  else if (kind == "rke")
    history<Ex, SIMExplicitRKE<Ex>>(in, out, log, tp, ex, [&](Ex& s) { auto* x = new SIMExplicitRKE<Ex>(s, m, 1.0e-3); x->setLinear(lin); return x; });
  else if (kind == "ab")
    history<Ex, SIMExplicitLMM<Ex>>(in, out, log, tp, ex, [&](Ex& s) { auto* x = new SIMExplicitLMM<Ex>(s, m, alone, "field"); x->setLinear(lin); return x; });
  else
    history<Im, SIMImplicitLMM<Im>>(in, out, log, tp, [&]() { return new Im(log, ns, ics); }, [&](Im& s) { return new SIMImplicitLMM<Im>(s, m, alone, "field"); });
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
