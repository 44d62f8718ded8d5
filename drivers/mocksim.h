// A simulator without any FE model, for the solution drivers: one node with two degrees of freedom,
// whose residual force and tangent are given by a script. It records what is requested from it.
#ifndef MOCKSIM_H
#define MOCKSIM_H
#include "vf.h"
#include "SAM.h"
#include "IntegrandBase.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "AlgEqSystem.h"
#include "ElmMats.h"
#include "TimeStep.h"
#include "Profiler.h"
#include <numeric>
#include <limits>

class Sam2 : public SAM
{
public:
  Sam2()
  {
    ndof = neq = 2;
    nmmnpc = nel = nnod = 1;
    mmnpc = new int[1]; mmnpc[0] = 1;
    mpmnpc = new int[2]; std::iota(mpmnpc, mpmnpc + 2, 1);
    madof = new int[2]; madof[0] = 1; madof[1] = 3;
    msc = new int[2]; msc[0] = msc[1] = 1;
    this->initSystemEquations();
  }
};

class MockItg : public IntegrandBase
{
public:
  double prm[5] = {0, 0, 0, 0, 0};
  bool bad = false;
  MockItg() : IntegrandBase(1) {}
  void setIntegrationPrm(unsigned short int i, double p) override { prm[i] = p; }
  double getIntegrationPrm(unsigned short int i) const override { return m_mode == SIM::DYNAMIC ? prm[i] : 0.0; }
  bool diverged(size_t) const override { return bad; }
};

struct Entry { int d, e, sg, k; };
const int ZERO = -99, INF = 98, NAN_ = 99;
const double SCALE = 4096.0;

inline double value(int e)
{
  return e == ZERO ? 0.0 : e == INF ? std::numeric_limits<double>::infinity() : e == NAN_ ? std::numeric_limits<double>::quiet_NaN() : std::ldexp(1.0, e);
}
inline int exponent(double v)
{
  if (v == 0.0) return ZERO;
  if (std::isnan(v)) return NAN_;
  if (std::isinf(v)) return INF;
  int e; double m = std::frexp(std::fabs(v), &e);
  return m == 0.5 ? e - 1 : vf::BAD;
}
inline std::string vec(const Vector& v)
{
  std::vector<int> x;
  for (double y : v) x.push_back(vf::q(y, SCALE));
  return vf::ilist(x);
}

class MockSim : public SIMdummy<SIMgeneric>
{
public:
  MockItg* itg;
  std::vector<Entry> script;
  std::vector<std::string> ev;
  int fk = 0;
  size_t used = 0;

  explicit MockSim(MockItg* p = new MockItg) : SIMdummy<SIMgeneric>(p), itg(p) { mySam = new Sam2(); }
  void load(vf::In& in)
  {
    ev.clear(); used = 0;
    fk = in.num();
    itg->bad = in.num();
    script.resize(in.num());
    for (Entry& e : script) { e.d = in.num(); e.e = in.num(); e.sg = in.num(); e.k = in.num(); }
  }
  std::string scriptJ() const
  {
    std::vector<std::string> js;
    for (const Entry& e : script) js.push_back(vf::J().set("d", e.d).set("e", e.e).set("sg", e.sg).set("k", e.k).str());
    return vf::list(js);
  }

  bool note(const std::string& s) { ev.push_back("[" + s + "]"); return (int)ev.size() != fk; }

  bool updateDirichlet(double, const Vector* prev, bool) override { return note(std::string("\"dir\",") + (prev ? "true" : "false")); }
  bool updateConfiguration(const Vector& d) override { return note("\"upd\"," + vec(d)); }
  bool assembleSystem(const TimeDomain& time, const Vectors& sol, bool newLHS, bool poor) override
  {
    const int m = myProblem->getMode();
    if (!note(std::string("\"asm\",") + (newLHS ? "true" : "false") + (poor ? ",true," : ",false,") +
              (m == SIM::STATIC ? "\"stat\"" : m == SIM::DYNAMIC ? "\"dyn\"" : m == SIM::RHS_ONLY ? "\"rhs\"" : "\"?\"") + "," + std::to_string(time.it) + "," + vec(sol.front())))
      return false;
    const Entry& e = script[std::min(used, script.size() - 1)];
    ++used;
    myEqSys->initialize(newLHS);
    ElmMats elm(newLHS);
    elm.rhsOnly = !newLHS;
    elm.resize(1, 1);
    elm.redim(2);
    elm.A.front().fill(0.0);
    elm.b.front().fill(0.0);
    elm.A.front()(1, 1) = elm.A.front()(2, 2) = value(e.k);
    elm.b.front()(e.d) = e.sg * value(e.e);
    return myEqSys->assemble(&elm, 1) && myEqSys->finalize(newLHS);
  }
};

inline const char* name(SIM::ConvStatus s)
{
  switch (s) {
  case SIM::FAILURE: return "fail";
  case SIM::DIVERGED: return "div";
  case SIM::SLOW: return "slow";
  case SIM::OK: return "ok";
  case SIM::CONVERGED: return "conv";
  }
  return "?";
}
#endif
