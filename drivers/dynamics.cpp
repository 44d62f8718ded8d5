// The time integrators (Newmark, nonlinear Newmark, HHT, generalized-alpha) on a damped oscillator with two degrees of freedom.
#include "mocksim.h"
#include "NewmarkSIM.h"
#include "NewmarkNLSIM.h"
#include "HHTSIM.h"
#include "GenAlphaSIM.h"
#include "HHTMats.h"
#include "tinyxml2.h"
#include <memory>

struct Prob
{
  char scheme;
  double M[3], C[3], K[3], K3, a1, a2; //!< symmetric 2x2 matrices (11,12,22), cubic stiffness, Rayleigh damping
  int load;                            //!< where the load is put: 0: residual, 1: separate element vector, 2: nodal load vector
};

static double q5(double x) { return x; }
static int fx(double v) { return std::fabs(v) <= 1000.0 ? (int)std::lround(q5(v) * 1.0e5) : vf::BAD; }
static std::string vec5(const RealArray& v) { std::vector<int> x; for (double y : v) x.push_back(fx(y)); return vf::ilist(x); }
static std::string state(const Vectors& s, size_t i = 0)
{
  std::vector<std::string> x;
  for (size_t k = i; k < i + 3; k++) x.push_back(vec5(s[k]));
  return vf::list(x);
}

class Osc : public SIMdummy<SIMgeneric>
{
public:
  Prob pr;
  double F[2] = {0, 0};
  MockItg* itg;
  std::vector<std::string> asmb;
  explicit Osc(MockItg* p = new MockItg) : SIMdummy<SIMgeneric>(p), itg(p) { mySam = new Sam2(); }
  static void put(Matrix& A, const double* s) { A(1,1) = s[0]; A(1,2) = A(2,1) = s[1]; A(2,2) = s[2]; }
  bool updateConfiguration(const Vector&) override { return true; }
  bool updateDirichlet(double, const Vector*, bool) override { return true; }
  bool assembleSystem(const TimeDomain& time, const Vectors& sol, bool newLHS, bool) override
  {
    myEqSys->initialize(newLHS);
    bool ok = true;
    if (myProblem->getMode() == SIM::MASS_ONLY) // initial accelerations
    {
      ElmMats elm;
      elm.resize(1, 1);
      elm.redim(2);
      put(elm.A[0], pr.M);
      elm.b[0].fill(F, 2);
      ok = myEqSys->assemble(&elm, 1);
      return ok && myEqSys->finalize(newLHS);
    }
    const double* d = sol[0].ptr();
    Vector S(2);
    S(1) = pr.K[0]*d[0] + pr.K[1]*d[1] + pr.K3*d[0]*d[0]*d[0];
    S(2) = pr.K[1]*d[0] + pr.K[2]*d[1];
    asmb.push_back("{\"it\":" + std::to_string(time.it) + ",\"s\":" + state(sol) + "}");
    const double* p = itg->prm;
    std::unique_ptr<NewmarkMats> elm;
    bool nl = pr.scheme == 'L' || pr.scheme == 'H';
    if (nl)
      elm.reset(new HHTMats(p[2], p[0], p[1], p[4] != 1.0));
    else
      elm.reset(new NewmarkMats(p[0], p[1], p[2], p[3], p[4] == 2.0));
    elm->rhsOnly = !newLHS;
    bool dmp = pr.C[0] != 0.0 || pr.C[1] != 0.0 || pr.C[2] != 0.0; // a matrix of its own only if needed
    elm->resize((nl ? 4 : 3) + dmp, nl ? 3 : 1);
    elm->redim(2);
    elm->setStepSize(time.dt, time.it);
    put(elm->A[1], pr.M);
    put(elm->A[2], pr.K);
    if (nl) elm->A[3].clear();
    if (dmp) put(elm->A.back(), pr.C);
    elm->A[2](1,1) += 3.0*pr.K3*d[0]*d[0];
    elm->b[0] = S*-1.0;
    Vector Fv(F, 2);
    if (pr.load == 0) elm->b[0].add(Fv);
    if (pr.load == 1) elm->b[2] = Fv;
    elm->vec = sol;
    ok = myEqSys->assemble(elm.get(), 1);
    if (pr.load == 2) ok &= mySam->assembleSystem(*myEqSys->getVector(2), F, 1);
    return ok && myEqSys->finalize(newLHS);
  }
};

class Nt { public: std::string x; };

struct One
{
  Osc sim;
  std::unique_ptr<NewmarkSIM> drv;
  TimeStep tp;
  bool ok = false;
  One(const Prob& p, const std::string& xml, int nsol)
  {
    sim.pr = p;
    switch (p.scheme) {
    case 'N': drv.reset(new NewmarkSIM(sim)); break;
    case 'L': drv.reset(new NewmarkNLSIM(sim)); break;
    case 'H': drv.reset(new HHTSIM(sim)); break;
    default: drv.reset(new GenAlphaSIM(sim));
    }
    tinyxml2::XMLDocument doc;
    doc.Parse(xml.c_str());
    ok = doc.RootElement() && drv->parse(doc.RootElement());
    drv->opt.solver = LinAlg::DENSE;
    drv->initPrm();
    drv->initSol(nsol);
    ok &= drv->initEqSystem(false);
    SIMadmin::msgLevel = -3;
  }
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("dynamics");
  Prob p;
  auto dec = [&in]() { return in.num() * 1.0e-4; };
  p.scheme = in.tok()[0];
  std::vector<int> M, C, K;
  for (int i = 0; i < 3; i++) { M.push_back(in.num()); p.M[i] = M.back() * 1.0e-4; }
  for (int i = 0; i < 3; i++) { C.push_back(in.num()); p.C[i] = C.back() * 1.0e-4; }
  for (int i = 0; i < 3; i++) { K.push_back(in.num()); p.K[i] = K.back() * 1.0e-4; }
  int k3 = in.num(), a1 = in.num(), a2 = in.num();
  p.K3 = k3 * 1.0e-4; p.a1 = a1 * 1.0e-4; p.a2 = a2 * 1.0e-4;
  p.load = in.num();
  int nsol = in.num();
  std::string pred = in.tok();     // predictor
  int disp = in.num(), nupd = in.num(), all = in.num(), inert = in.num();
  std::string ptype = in.tok();    // beta: beta and gamma, alpha, rho
  int p1 = in.num(), p2 = in.num();
  std::ostringstream xml;
  xml <<"<newmarksolver alpha1=\""<< p.a1 <<"\" alpha2=\""<< p.a2 <<"\"";
  if (ptype == "beta") xml <<" beta=\""<< p1 * 1.0e-4 <<"\" gamma=\""<< p2 * 1.0e-4 <<"\"";
  else if (ptype == "alpha") xml <<" alpha=\""<< p1 * 1.0e-4 <<"\"";
  else if (ptype == "rho") xml <<" rho_inf=\""<< p1 * 1.0e-4 <<"\"";
  xml <<"><maxits>20</maxits><rtol>1.0e-9</rtol><dtol>1.0e10</dtol><nupdate>"<< nupd <<"</nupdate><referencenorm>"<< (all ? "all" : "max") <<"</referencenorm>";
  if (pred != "x") xml <<"<predictor>"<< (pred == "d" ? "constant displacement" : pred == "v" ? "constant velocity" : "zero acceleration") <<"</predictor>";
  if (disp) xml <<"<solve_displacement/>";
  if (inert) xml <<"<trueinertia/>";
  xml <<"</newmarksolver>";

  out.begin(id, vf::J().set("scheme", std::string(1, p.scheme)).arr("M", M).arr("C", C).arr("K", K).set("k3", k3).set("a1", a1).set("a2", a2)
                .set("load", p.load).set("nsol", nsol).set("pred", pred).set("disp", disp != 0).set("nupd", nupd).set("inert", inert != 0)
                .set("all", all != 0).set("ptype", ptype).set("p1", p1).set("p2", p2).str());
  std::unique_ptr<One> o(new One(p, xml.str(), nsol));
  out.step(vf::J("begin").set("ok", o->ok));
  while (in.more())
  {
    std::string op = in.tok();
    vf::J j(op);
    NewmarkSIM& drv = *o->drv;
    TimeStep& tp = o->tp;
    if (op == "ini") // initial displacement and velocity, load; acceleration from equilibrium or zero
    {
      Vector d(2), v(2);
      d(1) = dec(); d(2) = dec(); v(1) = dec(); v(2) = dec();
      std::vector<int> f = {in.num(), in.num()};
      o->sim.F[0] = f[0] * 1.0e-4; o->sim.F[1] = f[1] * 1.0e-4;
      bool acc = in.num();
      drv.setSolution(d, 0); drv.setSolution(v, 1);
      bool ok = !acc || drv.initAcc();
      j.arr("f", f).set("acc", acc).set("ok", ok).raw("s", state(drv.getSolutions()));
    }
    else if (op == "stp")
    {
      int dt = in.num(), nsub = in.num();
      bool ok = drv.advanceStep(tp, false);
      tp.step++;
      tp.time.dt = dt * 1.0e-4;
      tp.time.t += tp.time.dt;
      j.set("dt", dt).set("adv", ok);
      std::vector<std::string> subs;
      bool go = ok;
      for (int k = 0; k < nsub; k++)
      {
        std::vector<int> f = {in.num(), in.num()};
        if (!go) continue;
        o->sim.F[0] = f[0] * 1.0e-4; o->sim.F[1] = f[1] * 1.0e-4;
        drv.setSubIteration(nsub == 1 ? MultiStepSIM::NONE : k == 0 ? MultiStepSIM::FIRST : k + 1 < nsub ? MultiStepSIM::ITER : MultiStepSIM::LAST);
        o->sim.asmb.clear();
        SIM::ConvStatus st = drv.solveStep(tp);
        subs.push_back(vf::J().arr("f", f).set("st", name(st)).set("iter", tp.iter).raw("asm", vf::list(o->sim.asmb)).raw("s", state(drv.getSolutions())).str());
        go = st == SIM::CONVERGED;
      }
      j.raw("sub", vf::list(subs)).set("first", tp.time.first != 0);
      if (nsol >= 6 && drv.getSolutions().size() >= 6) j.raw("prev", state(drv.getSolutions(), 3));
      out.step(j);
      if (!go) return;
      continue;
    }
    else if (op == "rst") // continue in a new simulation from the restart data
    {
      std::map<std::string,std::string> data;
      bool ok = drv.serialize(data);
      ok &= tp.serialize(data);
      std::unique_ptr<One> n(new One(p, xml.str(), nsol));
      ok &= n->ok && n->drv->deSerialize(data) && n->tp.deSerialize(data);
      o = std::move(n);
      j.set("ok", ok).raw("s", state(o->drv->getSolutions())).set("step", o->tp.step);
    }
    out.step(j);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
