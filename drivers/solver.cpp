// The equilibrium iterations of NonLinSIM and NewmarkSIM, with scripted residuals and tangents.
#include "mocksim.h"
#include "NonLinSIM.h"
#include "NewmarkSIM.h"
#include "tinyxml2.h"
#include <sstream>
#include <memory>

struct Cfg { char kind; std::string norm; int all, ini, maxit, maxIncr, nupdat, rt, at, dl, eta, src; };

static std::string num(double x) { char b[40]; snprintf(b,40,"%.17g",x); return b; }
static bool feed(SIMadmin& drv, const std::string& xml)
{
  tinyxml2::XMLDocument doc;
  doc.Parse(xml.c_str());
  return doc.RootElement() && drv.parse(doc.RootElement());
}
// How the settings are made: 0: directly, 1: text input, 2 and 3: XML input (only what differs from the default)
static std::string children(const Cfg& c, bool nl)
{
  std::ostringstream s;
  bool def = c.src == 3;
  if (!def || c.maxit != 20) s <<"<maxits>"<< c.maxit <<"</maxits>";
  if (!def || c.maxIncr != 2) s <<"<maxIncr value='"<< c.maxIncr <<"'/>";
  s <<"<rtol>"<< num(value(-c.rt)) <<"</rtol>";
  if (!def || c.at != ZERO) s <<"<atol>"<< num(value(c.at)) <<"</atol>";
  s <<"<dtol>"<< num(value(c.dl)) <<"</dtol>";
  if (!def || c.nupdat != (nl && c.norm == "upt" ? 0 : 20)) s <<"<nupdate>"<< c.nupdat <<"</nupdate>";
  if (!def || c.all) s <<"<referencenorm>"<< (c.all ? "ALL" : "max") <<"</referencenorm>";
  static const std::map<std::string,std::string> names{{"res","residual"},{"dis","displacement"},{"ene","energy"},{"none","none"}};
  auto it = names.find(c.norm);
  if (it != names.end()) s <<"<convnorm>"<< it->second <<"</convnorm>";
  return s.str();
}

class NL : public NonLinSIM
{
public:
  NL(SIMbase& s, const Cfg& c) : NonLinSIM(s, c.norm == "none" && c.src < 2 ? NONE : c.norm == "upt" ? NONE_UPTAN : c.src > 1 ? (c.norm == "res" ? ENERGY : L2) : c.norm == "res" ? L2 : c.norm == "dis" ? L2SOL : ENERGY)
  {
    if (c.src) { configure(s,c); return; }
    maxit = c.maxit; maxIncr = c.maxIncr; nupdat = c.nupdat;
    rTol = value(-c.rt); aTol = value(c.at); divgLim = value(c.dl);
    eta = c.eta == ZERO ? 0.0 : value(-c.eta);
    refNopt = c.all ? ALL : MAX;
    fromIni = c.ini;
  }

  void configure(SIMbase& s, const Cfg& c)
  {
    if (c.src == 1)
    {
      std::ostringstream line;
      line << c.maxit <<" "<< num(value(-c.rt)) <<" "<< num(value(c.dl));
      if (c.nupdat != c.maxit || c.eta != ZERO) line <<" "<< c.nupdat;
      if (c.eta != ZERO) line <<" "<< num(value(-c.eta));
      std::istringstream is(line.str() + "\n");
      std::string key("nonlinear_solver");
      this->parse(key.data(),is);
      maxIncr = c.maxIncr; aTol = value(c.at);
      refNopt = c.all ? ALL : MAX; // not available in the text format
      fromIni = c.ini;
      return;
    }
    std::string xml = "<nonlinearsolver>" + children(c,true);
    if (c.eta != ZERO || c.src == 2) xml += "<eta>" + num(c.eta == ZERO ? 0.0 : value(-c.eta)) + "</eta>";
    if (c.ini && c.norm != "none") xml += "<fromZero/>";
    feed(*this,xml + "</nonlinearsolver>");
    if (!c.ini && (c.norm == "none" || c.norm == "upt")) fromIni = false;
  }
};

class NM : public NewmarkSIM
{
public:
  NM(SIMbase& s, const Cfg& c) : NewmarkSIM(s)
  {
    solveDisp = true;
    predictor = 'd';
    if (c.src)
    {
      solveDisp = false; predictor = 'a';
      std::string xml = "<newmarksolver>" + children(c,false) + "<predictor>constant displacement</predictor><solve_displacement/></newmarksolver>";
      feed(*this,xml);
      return;
    }
    cNorm = c.norm == "ene" ? 0 : c.norm == "res" ? 1 : 2;
    maxit = c.maxit; maxIncr = c.maxIncr; nupdat = c.nupdat;
    rTol = value(-c.rt); aTol = value(c.at); divgLim = value(c.dl);
    refNopt = c.all ? ALL : MAX;
  }
};

struct One
{
  MockSim sim;
  TimeStep tp;
  std::unique_ptr<MultiStepSIM> drv;
  bool nonlin;
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("solver");
  int ns = in.num();
  std::vector<std::unique_ptr<One>> s(ns);
  std::vector<std::string> js;
  bool ok = true;
  for (auto& o : s)
  {
    Cfg c;
    c.kind = in.tok()[0]; c.norm = in.tok();
    for (int* p : {&c.all, &c.ini, &c.maxit, &c.maxIncr, &c.nupdat, &c.rt, &c.at, &c.dl, &c.eta, &c.src}) *p = in.num();
    js.push_back(vf::J().set("kind", std::string(1, c.kind)).set("norm", c.norm).set("all", c.all != 0).set("ini", c.ini != 0).set("maxit", c.maxit)
                 .set("maxIncr", c.maxIncr).set("nupdat", c.nupdat).set("rt", c.rt).set("at", c.at).set("dl", c.dl).set("eta", c.eta).str());
    o.reset(new One);
    o->nonlin = c.kind == 'N';
    if (o->nonlin) o->drv.reset(new NL(o->sim, c)); else o->drv.reset(new NM(o->sim, c));
    o->drv->opt.solver = LinAlg::DENSE;
    ok &= o->drv->initEqSystem(false);
    o->drv->initSol(o->nonlin ? 1 : 3);
    o->tp.step = 1;
    o->tp.time.dt = o->tp.time.t = 1.0;
  }
  SIMadmin::msgLevel = -3; // it is set by the constructors above
  out.begin(id, vf::J().raw("s", vf::list(js)).str());
  out.step(vf::J("begin").set("ok", ok));
  while (in.more())
  {
    std::string op = in.tok();
    vf::J j(op);
    int k = in.num();
    One& o = *s[k - 1];
    j.set("k", k);
    int sub = in.num();
    o.drv->setSubIteration((MultiStepSIM::SubIt)sub);
    j.set("sub", sub);
    SIM::ConvStatus st = SIM::FAILURE;
    if (op == "ite")
    {
      o.tp.iter = in.num();
      j.set("it0", o.tp.iter);
      o.sim.load(in);
      st = o.nonlin ? static_cast<NL&>(*o.drv).solveIteration(o.tp) : static_cast<NM&>(*o.drv).solveIteration(o.tp);
    }
    else
    {
      o.sim.load(in);
      st = o.drv->solveStep(o.tp);
    }
    j.set("fk", o.sim.fk).set("div", o.sim.itg->bad).raw("script", o.sim.scriptJ());
    j.set("st", name(st)).set("iter", o.tp.iter).set("first", o.tp.time.first != 0).set("ref", exponent(*o.drv->getRefNorm()));
    j.raw("d", vec(o.drv->getSolution())).raw("ev", vf::list(o.sim.ev));
    out.step(j);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
