// Functions of time and space: built directly or parsed from text, and evaluated in any order.
// Coordinates and parameters are given in quarters, values of tables and amplitudes are integers.
#include "vf.h"
#include "Functions.h"
#include "FunctionSum.h"
#include "ExprFunctions.h"
#include "Vec3.h"
#include "Vec3Oper.h"
#include "IFEM.h"
#include "LogStream.h"
#include <memory>

static std::string DIR;
static int NFILE = 0;
static std::string qd(int v) { std::ostringstream os; os << 0.25*v; return os.str(); }
static std::string is(int v) { return std::to_string(v); }

struct Mono { int c, e[4]; };
using Poly = std::vector<Mono>;
static Poly diff(const Poly& p, int d)
{
  Poly r;
  for (Mono m : p) if (m.e[d] > 0) { m.c *= m.e[d]; --m.e[d]; r.push_back(m); }
  return r;
}
static std::string text(const Poly& p)
{
  std::string s;
  for (const Mono& m : p)
  {
    s += (s.empty() ? "(" : "+(") + is(m.c) + ")";
    for (int d = 0; d < 4; d++) for (int k = 0; k < m.e[d]; k++) s += std::string("*") + "xyzt"[d];
  }
  return s.empty() ? "0*x" : s;
}
static std::string textT(const Poly& p)
{
  std::string s = text(p);
  for (char& c : s) if (c == 'x') c = 't';
  return s;
}

struct Def
{
  char cls = 's';
  std::string json, type, word, prm; // type and parameters of the textual form
  std::shared_ptr<ScalarFunc> sf;
  std::shared_ptr<RealFunc> rf;
  std::shared_ptr<VecTimeFunc> tf;
  std::shared_ptr<VecFunc> vf;
  std::shared_ptr<FunctionSum> sum;
  ScalarFunc* s = nullptr;
  RealFunc* r = nullptr;
  bool approx = false, sine = false;
};

struct Table { std::vector<int> x; std::vector<std::vector<int>> v; std::string js; };
static Table table(vf::In& in, int nc)
{
  Table t;
  int n = in.num();
  std::vector<std::string> l;
  for (int i = 0; i < n; i++)
  {
    t.x.push_back(in.num());
    std::vector<int> v{t.x.back()};
    t.v.push_back({});
    for (int c = 0; c < nc; c++) { t.v.back().push_back(in.num()); v.push_back(t.v.back().back()); }
    l.push_back(vf::ilist(v));
  }
  t.js = vf::list(l);
  return t;
}
// the values are in column col; blank lines and comments after each line given by the bits of mess
static std::string file(const Table& t, int col, int mess)
{
  std::string name = DIR + "/f" + is(++NFILE);
  std::ofstream os(name);
  os << "# table\n";
  if (mess & 4) os << "\n";
  for (size_t i = 0; i < t.x.size(); i++)
  {
    if (col == 1) os << t.v[i][0] << " " << qd(t.x[i]) << "\n";
    else
    {
      os << qd(t.x[i]);
      for (int c = 2; c < col; c++) os << " " << 91+c;
      for (int v : t.v[i]) os << " " << v;
      os << "\n";
    }
    if (mess & 1 && i % 2 == 0) os << "\n";
    if (mess & 2 && i % 2) os << "# x\n";
  }
  if (mess & 8) os << "\n\n";
  return name;
}
static std::vector<double> quarters(const std::vector<int>& v) { std::vector<double> r; for (int x : v) r.push_back(0.25*x); return r; }

static Poly poly(vf::In& in, bool timeOnly, vf::J& j)
{
  Poly p;
  int n = in.num();
  std::vector<std::string> l;
  for (int i = 0; i < n; i++)
  {
    Mono m{in.num(), {0, 0, 0, 0}};
    if (timeOnly) m.e[3] = in.num();
    else for (int d = 0; d < 4; d++) m.e[d] = in.num();
    p.push_back(m);
    l.push_back(vf::ilist(std::vector<int>{m.c, m.e[0], m.e[1], m.e[2], m.e[3]}));
  }
  j.raw("p", vf::list(l));
  return p;
}

// scalar function; the amplitude is omitted from the textual form if noA
static Def scalar(vf::In& in, bool noA = false)
{
  Def d;
  std::string k = in.tok();
  vf::J j;
  j.set("k", k);
  if (k == "const")
  {
    int v = in.num(); j.set("v", v);
    d.s = new ConstantFunc(v); d.type = "Constant"; d.prm = is(v);
  }
  else if (k == "lin")
  {
    int v = in.num(); j.set("v", v);
    d.s = new LinearFunc(v); d.type = noA ? "Lin" : "Linear"; d.prm = noA ? "" : is(v);
  }
  else if (k == "tab")
  {
    Table t = table(in, 1);
    int sc = in.num(), col = in.num(), mess = in.num();
    j.raw("p", t.js).set("v", sc);
    if (col == 0 && !noA)
    {
      std::vector<double> v;
      for (auto& x : t.v) v.push_back(sc*x[0]);
      d.s = new LinearFunc(quarters(t.x), v);
    }
    std::string f = file(t, col ? col : 2, mess);
    if (!d.s) d.s = new LinearFunc(f.c_str(), col ? col : 2, sc);
    d.type = "PiecewiseLinear"; d.prm = f;
    if (!noA || (col && col != 2)) d.prm += " " + is(col ? col : 2);
    if (!noA && sc != 1) d.prm += " " + is(sc);
  }
  else if (k == "ramp" || k == "dirac" || k == "step")
  {
    int v = in.num(), x = in.num();
    j.set("v", v).set("x", x);
    if (k == "ramp") { d.s = new RampFunc(v, 0.25*x); d.type = "Ramp"; }
    else if (k == "dirac") { d.s = new DiracFunc(v, 0.25*x); d.type = "Dirac"; }
    else { d.s = new StepFunc(v, 0.25*x); d.type = "Step"; }
    d.prm = qd(x) + (noA ? "" : " " + is(v));
  }
  else if (k == "sin") // of n quarter-turns for each quarter, starting at the m'th
  {
    int v = in.num(), n = in.num(), m = in.num();
    j.set("v", v).set("n", n).set("m", m);
    d.s = new SineFunc(v, 2.0*M_PI*n, 0.5*M_PI*m);
    char buf[80]; snprintf(buf, 80, "%.17g %.17g %d", 2.0*M_PI*n, 0.5*M_PI*m, v);
    d.type = "sin"; d.prm = buf;
    if (v == 1 && m == 0) { snprintf(buf, 80, "%.17g", 2.0*M_PI*n); d.prm = buf; }
    d.sine = true;
  }
  else if (k == "expr")
  {
    Poly p = poly(in, true, j);
    int hd = in.num();
    j.set("hd", hd);
    EvalFunc* e = new EvalFunc(textT(p).c_str(), "t");
    if (hd) e->addDerivative(textT(diff(p, 3)), "t");
    d.s = e;
    d.approx = !hd;
    d.type = noA ? "expr" : "expression";
    d.prm = textT(p) + (hd ? ":" + textT(diff(p, 3)) : "");
  }
  else { d.type = "expression"; d.prm = "2*(t"; j.set("bad", 1); }
  d.json = j.str();
  return d;
}

// spatial function with amplitude A
static Def spatial(vf::In& in, int A, const std::string& k)
{
  Def d;
  vf::J j;
  j.set("k", k);
  std::string c = "XYZ";
  if (k == "none") { d.r = new ConstFunc(A); }
  else if (k == "lin")
  {
    int dir = in.num(), b = in.num();
    j.set("dir", dir).set("b", b);
    d.r = dir == 1 ? (RealFunc*)new LinearXFunc(A, b) : dir == 2 ? (RealFunc*)new LinearYFunc(A, b) : (RealFunc*)new LinearZFunc(A, b);
    d.type = c[dir-1]; d.prm = is(b);
  }
  else if (k == "quad")
  {
    int dir = in.num(), a = in.num(), b = in.num();
    j.set("dir", dir).set("a", a).set("b", b);
    d.r = dir == 1 ? (RealFunc*)new QuadraticXFunc(A, 0.25*a, 0.25*b) : dir == 2 ? (RealFunc*)new QuadraticYFunc(A, 0.25*a, 0.25*b) : (RealFunc*)new QuadraticZFunc(A, 0.25*a, 0.25*b);
    d.type = std::string("quad") + c[dir-1]; d.prm = qd(a) + " " + qd(b);
  }
  else if (k == "step")
  {
    int dir = in.num(), a = in.num(), b = in.num();
    j.set("dir", dir).set("a", a).set("b", b);
    d.r = new StepXFunc(A, 0.25*a, 0.25*b, c[dir-1]);
    d.type = std::string("Step") + c[dir-1]; d.prm = qd(a) + " " + qd(b);
  }
  else if (k == "xy")
  {
    int a = in.num(), b = in.num(), e = in.num(), f = in.num();
    j.arr("l", std::vector<int>{a, b, e, f});
    d.r = new StepXYFunc(A, 0.25*e, 0.25*f, 0.25*a, 0.25*b);
    d.type = "StepXY"; d.prm = qd(a) + " " + qd(b) + " t " + qd(e) + " " + qd(f);
  }
  else if (k == "xyz")
  {
    std::vector<int> l;
    for (int i = 0; i < 6; i++) l.push_back(in.num());
    j.arr("l", l);
    d.r = new StepXYZFunc(A, Vec3(0.25*l[0], 0.25*l[1], 0.25*l[2]), Vec3(0.25*l[3], 0.25*l[4], 0.25*l[5]));
  }
  else if (k == "interp")
  {
    int dir = in.num();
    Table t = table(in, 1);
    int ramp = in.num(), col = in.num(), mess = in.num();
    j.set("dir", dir).raw("p", t.js).set("ramp", ramp);
    std::string f = file(t, col ? col : 2, mess);
    std::vector<double> v;
    for (auto& x : t.v) v.push_back(A*x[0]);
    d.r = new Interpolate1D(quarters(t.x), v, dir-1, 0.25*ramp);
    d.type = "Interpolate1D"; d.prm = f + " " + is(dir-1);
    if (col && col != 2) d.prm += " c" + is(col);
    d.prm += " " + qd(ramp);
  }
  else if (k == "expr")
  {
    Poly p = poly(in, false, j);
    int hd = in.num();
    j.set("hd", hd);
    if (A != 1) for (Mono& m : p) m.c *= A;
    EvalFunction* e = hd == 3 ? nullptr : new EvalFunction(text(p).c_str());
    if (hd == 3) d.r = utl::parseExprRealFunc(text(p), true);
    else if (hd)
    {
      for (int i = 0; i < 4; i++) e->addDerivative(text(diff(p, i)), "", i+1);
      for (int i = 0; i < 3; i++) for (int l = i; l < 3; l++)
        if (hd == 1) e->addDerivative(text(diff(diff(p, i), l)), "", i+1, l+1);
        else e->addDerivative(text(diff(diff(p, i), l)), "", l+1, i+1);
    }
    if (e) d.r = e;
    d.approx = !hd;
    d.type = "expression"; d.prm = text(p);
  }
  else { d.type = "expression"; d.prm = "2*(x"; }
  d.json = j.str();
  return d;
}

static Def real(vf::In& in)
{
  // A g h, directly or from text
  int via = in.num(), A = in.num();
  Def g = spatial(in, A, in.tok());
  int time = in.num();
  if (!time && g.type == "Interpolate1D" && g.prm.size() > 2 && g.prm.substr(g.prm.size()-2) == " 0") g.prm.resize(g.prm.size()-2); // no ramp
  Def h;
  if (time) h = scalar(in, true);
  Def d;
  d.cls = 'r';
  d.approx = g.approx || h.approx;
  vf::J j;
  j.set("A", A).raw("g", g.json).raw("h", time ? h.json : vf::J().set("k", "none").str());
  d.json = j.str();
  if (!via || (g.r && g.type.empty() && g.prm.empty() && g.json.find("none") == std::string::npos))
  {
    if (!time) d.rf.reset(g.r);
    else if (!h.s) return d;
    else if (g.json.find("none") != std::string::npos && A == 1) d.rf.reset(new ConstTimeFunc(h.s));
    else d.rf.reset(new SpaceTimeFunc(g.r, h.s));
    return d;
  }
  std::string type, func;
  bool none = g.json.find("none") != std::string::npos;
  if (g.type == "expression") { type = g.type; func = g.prm; }
  else if (none && !time) { type = "constant"; func = is(A); }
  else if (none && h.type == "Lin") { type = "linear"; func = is(A); }
  else if (none) { type = h.type; func = is(A) + " " + h.prm; }
  else
  {
    type = g.type; func = is(A) + " " + g.prm;
    if (time) func += " " + h.type + (h.prm.empty() ? "" : " " + h.prm);
  }
  if (getenv("VF_VERBOSE")) std::cerr << "parse " << type << ": " << func << std::endl;
  d.rf.reset(utl::parseRealFunc(func, type, via == 2));
  return d;
}

static void go(vf::In& in, vf::Out& out, const std::string& id)
{
  DIR = std::string(getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : "/tmp") + "/fn" + id;
  if (system(("mkdir -p " + DIR).c_str())) _exit(99);
  std::vector<Def> f;
  std::vector<std::string> js;
  int n = in.num();
  for (int i = 0; i < n; i++)
  {
    std::string c = in.tok();
    Def d;
    if (c == "s")
    {
      int via = in.num();
      d = scalar(in);
      if (!via) d.sf.reset(d.s);
      else
      {
        if (getenv("VF_VERBOSE")) std::cerr << "parse " << d.type << ": " << d.prm << std::endl;
        d.sf.reset(utl::parseTimeFunc(d.prm.c_str(), d.type));
      }
    }
    else if (c == "r") d = real(in);
    else if (c == "t")
    {
      int via = in.num();
      Table t = table(in, 3);
      int col = in.num(), mess = in.num();
      std::string nm = file(t, col, mess);
      if (via) d.tf.reset(utl::parseVecTimeFunc((nm + " " + is(col)).c_str(), "PiecewiseLinear"));
      else d.tf.reset(new LinVecFunc(nm.c_str(), col));
      d.json = vf::J().raw("p", t.js).str();
    }
    else if (c == "v")
    {
      int via = in.num(), nc = in.num();
      std::vector<std::string> ps;
      std::vector<Poly> p;
      for (int k = 0; k < nc; k++) { vf::J j; p.push_back(poly(in, false, j)); ps.push_back(j.str()); }
      auto&& txt = [&p,via](int a, int b)
      {
        std::string s;
        for (const Poly& q : p)
        {
          Poly r = a < 0 ? q : b < 0 ? diff(q, a) : diff(diff(q, a), b);
          std::string c = text(r);
          if (via == 2 || via == 3) for (size_t i = 0; i < c.size(); i++) if (c[i] == ')') c.replace(i, 1, ")*u");
          s += (s.empty() ? "" : " | ") + c;
        }
        return s;
      };
      if (via == 1 || via == 2) d.vf.reset(utl::parseVecFunc(txt(-1, -1), "expression", via == 2 ? "u=1" : ""));
      else if (via == 4) d.vf.reset(utl::parseExprVecFunc(txt(-1, -1), true));
      else
      {
        std::string var = via == 3 ? "u=1" : "";
        VecFuncExpr* e = new VecFuncExpr(txt(-1, -1), var);
        for (int a = 0; a < 4; a++) e->addDerivative(txt(a, -1), var, a+1);
        d.vf.reset(e);
      }
      d.approx = via == 1 || via == 2;
      d.json = vf::J().raw("q", vf::list(ps)).str();
    }
    else if (c == "m") // sum of functions
    {
      int k = in.num();
      std::vector<std::string> l;
      for (int m = 0; m < k; m++)
      {
        int w = in.num(), b = in.num();
        FunctionBase* fb = f[b].rf ? (FunctionBase*)f[b].rf.get() : (FunctionBase*)f[b].vf.get();
        bool ok = true;
        if (!fb) continue;
        if (!d.sum) d.sum.reset(new FunctionSum(fb, w));
        else ok = d.sum->add(fb, w);
        l.push_back(vf::J().set("w", w).set("f", b).set("ok", ok).str());
      }
      d.json = vf::J().raw("l", vf::list(l)).str();
    }
    d.cls = c[0];
    bool ok = d.sf || d.rf || d.tf || d.vf || d.sum;
    js.push_back(vf::J().set("c", c).raw("f", d.json).set("ok", ok).set("ap", d.approx).str());
    f.push_back(d);
  }
  out.begin(id, vf::J().raw("f", vf::list(js)).str());
  out.step(vf::J("begin"));
  const double S = 4096.0;
  auto&& val = [S](const std::vector<double>& v) { std::vector<int> r; for (double x : v) r.push_back(vf::q(x, S)); return r; };
  auto&& app = [](const std::vector<double>& v) { std::vector<int> r; for (double x : v) r.push_back(fabs(x) < 1.0e5 ? (int)lround(4096.0*x) : 2000000002); return r; };
  while (in.more())
  {
    std::string op = in.tok();
    int k = in.num();
    Def& d = f[k];
    vf::J j(op);
    j.set("f", k);
    std::vector<int> v;
    if (op == "zero" || op == "cst")
    {
      bool z = op == "zero", r = false;
      if (d.sf) r = z ? d.sf->isZero() : d.sf->isConstant();
      else if (d.rf) r = z ? d.rf->isZero() : d.rf->isConstant();
      else if (d.tf) r = z ? d.tf->isZero() : d.tf->isConstant();
      else if (d.vf) r = z ? d.vf->isZero() : d.vf->isConstant();
      else continue;
      out.step(j.set("r", r));
      continue;
    }
    bool deriv = op == "der" || op == "grad" || op == "der2";
    int dir = op == "der" || op == "der2" ? in.num() : 0, dir2 = op == "der2" ? in.num() : 0;
    int x = in.num(), y = in.num(), z = in.num(), t = in.num(), hasT = in.num();
    Vec4 X4(0.25*x, 0.25*y, 0.25*z, 0.25*t);
    Vec3 X3(0.25*x, 0.25*y, 0.25*z);
    const Vec3& X = hasT ? static_cast<const Vec3&>(X4) : X3;
    j.set("dir", dir).set("dir2", dir2).arr("X", std::vector<int>{x, y, z, t}).set("hasT", hasT);
    std::vector<double> r;
    if (d.sf)
    {
      if (op == "val") r = {(*d.sf)(0.25*t)}; else if (op == "der") r = {d.sf->deriv(0.25*t)}; else continue;
      if (d.sine) { if (deriv) r[0] /= 2.0*M_PI; out.step(j.arr("r", app(r))); continue; }
    }
    else if (d.rf)
    {
      if (op == "val") r = {(*d.rf)(X)};
      else if (op == "gval") r = d.rf->getValue(X);
      else if (op == "der") r = {dir == 4 && y % 2 == 0 ? d.rf->timeDerivative(X) : d.rf->deriv(X, dir)};
      else if (op == "der2") r = {d.rf->dderiv(X, dir, dir2)};
      else if (op == "grad") { Vec3 g = d.rf->gradient(X); r = {g.x, g.y, g.z}; }
      else continue;
    }
    else if (d.tf) { if (op != "val") continue; Vec3 g = (*d.tf)(0.25*t); r = {g.x, g.y, g.z}; }
    else if (d.vf)
    {
      if (op == "gval") r = d.vf->getValue(X);
      else if (op == "der") { Vec3 g = d.vf->deriv(X, dir); r.assign(&g[0], &g[0]+d.vf->dim()); }
      else if (op == "grad")
      {
        if (d.vf->dim() < 2) continue;
        Tensor g = d.vf->gradient(X);
        for (size_t a = 1; a <= d.vf->dim(); a++) for (size_t b = 1; b <= d.vf->dim(); b++) r.push_back(g(a, b));
      }
      else continue;
    }
    else if (d.sum)
    {
      if (op == "val") { if (d.sum->dim() > 1) continue; r = {d.sum->getScalarValue(X)}; }
      else if (op == "gval") r = d.sum->getValue(X);
      else continue;
    }
    else continue;
    out.step(j.arr("r", deriv && d.approx ? app(r) : val(r)));
  }
  f.clear();
  if (system(("rm -rf " + DIR).c_str())) _exit(99);
}

int main(int argc, char** argv) { return vf::drive(argc, argv, go); }
