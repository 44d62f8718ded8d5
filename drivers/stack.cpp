// The stacks of solution vectors of several simulators, and the data saved from them for a later restart.
#include "mocksim.h"
#include "NonLinSIM.h"
#include "NewmarkSIM.h"
#include <memory>

using Archive = std::map<std::string,std::string>;

class Named : public MockSim
{
  std::string nam;
public:
  explicit Named(const std::string& n) : nam(n) {}
  std::string getName() const override { return nam; }
};

struct Stack
{
  std::string nam;
  explicit Stack(const std::string& n) : nam(n) {}
  virtual ~Stack() = default;
  virtual bool init(int ndof, int nsol) = 0;
  virtual bool push(int nvec) = 0;
  virtual bool set(int k, const RealArray& v) = 0;
  virtual void ref(double) {}
  virtual bool save(Archive& a) = 0;
  virtual bool rest(const Archive& a) = 0;
  virtual const Vectors& sol() = 0;
  virtual double refn() { return 0.0; }
};

struct Raw : Stack, SIMsolution
{
  using Stack::Stack;
  bool init(int ndof, int nsol) override { this->initSolution(ndof, nsol); return true; }
  bool push(int nvec) override { if (nvec == 1) this->pushSolution(); else this->pushSolution(nvec); return true; }
  bool set(int k, const RealArray& v) override { this->setSolution(v, k); return true; }
  bool save(Archive& a) override { return this->saveSolution(a, nam); }
  bool rest(const Archive& a) override { return this->restoreSolution(a, nam); }
  const Vectors& sol() override { return this->getSolutions(); }
};

template<class T> class Open : public T
{
public:
  explicit Open(SIMbase& s) : T(s) {}
  double& ref() { return this->refNorm; }
};

template<class T> struct Drv : Stack
{
  Named sim;
  Open<T> d;
  TimeStep tp;
  explicit Drv(const std::string& n) : Stack(n), sim(n), d(sim) { tp.stopTime = 1.0e6; SIMadmin::msgLevel = -3; }
  bool init(int ndof, int nsol) override { d.MultiStepSIM::initSol(nsol, ndof); return true; }
  bool push(int) override { return d.advanceStep(tp, true); }
  bool set(int k, const RealArray& v) override { d.setSolution(v, k); return true; }
  void ref(double v) override { d.ref() = v; }
  bool save(Archive& a) override { return d.serialize(a); }
  bool rest(const Archive& a) override { return d.deSerialize(a); }
  const Vectors& sol() override { return d.getSolutions(); }
  double refn() override { return d.ref(); }
};

static std::string ivec(const Vector& u)
{
  std::vector<int> x;
  for (double y : u) { // values which only double precision holds, reproduced exactly
    int k = std::fabs(y) < 1.0e6 ? (int)y : 0;
    x.push_back(y == 0.0 ? 0 : y == k + 0.1 ? k : vf::BAD);
  }
  return vf::ilist(x);
}

static std::string all(const std::vector<std::unique_ptr<Stack>>& s)
{
  std::vector<std::string> r;
  for (const auto& x : s) {
    std::vector<std::string> v;
    for (const Vector& u : x->sol()) v.push_back(ivec(u));
    r.push_back("{\"v\":" + vf::list(v) + ",\"r\":" + std::to_string(vf::q(x->refn())) + "}");
  }
  return vf::list(r);
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("stack");
  std::vector<std::unique_ptr<Stack>> s(in.num());
  std::vector<int> kinds, names;
  for (auto& p : s) {
    int k = in.num(), n = in.num();
    kinds.push_back(k); names.push_back(n);
    std::string nam = n == 0 ? "Elasticity" : n == 1 ? "Darcy" : n == 2 ? "Elasticity2" : "Elas";
    if (k == 1) p.reset(new Drv<NonLinSIM>(nam));
    else if (k == 2) p.reset(new Drv<NewmarkSIM>(nam));
    else p.reset(new Raw(nam));
  }
  out.begin(id, vf::J().arr("kind", kinds).arr("name", names).str());
  out.step(vf::J("begin").raw("all", all(s)));
  std::map<int, Archive> ar;
  while (in.more())
  {
    std::string op = in.tok();
    vf::J j(op);
    if (op == "dmg") {
      int a = in.num(), k = in.num(), cut = in.num();
      auto it = ar[a].find(s[k]->nam);
      if (it != ar[a].end()) {
        if (cut == 0) ar[a].erase(it);
        else if (cut < 0) it->second.clear();
        else it->second.resize((int)it->second.size() > cut ? it->second.size() - cut : 0);
      }
      out.step(j.set("a", a).set("k", k).set("cut", cut).raw("all", all(s)));
      continue;
    }
    if (op == "copy") {
      int a = in.num(), b = in.num();
      ar[b] = ar[a];
      out.step(j.set("a", a).set("b", b).raw("all", all(s)));
      continue;
    }
    int k = in.num();
    j.set("k", k);
    bool ok = true;
    if (op == "init") {
      int nd = in.num(), ns = in.num();
      ok = s[k]->init(nd, ns);
      j.set("nd", nd).set("ns", ns);
    }
    else if (op == "push") {
      int nv = in.num();
      ok = s[k]->push(nv);
      j.set("nv", nv);
    }
    else if (op == "set") { // all of the vector
      int i = in.num(), v = in.num();
      RealArray u;
      std::vector<int> iv;
      if (i < (int)s[k]->sol().size()) {
        u.resize(s[k]->sol()[i].size());
        for (size_t q = 0; q < u.size(); q++) { iv.push_back(v + (int)q); u[q] = v + (int)q + 0.1; }
        ok = s[k]->set(i, u);
      }
      else i = -1;
      j.set("i", i).arr("v", iv);
    }
    else if (op == "ref") { int v = in.num(); s[k]->ref(v); j.set("v", v); }
    else if (op == "save") { int a = in.num(); ok = s[k]->save(ar[a]); j.set("a", a); }
    else if (op == "rest") { int a = in.num(); const Archive& x = ar[a]; ok = s[k]->rest(x); j.set("a", a); }
    else _exit(97);
    out.step(j.set("ok", ok).raw("all", all(s)));
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
