// Element groups for multi-threaded assembly: structured partitioning, multi-colouring, and the assembly loop over them.
#include "vf.h"
#include "stub_asms2d.h"
#include "ASMu2DLag.h"
#include "IntegrandBase.h"
#include "TimeDomain.h"
#include "MPC.h"
#include <omp.h>

class Itg : public IntegrandBase { public: Itg() : IntegrandBase(2) {} };
class Glb : public GlobalIntegral { bool safe; public: explicit Glb(bool s) : safe(s) {} bool threadSafe() const override { return safe; } };

class Patch : public ASMu2DLag
{
public:
  Patch() : ASMu2DLag(2, 1, 'x') { ASMbase::resetNumbering(); }
  void colour(bool sep) { this->generateThreadGroupsMultiColored(true, sep); }
  void couple(int s, int m, int d)
  {
    for (MPC* q : mpcs)
      if (q->getSlave().node == s) { q->addMaster(m, d, 1.0); return; }
    MPC* q = new MPC(s, 1);
    q->addMaster(m, d, 1.0);
    this->addMPC(q);
  }
};

static std::string str(const ThreadGroups& g)
{
  std::vector<std::string> ph;
  for (int i = 0; i < 2; i++)
    if (i == 0 || !g[i].empty())
    {
      std::vector<std::string> st;
      for (const IntVec& e : g[i]) st.push_back(vf::ilist(e));
      ph.push_back(vf::list(st));
    }
  return vf::list(ph);
}

static IntVec ints(vf::In& in) { IntVec v(in.num()); for (int& i : v) i = in.num(); return v; }

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  vf::J c;
  std::string kind = in.tok();
  c.set("kind", kind);
  if (kind == "s")
  {
    int nd = in.num();
    std::vector<std::vector<bool>> real(nd);
    std::vector<std::string> rj; IntVec n, p;
    for (auto& r : real)
    {
      std::vector<std::string> s;
      for (int b : ints(in)) { r.push_back(b); s.push_back(b ? "true" : "false"); }
      n.push_back(r.size()); rj.push_back(vf::list(s));
    }
    for (int d = 0; d < nd; d++) p.push_back(in.num());
    int thr = in.num(), dir = in.num();
    int nel = 1; for (int i : n) nel *= i;
    out.begin(id, c.arr("n", n).raw("real", vf::list(rj)).arr("p", p).set("thr", thr).set("dir", dir).str());
    omp_set_num_threads(thr);
    ThreadGroups g((ThreadGroups::StripDirection)dir);
    out.step(vf::J("begin"));
    while (in.more())
    {
      std::string op = in.tok();
      vf::J j(op);
      if (op == "spn") // spans, some of which may be empty
        nd == 2 ? g.calcGroups(real[0], real[1], p[0], p[1]) : g.calcGroups(real[0], real[1], real[2], p[0], p[1], p[2]);
      else if (op == "elm") // element counts
        nd == 2 ? g.calcGroups(n[0], n[1], p[0]) : g.calcGroups(n[0], n[1], n[2], p[0]);
      else if (op == "one") g.oneGroup(nel);
      else if (op == "str") g.oneStripe(nel);
      else
      {
        IntVec l = ints(in);
        j.arr("l", l);
        if (op == "onl") g.oneGroup(nel, l);
        else if (op == "stl") g.oneStripe(nel, l);
        else if (op == "flt") { ThreadGroups f = g.filter(l); g = f; }
        else if (op == "map") g.applyMap(l);
        else { std::cerr <<"?"<< op << std::endl; _exit(97); }
      }
      out.step(j.raw("g", str(g)).set("size", g.size()).set("empty", g.empty()));
    }
    return;
  }

  int nn = in.num(), ne = in.num();
  std::vector<IntVec> elms(ne);
  std::vector<std::string> ej, cj;
  for (IntVec& e : elms) { e = ints(in); IntVec f(e); for (int& i : f) i++; ej.push_back(vf::ilist(f)); }
  int nc = in.num();
  std::vector<std::pair<int,int>> cpl(nc);
  for (auto& q : cpl) { q.first = in.num(); q.second = in.num(); cj.push_back(vf::ilist(IntVec{q.first, q.second})); }
  int thr = in.num();
  out.begin(id, c.raw("elms", vf::list(ej)).raw("cpl", vf::list(cj)).set("nn", nn).set("thr", thr).str());
  omp_set_num_threads(thr);

  std::stringstream xml;
  xml <<"<patch>\n<nodes>\n";
  for (int i = 0; i < nn; i++) xml << i <<" "<< i*i <<" 0\n";
  xml <<"</nodes>\n";
  for (const IntVec& e : elms)
  {
    xml <<"<elements nenod=\""<< e.size() <<"\">\n";
    for (int i : e) xml <<" "<< i;
    xml <<"\n</elements>\n";
  }
  xml <<"</patch>\n";
  Patch pch;
  bool ok = pch.read(xml) && pch.generateFEMTopology();
  for (auto& q : cpl) pch.couple(q.first, q.second, 1 + (q.second % 2));
  Itg itg;
  out.step(vf::J("begin").set("ok", ok).set("nel", pch.getNoElms()).set("nno", pch.getNoNodes()));
  while (in.more())
  {
    std::string op = in.tok();
    vf::J j(op);
    if (op == "col") { bool s = in.num(); pch.colour(s); j.set("sep", s).raw("g", str(pch.threadGroups)); }
    else if (op == "gen") { bool s = in.num(); pch.generateThreadGroups(itg, true, s); j.set("sep", s).raw("g", str(pch.threadGroups)); }
    else if (op == "off") pch.threadGroups.stripDir = ThreadGroups::NONE;
    else if (op == "int")
    {
      bool safe = in.num();
      pch.failing = in.num();
      pch.myElms = ints(in);
      pch.events.clear();
      Glb glb(safe);
      TimeDomain td;
      bool res = pch.integrate(itg, glb, td);
      std::vector<std::string> ev;
      for (auto& e : pch.events) ev.push_back(vf::ilist(IntVec{e.first, e.second}));
      j.set("safe", safe).set("fail", pch.failing).arr("l", pch.myElms).set("ok", res).raw("ev", vf::list(ev));
    }
    else { std::cerr <<"?"<< op << std::endl; _exit(97); }
    out.step(j);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }

#include "ASMu2DLag.C" // of the repository
