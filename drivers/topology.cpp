// Merging and renumbering of nodes, through the patches and through SIMbase.
#include "vf.h"
#include "fake_asm.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "IntegrandBase.h"
#include "MPC.h"
#include <map>
#include <set>

// Stand-in for the part of the spline library interface (not available offline) which SIMbase::renumberNodes refers to
class ASMs2DC1 { public: static void renumberNodes(const std::map<int,int>&); };
void ASMs2DC1::renumberNodes(const std::map<int,int>&) {}

class Patch : public FakeASM
{
public:
  explicit Patch(unsigned char nf) : FakeASM(nf) {}
  Patch(const Patch& p, unsigned char nf) : FakeASM(p, nf) {}
  using ASMbase::addNeighbor;
  using ASMbase::makePeriodic;
  using ASMbase::selfInterconnect;
  using ASMbase::collapseNodes;
  using ASMbase::mergeNodes;
  using ASMbase::findMPC;
  using ASMbase::addMPC;
  const IntMat& conn() const { return MNPC; }
  const IntVec& ids() const { return MLGE; }
};

class Itg : public IntegrandBase { public: Itg() : IntegrandBase(2) {} };

class Sim : public SIMdummy<SIMgeneric>
{
public:
  Sim() : SIMdummy<SIMgeneric>(new Itg) {}
  bool createFEMmodel(char) override { return true; }
  void add(ASMbase* p) { p->idx = myModel.size(); myModel.push_back(p); }
  int renum(bool r) { return nGlbNodes = this->SIMbase::renumberNodes(r); }
  void order(bool keep) { preserveNOrder = keep; }
  const IntVec& l2g() const { return myLoc2Glb; }
  const std::map<int,int>& degen() const { return myDegenElm; }
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  Sim sim;
  std::vector<Patch*> pch;
  std::vector<std::string> js;
  int np = in.num(), maxNo = 0;
  for (int p = 0; p < np; p++)
  {
    int nf = in.num(), share = in.num(), nn = in.num();
    IntVec nodes(nn); std::vector<double> x(nn); IntVec xi;
    for (int& n : nodes) { n = in.num(); maxNo = std::max(n, maxNo); }
    for (double& v : x) { v = in.num(); xi.push_back(v); }
    int ne = in.num();
    IntVec ids; std::vector<IntVec> elms; std::vector<std::string> ej;
    for (int e = 0; e < ne; e++)
    {
      ids.push_back(in.num());
      IntVec el(in.num()), one;
      for (int& k : el) { k = in.num(); one.push_back(k); k--; }
      elms.push_back(el);
      ej.push_back(vf::J().set("id", ids.back()).arr("n", one).str());
    }
    Patch* q;
    if (share)
      q = new Patch(*pch[share-1], nf);
    else
    {
      q = new Patch(nf);
      q->setTopology(nodes, elms, ids);
      q->X = x;
    }
    sim.add(q);
    pch.push_back(q);
    js.push_back(vf::J().set("nf", nf).set("share", share).arr("nodes", nodes).arr("x", xi).raw("elms", vf::list(ej)).str());
  }
  out.begin(id, vf::J().raw("pat", vf::list(js)).str());
  out.step(vf::J("begin"));

  auto obs = [&](vf::J j)
  {
    std::vector<std::string> num, bc, eqs, lost, elm, ids;
    for (Patch* p : pch)
    {
      num.push_back(vf::ilist(p->nodeNos()));
      std::set<int> nn(p->nodeNos().begin(), p->nodeNos().end());
      for (const ASMbase::BC& b : p->bcs()) nn.insert(b.node);
      std::vector<std::string> f;
      for (int n : nn)
        for (int d = 1; d <= (int)p->getNoFields(); d++)
          if (p->fixedDofs(n, d)) f.push_back("[" + std::to_string(n) + "," + std::to_string(d) + "]");
      bc.push_back(vf::list(f));
      std::vector<std::string> e;
      int l = 0;
      for (MPCIter it = p->begin_MPC(); it != p->end_MPC(); ++it)
      {
        const MPC::DOF& s = (*it)->getSlave();
        auto cit = p->codes().find(*it);
        int code = cit == p->codes().end() ? 0 : cit->second;
        std::vector<std::string> ms;
        for (size_t k = 0; k < (*it)->getNoMaster(); k++)
        {
          const MPC::DOF& m = (*it)->getMaster(k);
          ms.push_back("[" + std::to_string(m.node) + "," + std::to_string(m.dof) + "," + std::to_string(vf::q(m.coeff)) + "]");
        }
        if (code == 0 && s.coeff != 0.0) ms.push_back("[-1,-1,-1]");
        e.push_back("{\"code\":" + std::to_string(code) + ",\"s\":[" + std::to_string(s.node) + "," + std::to_string(s.dof) + "],\"m\":" + vf::list(ms) + "}");
        if (p->findMPC(s.node, s.dof) != *it) l++;
      }
      eqs.push_back(vf::list(e));
      lost.push_back(std::to_string(l));
      std::vector<std::string> c;
      for (IntVec v : p->conn()) { for (int& k : v) k++; c.push_back(vf::ilist(v)); }
      elm.push_back(vf::list(c));
      ids.push_back(vf::ilist(p->ids()));
    }
    out.step(j.raw("num", vf::list(num)).raw("bc", vf::list(bc)).raw("eqs", vf::list(eqs)).raw("lost", vf::list(lost))
             .raw("elm", vf::list(elm)).raw("ids", vf::list(ids)));
  };
  auto maps = [&](vf::J j, int nn)
  {
    std::vector<std::string> g, d;
    IntVec q;
    for (const auto& x : sim.getGlob2LocMap()) g.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
    for (const auto& x : sim.degen()) d.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
    for (int k = 1; k <= maxNo+1; k++) q.push_back(sim.getLocalNode(k));
    return j.set("nn", nn).raw("g2l", vf::list(g)).arr("l2g", sim.l2g()).raw("degen", vf::list(d)).arr("q", q);
  };

  while (in.more())
  {
    std::string op = in.tok();
    if (op == "nbr")
    {
      int p = in.num(), q = in.num();
      pch[p-1]->addNeighbor(pch[q-1]);
      out.step(vf::J(op));
    }
    else if (op == "col")
    {
      int p = in.num(), i = in.num(), q = in.num(), j = in.num();
      bool ok = Patch::collapseNodes(*pch[p-1], i, *pch[q-1], j);
      obs(vf::J(op).set("p", p).set("i", i).set("q", q).set("j", j).set("ok", ok));
    }
    else if (op == "mrg")
    {
      int p = in.num(), i = in.num(), n = in.num();
      bool ok = pch[p-1]->mergeNodes(i, n, false);
      obs(vf::J(op).set("p", p).set("i", i).set("n", n).set("ok", ok));
    }
    else if (op == "slf")
    {
      int p = in.num(), any = in.num(), n = in.num();
      std::vector<std::pair<int,int>> prs;
      std::vector<std::string> pj;
      for (int k = 0; k < n; k++)
      {
        int a = in.num(), b = in.num();
        prs.push_back({a, b});
        pj.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "]");
      }
      bool ok = pch[p-1]->selfInterconnect(prs, any ? -1.0 : 0.001);
      obs(vf::J(op).set("p", p).set("any", any != 0).raw("prs", vf::list(pj)).set("ok", ok));
    }
    else if (op == "fix")
    {
      int p = in.num(), i = in.num(), d = in.num();
      pch[p-1]->fix(i, d);
      obs(vf::J(op).set("p", p).set("i", i).set("d", d));
    }
    else if (op == "prs")
    {
      int p = in.num(), i = in.num(), d = in.num(), code = in.num();
      pch[p-1]->prescribe(i, d, code);
      obs(vf::J(op).set("p", p).set("i", i).set("d", d).set("code", code));
    }
    else if (op == "mpc")
    {
      int p = in.num(), i = in.num(), d = in.num(), n = in.num();
      MPC* mpc = new MPC(pch[p-1]->getNodeID(i), d);
      std::vector<std::string> ms;
      for (int k = 0; k < n; k++)
      {
        int a = in.num(), b = in.num(), w = in.num();
        mpc->addMaster(pch[p-1]->getNodeID(a), b, w);
        ms.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(w) + "]");
      }
      bool ok = pch[p-1]->addMPC(mpc, 0, true);
      if (!ok) ok = false;
      obs(vf::J(op).set("p", p).set("i", i).set("d", d).raw("ms", vf::list(ms)).set("ok", ok));
    }
    else if (op == "per")
    {
      int p = in.num(), i = in.num(), j = in.num(), d = in.num();
      pch[p-1]->makePeriodic(i, j, d);
      obs(vf::J(op).set("p", p).set("i", i).set("j", j).set("d", d));
    }
    else if (op == "ren" || op == "pre")
    {
      int keep = in.num(), rec = in.num();
      sim.order(keep);
      int nn = 0; bool ok;
      if (op == "ren")
        ok = (nn = sim.renum(rec)) > 0;
      else
      {
        ok = sim.preprocess({}, rec);
        nn = sim.getNoNodes();
      }
      obs(maps(vf::J(op).set("keep", keep != 0).set("rec", rec != 0).set("ok", ok), nn));
    }
    else
      _exit(97);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
