// Splitting of structured models into subdomains, matching of interfaces, and the equation maps of a single process.
#include "vf.h"
#include "ASMstruct.h"
#include "DomainDecomposition.h"
#include "IntegrandBase.h"
#include "Interface.h"
#include "LinAlgInit.h"
#include "LinSolParams.h"
#include "SAMpatch.h"
#include "SIMgeneric.h"
#include "SIMdummy.h"
#include "Vec3.h"
#include <tinyxml2.h>
#include <map>
#include <memory>
#include <set>

// Stand-ins for what needs the spline library (not available offline)
class ASMs2DC1 { public: static void renumberNodes(const std::map<int,int>&); };
void ASMs2DC1::renumberNodes(const std::map<int,int>&) {}
namespace Go { class GeomObject {}; }
ASMstruct::ASMstruct(unsigned char n_p, unsigned char n_s, unsigned char n_f) : ASMbase(n_p, n_s, n_f) {}
ASMstruct::ASMstruct(const ASMstruct& p, unsigned char n_f) : ASMbase(p, n_f) {}
ASMstruct::~ASMstruct() {}
bool ASMstruct::diracPoint(Integrand&, GlobalIntegral&, const double*, const Vec3&) { return false; }
bool ASMstruct::separateProjectionBasis() const { return false; }
void ASMstruct::swapProjectionBasis() {}

//! A structured patch: multi-linear elements, and optionally one node of a second type in each element.
class Patch : public ASMstruct
{
public:
  Patch(int nd, int nf, const int* ne, bool mixed) : ASMstruct(nd, nd, nf)
  {
    for (int i = 0; i < 3; i++) e[i] = i < nd ? ne[i] : 0;
    mix = mixed;
  }
  void topology(const IntVec& nodes, int& eid)
  {
    myMLGN = nodes;
    int n1 = e[0]+1, n2 = ndim > 1 ? e[1]+1 : 1, n3 = ndim > 2 ? e[2]+1 : 1;
    first2 = n1*n2*n3;
    for (int k = 0; k < std::max(1, e[2]); k++)
      for (int j = 0; j < std::max(1, e[1]); j++)
        for (int i = 0; i < e[0]; i++)
        {
          IntVec el;
          for (int c = 0; c < (1 << ndim); c++)
            el.push_back(i + (c & 1) + n1*(j + (c >> 1 & 1) + n2*(k + (c >> 2 & 1))));
          if (mix) el.push_back(first2 + myMNPC.size());
          myMNPC.push_back(el);
          myMLGE.push_back(++eid);
        }
    nnod = nodes.size(); nel = myMNPC.size();
  }
  void dropElm(int k) { myMLGE[k] = 0; }

  bool empty() const override { return MLGN.empty(); }
  bool getSize(int& n1, int& n2, int& n3, int basis) const override
  {
    int d = basis < 2 ? 1 : 0;
    n1 = e[0]+d; n2 = ndim > 1 ? e[1]+d : 0; n3 = ndim > 2 ? e[2]+d : 0;
    return true;
  }
  bool getNoStructElms(int& n1, int& n2, int& n3) const override { n1 = e[0]; n2 = e[1]; n3 = e[2]; return true; }
  char getNodeType(size_t n) const override { return isLMn(n) ? getLMType(n) : mix && (int)n > first2 ? 'P' : 'D'; }
  unsigned char getNodalDOFs(size_t n) const override { return isLMn(n) ? nLag : mix && (int)n > first2 ? 1 : nf; }

  //! The elements along a boundary, in their natural order
  void findBoundaryElms(IntVec& el, int lidx, int) const override
  {
    el.clear();
    int dir = (lidx-1)/2, at = (lidx-1)%2;
    int n[3] = { e[0], std::max(1, e[1]), std::max(1, e[2]) };
    for (int k = 0; k < n[2]; k++)
      for (int j = 0; j < n[1]; j++)
        for (int i = 0; i < n[0]; i++)
        {
          int x[3] = { i, j, k };
          if (x[dir] == (at ? n[dir]-1 : 0)) el.push_back(i + n[0]*(j + n[1]*k));
        }
  }
  void getElmConnectivities(IntMat& nb, int) const override
  {
    for (int id : MLGE) if (id > 0) nb[id-1].assign(2*ndim, -1);
  }

  bool read(std::istream&) override { return false; }
  bool write(std::ostream&, int) const override { return false; }
  bool generateFEMTopology() override { return true; }
  Vec3 getCoord(size_t) const override { return Vec3(); }
  void getNodalCoordinates(Matrix&, bool) const override {}
  bool getElementCoordinates(Matrix&, int, bool) const override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  void getBoundaryNodes(int, IntVec&, int, int, int, bool) const override {}
  bool getParameterDomain(Real2DMat&, IntVec*) const override { return false; }
  bool updateCoords(const Vector&) override { return true; }
  bool integrate(Integrand&, GlobalIntegral&, const TimeDomain&) override { return true; }
  bool integrate(Integrand&, int, GlobalIntegral&, const TimeDomain&) override { return true; }
  int evalPoint(const double*, double*, Vec3&) const override { return 0; }
  int findElementContaining(const double*) const override { return 0; }
  double findPoint(Vec3&, double*) const override { return 0.0; }
  bool tesselate(ElementBlock&, const int*) const override { return false; }
  void evaluateBasis(double, double, double, Vector&) const override {}
  Go::GeomObject* evalSolution(const IntegrandBase&) const override { return nullptr; }
  void getElementBorders(int, double*) const override {}

private:
  int e[3], first2 = 0;
  bool mix;
};

class Itg : public IntegrandBase { public: Itg() : IntegrandBase(2) {} };

class Sim : public SIMdummy<SIMgeneric>
{
public:
  Sim(int nd) : SIMdummy<SIMgeneric>(new Itg) { nsd = nd; }
  bool createFEMmodel(char) override { return true; }
  unsigned short int getNoParamDim() const override { return nsd; }
  IntMat getElmConnectivities() const override { return this->SIMinput::getElmConnectivities(); }
  void add(ASMbase* p) { p->idx = myModel.size(); myModel.push_back(p); }
  void iface(const ASM::Interface& i) { myInterfaces.push_back(i); }
  void equations(const std::string& xml)
  {
    delete mySolParams;
    mySolParams = new LinSolParams();
    tinyxml2::XMLDocument doc;
    doc.Parse(xml.c_str());
    mySolParams->read(doc.RootElement());
  }
  DomainDecomposition& dd() { return adm.dd; }
  bool setup() { return adm.dd.setup(adm, *this); }
  void nodes(int n)
  {
    nGlbNodes = n;
    SAMpatch* sam = new SAMpatch();
    sam->init(myModel, nGlbNodes, {});
    mySam = sam;
  }
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  int np = in.num(), nd = in.num(), nf = in.num(), mix = in.num(), lm = in.num();
  Sim sim(nd);
  std::vector<Patch*> pch;
  std::vector<std::string> js;
  int eid = 0, maxNo = 0;
  for (int p = 0; p < np; p++)
  {
    int e[3] = { in.num(), in.num(), in.num() };
    IntVec nodes(in.num());
    for (int& n : nodes) maxNo = std::max(maxNo, n = in.num());
    Patch* q = new Patch(nd, nf, e, mix);
    q->topology(nodes, eid);
    IntVec ev(e, e+3);
    IntVec fix(2*in.num());
    for (int& f : fix) f = in.num();
    for (size_t k = 0; k < fix.size(); k += 2) q->fix(fix[k], fix[k+1]);
    sim.add(q);
    pch.push_back(q);
    js.push_back(vf::J().arr("e", ev).arr("nodes", nodes).arr("fix", fix).str());
  }
  if (lm && np) pch[0]->addGlobalLagrangeMultipliers({++maxNo}, 1);
  sim.nodes(maxNo);
  out.begin(id, vf::J().raw("pat", vf::list(js)).set("nd", nd).set("nf", nf).set("mix", mix).set("lm", lm && np ? 1 : 0).set("nn", maxNo).str());
  out.step(vf::J("begin"));

  DomainDecomposition& dd = sim.dd();
  auto sets = [](const std::vector<std::set<int>>& v)
  {
    std::vector<std::string> s;
    for (const std::set<int>& x : v) s.push_back(vf::ilist(x));
    return vf::list(s);
  };
  auto maps = [&](vf::J j)
  {
    size_t nb = dd.getNoBlocks();
    std::vector<std::string> b;
    for (size_t i = 0; i <= nb; i++)
    {
      IntVec g;
      for (int l = -1; l <= 40; l++) g.push_back(dd.getGlobalEq(l, i));
      vf::J k;
      k.set("min", dd.getMinEq(i)).set("max", dd.getMaxEq(i)).set("nglb", dd.getNoGlbEqs(i)).arr("g", g);
      if (i > 0) k.arr("eqs", dd.getBlockEqs(i-1));
      std::vector<std::string> m;
      for (const std::pair<const int,int>& x : dd.getG2LEQ(i)) m.push_back(vf::ilist(IntVec{x.first, x.second}));
      k.raw("loc", vf::list(m));
      b.push_back(k.str());
    }
    IntVec own, far;
    for (int p = 1; p <= 4; p++) own.push_back(dd.getPatchOwner(p));
    for (int l = 1; l < 4; l++) far.push_back(dd.getGlobalEq(l, nb+1));
    out.step(j.raw("b", vf::list(b)).arr("own", own).arr("far", far).set("part", dd.isPartitioned())
              .set("mlgn", (int)dd.getMLGN().size()).set("mlgeq", (int)dd.getMLGEQ().size()));
  };

  while (in.more())
  {
    std::string op = in.tok();
    vf::J j(op);
    if (op == "split")
    {
      IntVec a(7);
      for (int& v : a) v = in.num();
      IntMat r = DomainDecomposition::calcSubdomains(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
      std::vector<std::string> s;
      for (const IntVec& v : r) s.push_back(vf::ilist(v));
      out.step(j.arr("a", a).raw("r", vf::list(s)));
    }
    else if (op == "node")
    {
      int p = in.num(), orient = in.num(), lidx = in.num(), basis = in.num(), dim = in.num();
      DomainDecomposition::OrientIterator it(pch[p-1], orient, lidx, basis, dim);
      IntVec r(it.begin(), it.end());
      out.step(j.set("p", p).set("o", orient).set("l", lidx).set("b", basis).set("dim", dim).arr("r", r).set("n", (int)it.size()));
    }
    else if (op == "elem")
    {
      int p = in.num(), orient = in.num(), lidx = in.num();
      DomainDecomposition::OrientIterator it(pch[p-1], orient, lidx);
      IntVec r(it.begin(), it.end());
      out.step(j.set("p", p).set("o", orient).set("l", lidx).arr("r", r).set("n", (int)it.size()));
    }
    else if (op == "iface" )
    {
      ASM::Interface i;
      i.master = in.num(); i.slave = in.num(); i.midx = in.num(); i.sidx = in.num(); i.orient = in.num(); i.dim = nd-1;
      sim.iface(i);
      out.step(j.set("m", i.master).set("s", i.slave).set("mi", i.midx).set("si", i.sidx).set("o", i.orient));
    }
    else if (op == "conn")
    {
      std::vector<std::string> s;
      for (const IntVec& v : sim.getElmConnectivities()) s.push_back(vf::ilist(v));
      out.step(j.raw("r", vf::list(s)));
    }
    else if (op == "own")
    {
      int p = in.num(), o = in.num();
      dd.setPatchOwner(p, o);
      out.step(j.set("p", p).set("o", o).set("r", dd.getPatchOwner(p)));
    }
    else if (op == "ghost")
    {
      std::vector<ASM::Interface> v(in.num());
      std::vector<std::string> a;
      for (ASM::Interface& i : v)
      {
        i.master = in.num(); i.slave = in.num(); i.midx = in.num(); i.sidx = in.num(); i.dim = in.num(); i.basis = in.num(); i.orient = in.num();
        a.push_back(vf::ilist(IntVec{i.master, i.slave, i.midx, i.sidx, i.dim, i.basis, i.orient}));
      }
      auto list = [&]()
      {
        std::vector<std::string> r;
        for (const ASM::Interface& i : dd.ghostConnections)
          r.push_back(vf::ilist(IntVec{i.master, i.slave, i.midx, i.sidx, i.dim, i.basis, i.orient}));
        dd.ghostConnections.clear();
        return vf::list(r);
      };
      dd.ghostConnections.insert(v.begin(), v.end());
      std::string r1 = list();
      dd.ghostConnections.insert(v.rbegin(), v.rend());
      std::string r2 = list();
      out.step(j.raw("a", vf::list(a)).raw("r", r1).raw("rr", r2));
    }
    else if (op == "keep")     // leave some interfaces in the set
    {
      ASM::Interface i; i.master = in.num(); i.slave = in.num();
      dd.ghostConnections.insert(i);
      out.step(j.set("m", i.master).set("s", i.slave).set("n", (int)dd.ghostConnections.size()));
    }
    else if (op == "setup")
    {
      int nb = in.num();
      std::string xml = "<linearsolver>";
      std::vector<std::string> a;
      for (int b = 0; b < nb; b++)
      {
        int basis = in.num(), comps = in.num();
        a.push_back(vf::ilist(IntVec{basis, comps}));
        xml += "<block basis=\"" + std::to_string(basis) + "\" components=\"" + std::to_string(comps) + "\"/>";
      }
      sim.equations(xml + "</linearsolver>");
      bool ok = sim.setup();
      // the numbering of the unknowns is not the subject here: it is recorded
      std::vector<std::string> meq;
      const SAM* sam = sim.getSAM();
      for (int n = 1; n <= sam->getNoNodes(); n++)
      {
        IntVec eqs;
        sam->getNodeEqns(eqs, n);
        meq.push_back(vf::ilist(eqs));
      }
      maps(j.raw("a", vf::list(a)).set("ok", ok).set("neq", sam->getNoEquations()).set("nnod", sam->getNoNodes())
            .set("ndof", sam->getNoDOFs()).raw("meq", vf::list(meq)).set("minn", dd.getMinNode()).set("maxn", dd.getMaxNode())
            .set("mind", dd.getMinDOF()).set("maxd", dd.getMaxDOF()));
    }
    else if (op == "subd")
    {
      IntVec a(5);
      for (int& v : a) v = in.num();
      out.step(j.arr("a", a).raw("r", sets(dd.getSubdomains(a[0], a[1], a[2], a[3], a[4]))));
    }
    else if (op == "clear")
    {
      dd.clear();
      maps(j.set("sam", dd.getSAM() != nullptr).set("ghosts", (int)dd.ghostConnections.size()));
    }
    else if (op == "neq")
    {
      int n = in.num();
      dd.setup(n);
      maps(j.set("n", n));
    }
    else
      _exit(97);
  }
}

int main(int argc, char** argv)
{
  return vf::drive(argc, argv, run);
}
