// Boundary conditions, constraint equations, equation numbering and assembly.
#include "vf.h"
#include "fake_asm.h"
#include "SAMpatch.h"
#include "SparseMatrix.h"
#include "MPC.h"
#include "MPCLess.h"
#include "Function.h"
#include <algorithm>
#include <memory>

class OpenSAM : public SAMpatch
{
public:
  int dofOf(int iceq) const { return mmceq[mpmceq[iceq-1]-1]; }
  //! Equation number, 0 for fixed, -(slave unknown) for a constrained one
  int rep(int eq) const { return eq >= 0 ? eq : -dofOf(-eq); }
  int eqOf(int idof) const { return meqn[idof-1]; }
  std::string table(int idof) const
  {
    int ic = -meqn[idof-1];
    std::vector<std::string> t;
    int ip = mpmceq[ic-1]-1;
    int c0 = vf::q(ttcc[ip]);
    for (++ip; ip < mpmceq[ic]-1; ++ip)
      t.push_back(vf::J().set("d", mmceq[ip]).set("a", vf::q(ttcc[ip])).str());
    return vf::J().set("d", idof).set("own", mmceq[mpmceq[ic-1]-1]).set("c0", c0).raw("ms", vf::list(t)).str();
  }
  int nm() const { return nmmceq; }
};

class Given : public RealFunc
{
  const double& v;
public:
  explicit Given(const double& x) : v(x) {}
  bool isConstant() const override { return false; }
protected:
  Real evaluate(const Vec3&) const override { return v; }
};

static int KE(int e, int s, int i, int j) { return ((i*7 + j*3 + e*5 + s) % 11) - 5; }
static int SE(int e, int s, int i) { return ((i*5 + e*3 + s) % 9) - 4; }

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  MPCLess::compareSlaveDofOnly = true; // as every simulator does
  std::vector<std::unique_ptr<FakeASM>> pch;
  std::vector<ASMbase*> model;
  std::vector<std::string> jp;
  int nnod = 0;
  // With a split, the last patches belong to a model of their own, to be merged into the first one.
  // All numbers in the scenario are those of the merged model before renumbering.
  int np = in.num(), split = in.num(), nA = 0, eA = 0;
  std::map<int,int> old2new;
  for (int k = split ? in.num() : 0; k > 0; k--) { int o = in.num(); old2new[o] = in.num(); }
  auto fin = [&](int n) { auto it = old2new.find(n); return it == old2new.end() ? n : it->second; };
  for (int p = 0; p < np; p++) {
    int nf = in.num(), nn = in.num();
    IntVec nodes, ids;
    for (int i = 0; i < nn; i++) { nodes.push_back(in.num()); nnod = std::max(nnod, nodes.back()); }
    std::vector<IntVec> elms, raw;
    std::vector<std::string> je;
    int ne = in.num();
    for (int e = 0; e < ne; e++) {
      ids.push_back(in.num());
      int k = in.num();
      IntVec mnpc, r;
      for (int i = 0; i < k; i++) {
        int n = in.num();
        r.push_back(n);
        mnpc.push_back(n > 0 ? n-1 : (n == -1 ? -2147483647-1 : n+1));
      }
      elms.push_back(mnpc);
      je.push_back(vf::J().set("id", ids.back()).arr("n", r).str());
    }
    pch.emplace_back(new FakeASM(nf, 3));
    pch.back()->idx = p;
    if (!split || p < split) {
      nA = nnod;
      for (int e : ids) eA = std::max(eA, e);
      pch.back()->setTopology(nodes, elms, ids);
    } else {
      IntVec ln(nodes), le(ids);
      for (int& n : ln) n -= nA;
      for (int& e : le) if (e) e -= eA;
      pch.back()->setTopology(ln, elms, le);
      for (int& n : nodes) n = fin(n);
    }
    model.push_back(pch.back().get());
    jp.push_back(vf::J().set("nf", nf).arr("nodes", nodes).raw("elms", vf::list(je)).str());
  }
  out.begin(id, vf::J().raw("pat", vf::list(jp)).str());

  double val[3] = { 1.0, 1.0, 1.0 };
  Given g1(val[0]), g2(val[1]), g3(val[2]);
  std::map<int,RealFunc*> func { {1,&g1}, {2,&g2}, {3,&g3} };
  std::map<int,VecFunc*> vfunc;
  std::unique_ptr<OpenSAM> sam;
  vf::J start("begin");
  out.step(start);

  auto update = [&](const std::vector<ASMbase*>& mdl) {
    for (ASMbase* p : mdl)
      if (!p->updateDirichlet(func, vfunc, 0.0)) return false;
    return true;
  };
  auto tables = [&](vf::J& j) {
    std::vector<std::string> tab;
    for (int d = 1; d <= sam->getNoDOFs(); d++)
      if (sam->eqOf(d) < 0) tab.push_back(sam->table(d));
    j.raw("tab", vf::list(tab));
  };

  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    if (op == "isf") {
      int p = in.num(), n = in.num(), d = in.num();
      bool r = pch[p-1]->fixedDofs(pch[p-1]->nodeNos()[n-1], d);
      out.step(j.set("p", p).set("n", n).set("d", d).set("r", r));
    } else if (op == "col") {
      int n = in.num(), s = in.num();
      std::pair<int,int> d = sam->getNodeDOFs(n);
      int nd = d.second-d.first+1;
      RealArray V;
      for (int i = 1; i <= nd; i++) V.push_back(SE(n, s, i));
      SparseMatrix A(sam->getNoEquations(), nd+1);
      bool ok = A.assembleCol(V, *sam, n, 2);
      std::vector<std::string> rows;
      for (int i = 1; i <= sam->getNoEquations(); i++) {
        std::vector<int> r;
        for (int k = 1; k <= nd+1; k++) r.push_back(vf::q(static_cast<const SparseMatrix&>(A)(i,k)));
        rows.push_back(vf::ilist(r));
      }
      out.step(j.set("n", n).set("s", s).set("ok", ok).raw("K", vf::list(rows)));
    } else if (op == "fix") {
      int p = in.num(), n = in.num(), d = in.num();
      int inv = pch[p-1]->fix(n, d);
      out.step(j.set("p", p).set("n", n).set("d", d).set("inv", inv));
    } else if (op == "presc") {
      int p = in.num(), n = in.num(), d = in.num(), code = in.num(), ovr = in.num();
      int ign = pch[p-1]->prescribe(n, d, code, ovr != 0);
      out.step(j.set("p", p).set("n", n).set("d", d).set("code", code).set("ovr", ovr != 0).set("ign", ign));
    } else if (op == "mpc") {
      int p = in.num(), n = in.num(), d = in.num(), c0 = in.num(), code = in.num(), ovr = in.num(), nm = in.num();
      int sh = split && p > split ? nA : 0;
      MPC* mpc = new MPC(n-sh, d, c0);
      std::vector<std::string> ms;
      for (int i = 0; i < nm; i++) {
        int mn = in.num(), md = in.num(), a = in.num();
        mpc->addMaster(mn-sh, md, a);
        ms.push_back(vf::J().arr("k", std::vector<int>{fin(mn), md}).set("a", a).str());
      }
      bool ok = pch[p-1]->addMPC(mpc, code, false, ovr != 0);
      out.step(j.set("p", p).arr("k", std::vector<int>{fin(n), d}).set("c0", c0).set("code", code).set("ovr", ovr != 0)
               .raw("ms", vf::list(ms)).set("ok", ok));
    } else if (op == "lag") {
      int p = in.num(), e = in.num(), n = in.num(), nn = in.num();
      bool ok = e ? pch[p-1]->addLagrangeMultipliers(e, {n}, nn) : pch[p-1]->addGlobalLagrangeMultipliers({n}, nn);
      if (ok) nnod = std::max(nnod, n);
      out.step(j.set("p", p).set("e", e).set("n", n).set("nn", nn).set("ok", ok));
    } else if (op == "prep") {
      int td = in.num();
      std::vector<int> v;
      for (double& x : val) { v.push_back(in.num()); x = v.back(); }
      bool tdd = false;
      for (ASMbase* p : model) tdd |= p->hasTimeDependentDirichlet(func, vfunc);
      bool ok = true;
      auto prepare = [&](std::vector<ASMbase*> mdl, int nn) {
        MPCSet all;
        ASMbase::mergeAndGetAllMPCs(mdl, all);
        if (!td) ok = update(mdl) && ok;
        ASMbase::resolveMPCchains(all, mdl, td != 0);
        if (td) ok = update(mdl) && ok;
        OpenSAM* S = new OpenSAM();
        ok = S->init(mdl, nn, {}) && ok;
        return S;
      };
      if (split) {
        sam.reset(prepare(std::vector<ASMbase*>(model.begin(), model.begin()+split), nA));
        std::unique_ptr<OpenSAM> other(prepare(std::vector<ASMbase*>(model.begin()+split, model.end()), nnod-nA));
        if (sam->getNoNodes() != nA || sam->getNoElms() != eA) _exit(97);
        ok = sam->merge(other.get(), &old2new) && ok;
      } else
        sam.reset(prepare(model, nnod));
      j.set("td", td != 0).arr("v", v).set("ok", ok).set("tdd", tdd).set("nnod", sam->getNoNodes()).set("nel", sam->getNoElms())
       .set("ndof", sam->getNoDOFs()).set("neq", sam->getNoEquations()).set("nceq", sam->getNoConstraints())
       .set("nspec", sam->getNoSpecifiedDOFs());
      if (!ok) { out.step(j); return; }
      tables(j);
      std::vector<std::string> eqs, dofs, elmn, elme, eluq, cpl, nd, ne;
      std::string types;
      for (int n = 1; n <= sam->getNoNodes(); n++) {
        IntVec mn;
        if (!sam->getNodeEqns(mn, n)) _exit(96);
        std::vector<int> r;
        for (int e : mn) r.push_back(sam->rep(e));
        eqs.push_back(vf::ilist(r));
        std::pair<int,int> pd = sam->getNodeDOFs(n);
        dofs.push_back(vf::ilist(std::vector<int>{pd.first, pd.second}));
        r.clear();
        for (size_t d = 1; d <= mn.size() + 1; d++) r.push_back(sam->getEquation(n, d));
        ne.push_back(vf::ilist(r));
        types += sam->getNodeType(n);
      }
      for (int d = 1; d <= sam->getNoDOFs(); d++) {
        std::pair<int,int> a = sam->getNodeAndLocalDof(d);
        nd.push_back(vf::ilist(std::vector<int>{a.first, a.second}));
      }
      std::vector<std::string> en;
      for (int d = 1; d <= sam->getNoEquations(); d++) {
        std::pair<int,int> a = sam->getNodeAndLocalDof(d, true);
        en.push_back(vf::ilist(std::vector<int>{a.first, a.second}));
      }
      for (int e = 1; e <= sam->getNoElms(); e++) {
        IntVec a, b;
        IntSet u;
        if (!sam->getElmNodes(a, e) || !sam->getElmEqns(b, e)) _exit(96);
        sam->getUniqueEqns(u, e);
        for (int& x : b) x = sam->rep(x);
        elmn.push_back(vf::ilist(a));
        elme.push_back(vf::ilist(b));
        eluq.push_back(vf::ilist(u));
      }
      std::vector<IntSet> dc;
      sam->getDofCouplings(dc);
      for (const IntSet& x : dc) cpl.push_back(vf::ilist(x));
      IntVec irow, jcol;
      sam->getDofCouplings(irow, jcol);
      std::vector<std::string> csr;
      for (size_t k = 0; k+1 < irow.size(); k++)
        csr.push_back(vf::ilist(IntVec(jcol.begin()+irow[k], jcol.begin()+irow[k+1])));
      IntVec tmp;
      bool oob = sam->getElmNodes(tmp, sam->getNoElms()+1) || sam->getElmEqns(tmp, 0) || sam->getNodeEqns(tmp, sam->getNoNodes()+1);
      out.step(j.raw("eqs", vf::list(eqs)).raw("dofs", vf::list(dofs)).raw("nd", vf::list(nd)).raw("en", vf::list(en))
               .raw("ne", vf::list(ne)).raw("elmn", vf::list(elmn)).raw("elme", vf::list(elme)).raw("eluq", vf::list(eluq))
               .raw("cpl", vf::list(cpl)).raw("csr", vf::list(csr)).set("oob", oob)
               .set("freeD", (int)sam->getEquations('D').size()).set("free1", (int)sam->getEquations('D', 1).size()));
    } else if (op == "upd") {
      int kind = in.num(), s = in.num();
      std::vector<int> v;
      for (double& x : val) { v.push_back(in.num()); if (kind) x = v.back(); }
      bool ok = true;
      if (kind == 0)
        ok = sam->updateConstraintEqs(nullptr);
      else {
        Vector prev;
        if (kind == 2) {
          prev.resize(sam->getNoDOFs());
          for (size_t d = 1; d <= prev.size(); d++) prev(d) = ((int(d)*5 + s) % 7) - 3;
        }
        ok = update(model) && sam->updateConstraintEqs(&prev);
      }
      j.set("kind", kind).set("s", s).arr("v", v).set("ok", ok);
      tables(j);
      out.step(j);
    } else if (op == "exp") {
      int s = in.num(), sc = in.num();
      StdVector x(sam->getNoEquations());
      for (int i = 1; i <= sam->getNoEquations(); i++) x(i) = ((i*3 + s) % 8) - 4;
      Vector u, u0, w;
      bool ok = sam->expandSolution(x, u, sc) && sam->expandVector(x, u0);
      RealArray back;
      ok = sam->getSolVec(back, u) && ok;
      w = u;
      ok = sam->applyDirichlet(w) && ok;
      std::vector<int> a, b, cc, dd;
      for (double z : w) dd.push_back(vf::q(z));
      for (double z : u) a.push_back(vf::q(z));
      for (double z : u0) b.push_back(vf::q(z));
      for (double z : back) cc.push_back(vf::q(z));
      out.step(j.set("s", s).set("sc", sc).set("ok", ok).arr("u", a).arr("u0", b).arr("back", cc).arr("w", dd));
    } else if (op == "asm") {
      int fmt = in.num(), s = in.num(), n = in.num();
      static const LinAlg::MatrixType types[] = { LinAlg::DENSE, LinAlg::SPARSE, LinAlg::UMFPACK, LinAlg::DIAG };
      std::unique_ptr<SystemMatrix> A(SystemMatrix::create(nullptr, types[fmt]));
      StdVector b(sam->getNoEquations());
      A->initAssembly(*sam, fmt == 1 ? 'A' : 0);
      A->init();
      b.init();
      RealArray rf(sam->getNoSpecifiedDOFs(), 0.0);
      bool ok = true;
      std::vector<std::string> items;
      for (int k = 0; k < n; k++) {
        std::string w = in.tok();
        int e = in.num();
        items.push_back(vf::J().set("w", w).set("e", e).str());
        if (w == "a") { // all unknowns at once
          RealArray S(sam->getNoDOFs());
          for (size_t i = 0; i < S.size(); i++) S[i] = SE(e, s, i+1);
          sam->addToRHS(b, S);
          continue;
        }
        if (w == "n") { // one node
          std::pair<int,int> d = sam->getNodeDOFs(e);
          std::vector<double> nS;
          for (int i = d.first; i <= d.second; i++) nS.push_back(SE(e, s, i-d.first+1));
          nS.push_back(0.0);
          ok &= sam->assembleSystem(b, nS.data(), e, &rf);
          continue;
        }
        IntVec meen;
        ok &= sam->getElmEqns(meen, e);
        int nd = meen.size();
        Matrix K(nd, nd);
        Vector S(nd);
        for (int i = 1; i <= nd; i++) {
          S(i) = SE(e, s, i);
          for (int l = 1; l <= nd; l++) K(i,l) = KE(e, s, i, l);
        }
        if (w == "k") ok &= sam->assembleSystem(*A, b, K, e, &rf);
        else if (w == "m") ok &= sam->assembleSystem(*A, K, e);
        else if (w == "r") ok &= sam->assembleSystem(b, K, e, &rf);
        else if (w == "v") ok &= sam->assembleSystem(b, S, e, &rf);
        else _exit(97);
      }
      ok &= A->endAssembly();
      int neq = sam->getNoEquations();
      std::vector<std::string> rows(neq);
      std::vector<std::vector<int>> K(neq, std::vector<int>(neq));
      for (int c = 1; c <= neq; c++) {
        StdVector x(neq), y(neq);
        x.init(); x(c) = 1.0;
        if (!A->multiply(x, y)) ok = false;
        for (int i = 1; i <= neq; i++) K[i-1][c-1] = vf::q(y(i));
      }
      for (int i = 0; i < neq; i++) rows[i] = vf::ilist(K[i]);
      std::vector<int> rhs, react;
      for (double z : b) rhs.push_back(vf::q(z));
      for (int i = 1; i <= sam->getNoNodes(); i++) {
        RealArray nrf;
        sam->getNodalReactions(i, rf, nrf);
        for (double z : nrf) react.push_back(vf::q(z));
      }
      out.step(j.set("fmt", fmt).set("s", s).raw("items", vf::list(items)).set("ok", ok).raw("K", vf::list(rows))
               .arr("rhs", rhs).arr("rf", react));
    } else
      _exit(97);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
