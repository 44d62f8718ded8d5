// Algebraic systems of several matrices, vectors and scalars: assembly, copies, sums, static condensation.
// Nodal forces and norms from elements, and the block matrices of elements.
#include "vf.h"
#include "fake_asm.h"
#include "SAMpatch.h"
#include "SystemMatrix.h"
#include "MPC.h"
#include "AlgEqSystem.h"
#include "BlockElmMats.h"
#include "ElmNorm.h"
#include "GlbForceVec.h"
#include "GlbNorm.h"
#include "ProcessAdm.h"
#include "Profiler.h"
#include <memory>
#include <omp.h>

static std::string rows(const Matrix& M, double scale)
{
  std::vector<std::string> r;
  for (size_t i = 1; i <= M.rows(); i++) {
    std::vector<int> x;
    for (size_t j = 1; j <= M.cols(); j++) x.push_back(std::fabs(M(i,j)*scale) < 1.0e8 ? (int)std::lround(M(i,j)*scale) : vf::BAD);
    r.push_back(vf::ilist(x));
  }
  return vf::list(r);
}
static std::string scaled(const RealArray& v, double scale)
{
  std::vector<int> x;
  for (double y : v) x.push_back(std::fabs(y*scale) < 1.0e8 ? (int)std::lround(y*scale) : vf::BAD);
  return vf::ilist(x);
}
static std::string exact(const RealArray& v) { std::vector<int> x; for (double y : v) x.push_back(vf::q(y)); return vf::ilist(x); }

static void blocks(vf::In& in, vf::Out& out, const std::string& id)
{
  int nbas = in.num(), nb = in.num(), nA = in.num();
  bool sym = in.num();
  std::vector<int> nen(nbas);
  for (int& n : nen) n = in.num();
  struct Bl { int bas, cmp; bool nul; };
  std::vector<Bl> bl(nb);
  std::vector<std::string> bj;
  for (Bl& b : bl) {
    b.bas = in.num(); b.cmp = in.num(); b.nul = in.num();
    bj.push_back(vf::J().set("bas", b.bas).set("cmp", b.cmp).set("nul", b.nul).str());
  }
  out.begin(id, vf::J().set("kind", "blk").arr("nen", nen).raw("bl", vf::list(bj)).set("sym", sym).str());
  out.step(vf::J("begin"));
  vf::J j("blk");
  BlockElmMats elm(nb, nbas);
  elm.resize(nA, 1 + nb);
  bool ok = true;
  for (int k = 0; k < nb; k++) ok &= elm.redim(k + 1, nen[bl[k].bas-1], bl[k].cmp, bl[k].nul ? -bl[k].bas : bl[k].bas);
  bool bad = elm.redim(nb + 1, 1, 1, nbas + 1);
  std::vector<int> sg;
  for (int k = nb + 1; k < nA; k++) {
    sg.push_back(in.num());
    ok &= elm.redimOffDiag(k, sg.back());
  }
  bool bad2 = elm.redimOffDiag(nA, 1) || elm.redimOffDiag(nA + 3, 1) || elm.redimOffDiag(nb, 1);
  ok &= elm.finalize();
  std::vector<std::string> vals, vecs, dims;
  int v = 0;
  for (int k = 1; k < nA; k++) {
    std::vector<int> x;
    for (size_t r = 1; r <= elm.A[k].rows(); r++)
      for (size_t s = 1; s <= elm.A[k].cols(); s++) { elm.A[k](r,s) = ++v; x.push_back(v); }
    vals.push_back(vf::ilist(x));
    std::vector<int> dm = {(int)elm.A[k].rows(), (int)elm.A[k].cols()};
    dims.push_back(vf::ilist(dm));
  }
  for (int k = 1; k <= nb; k++) {
    std::vector<int> x;
    for (double& y : elm.b[k]) { y = ++v; x.push_back(v); }
    vecs.push_back(vf::ilist(x));
  }
  const ElmMats& el = elm;
  std::string N = rows(el.getNewtonMatrix(), 1.0), R = exact(el.getRHSVector());
  N = rows(el.getNewtonMatrix(), 1.0); // again
  out.step(j.set("ok", ok).set("bad", bad || bad2).arr("sg", sg).raw("dims", vf::list(dims)).raw("vals", vf::list(vals)).raw("vecs", vf::list(vecs)).raw("N", N).raw("R", R));
}

static void norms(vf::In& in, vf::Out& out, const std::string& id)
{
  out.begin(id, vf::J().set("kind", "nrm").str());
  out.step(vf::J("begin"));
  std::string fin = in.tok();
  bool delayed = in.num();
  std::vector<int> sizes(in.num());
  for (int& s : sizes) s = in.num();
  int n = in.num(), ne = in.num();
  Vectors glb(sizes.size());
  for (size_t g = 0; g < glb.size(); g++) glb[g].resize(sizes[g]);
  std::vector<std::string> vals, after;
  std::vector<std::vector<double>> arr(ne, std::vector<double>(n));
  std::vector<std::unique_ptr<ElmNorm>> el(ne);
  bool ok = true;
  {
    GlbNorm norm(glb, fin == "sqrt" ? ASM::SQRT : fin == "abs" ? ASM::ABS : ASM::NONE);
    if (delayed) norm.delayAssembly();
    for (int e = 0; e < ne; e++) {
      el[e].reset(delayed ? new ElmNorm(arr[e].data(), n) : new ElmNorm(n));
      std::vector<int> x;
      for (int k = 0; k < n; k++) { x.push_back(in.num()); (*el[e])[k] = x.back(); }
      vals.push_back(vf::ilist(x));
      ok &= norm.assemble(el[e].get(), e + 1);
    }
    if (delayed)
      for (int e = 0; e < ne; e++) ok &= norm.assemble(el[e].get(), 0);
  }
  auto sq = [&fin](double v) { return fin == "sqrt" ? vf::qt(v*std::fabs(v)) : vf::q(v); };
  std::vector<std::string> sums;
  for (const Vector& g : glb) { std::vector<int> x; for (double v : g) x.push_back(sq(v)); sums.push_back(vf::ilist(x)); }
  for (int e = 0; e < ne; e++) { std::vector<int> x; for (int k = 0; k < n; k++) x.push_back(sq((*el[e])[k])); after.push_back(vf::ilist(x)); }
  out.step(vf::J("nrm").set("fin", fin).arr("sizes", sizes).raw("vals", vf::list(vals)).set("ok", ok).raw("sums", vf::list(sums)).raw("elm", vf::list(after)));
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  if (!utl::profiler) utl::profiler = new Profiler("systems");
  auto ints = [&in]() { IntVec v(in.num()); for (int& x : v) x = in.num(); return v; };
  std::string kind = in.tok();
  if (kind == "blk") return blocks(in, out, id);
  if (kind == "nrm") return norms(in, out, id);

  int thr = in.num(), nn = in.num(), nf = in.num(), ne = in.num();
  std::vector<IntVec> elms, el0;
  std::vector<std::string> ej, pj;
  IntVec nodes, ids;
  for (int e = 0; e < ne; e++) {
    elms.push_back(ints()); ej.push_back(vf::ilist(elms.back()));
    el0.push_back(elms.back());
    for (int& n : el0.back()) n--;
    ids.push_back(e + 1);
  }
  for (int n = 1; n <= nn; n++) nodes.push_back(n);
  omp_set_num_threads(thr);
  FakeASM patch(nf);
  patch.setTopology(nodes, el0, ids);
  IntVec fix = ints();
  for (int d : fix) patch.fix((d-1)/nf + 1, (d-1)%nf + 1);
  int np = in.num();
  for (int k = 0; k < np; k++) {
    int d = in.num(), v = in.num();
    MPC* mpc = new MPC((d-1)/nf + 1, (d-1)%nf + 1, v);
    if (!patch.addMPC(mpc, 0, false, false)) _exit(96);
    pj.push_back("[" + std::to_string(d) + "," + std::to_string(v) + "]");
  }
  SAMpatch sam;
  if (!sam.init({&patch}, nn, {})) _exit(95);
  std::string type = in.tok();
  int nA = in.num(), nB = in.num(), nC = in.num();
  bool reac = in.num();
  out.begin(id, vf::J().set("kind", "sys").set("nn", nn).set("nf", nf).raw("elms", vf::list(ej)).arr("fix", fix).raw("pres", vf::list(pj))
            .set("nA", nA).set("nB", nB).set("nC", nC).set("reac", reac).str());
  out.step(vf::J("begin"));
  ProcessAdm adm;
  const LinAlg::MatrixType mt = type == "dense" ? LinAlg::DENSE : LinAlg::SPARSE;
  std::unique_ptr<AlgEqSystem> sys[2];
  const int neq = sam.getNoEquations();
  const char* dir = getenv("VF_SCRATCH");
  const std::string file = std::string(dir ? dir : "/tmp") + "/recovery-" + id + "-" + std::to_string(getpid());

  auto observe = [&](vf::J& j, AlgEqSystem& s, bool all)
  {
    std::vector<std::string> A, b;
    bool ok = true;
    for (int k = 0; k < nA; k++) {
      Matrix M(neq, neq);
      const SystemMatrix* m = s.getMatrix(k);
      for (int c = 1; c <= neq && m; c++) {
        StdVector x(neq), y(neq);
        x.init(); x(c) = 1.0;
        ok &= m->multiply(x, y);
        for (int i = 1; i <= neq; i++) M(i,c) = y(i);
      }
      A.push_back(m ? rows(M, 1.0) : "[]");
    }
    for (int k = 0; k < nB; k++) {
      RealArray v(s.getVector(k)->getPtr(), s.getVector(k)->getPtr() + s.getVector(k)->dim());
      b.push_back(exact(v));
    }
    std::vector<int> cs, rf;
    for (int k = 0; k < nC; k++) cs.push_back(vf::q(s.getScalar(k)));
    if (reac && nA == 1 && nB > 0)
      for (int i = 1; i <= nn; i++) {
        RealArray nrf;
        if (s.getReactions()) sam.getNodalReactions(i, *s.getReactions(), nrf);
        nrf.resize(nf);
        for (double z : nrf) rf.push_back(vf::q(z));
      }
    else
      rf.resize(nn*nf);
    if (!all) j.set("mult", ok);
    j.set("got", ok).raw("A", vf::list(A)).raw("b", vf::list(b)).arr("c", cs).arr("R", rf);
  };

  auto element = [&](ElmMats& elm, vf::J& j)
  {
    int e = in.num(), lhs = in.num(), rhs = in.num(), mA = in.num(), mb = in.num(), mc = in.num();
    const int n = elms[e-1].size()*nf;
    elm.withLHS = lhs; elm.rhsOnly = rhs;
    elm.resize(mA, mb, mc);
    elm.redim(n);
    std::vector<std::string> A, b;
    std::vector<int> cs;
    for (Matrix& M : elm.A) {
      std::vector<int> x;
      for (int r = 1; r <= n; r++) for (int s = 1; s <= n; s++) { x.push_back(in.num()); M(r,s) = x.back(); }
      A.push_back(vf::ilist(x));
    }
    for (Vector& v : elm.b) {
      std::vector<int> x;
      for (int r = 1; r <= n; r++) { x.push_back(in.num()); v(r) = x.back(); }
      b.push_back(vf::ilist(x));
    }
    for (double& x : elm.c) { cs.push_back(in.num()); x = cs.back(); }
    j.set("e", e).set("lhs", (bool)lhs).set("rhs", (bool)rhs).raw("A", vf::list(A)).raw("b", vf::list(b)).arr("c", cs);
    return e;
  };

  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    if (op == "frc") {
      IntVec nod = ints();
      int k = in.num();
      GlbForceVec F(sam);
      bool ok0 = F.initNodeMap(nod, nf);
      std::vector<std::string> els, f, byn;
      std::vector<int> oks;
      if (ok0) F.initialize();
      while (k-- > 0) {
        ElmMats elm;
        vf::J ej2;
        int e = element(elm, ej2);
        els.push_back(ej2.str());
        oks.push_back(ok0 ? F.assemble(&elm, e) : 0);
      }
      std::vector<int> tot, who;
      auto three = [nf](const Vec3& v) { std::vector<int> x; for (int d = 0; d < nf; d++) x.push_back(vf::q(v[d])); return x; };
      if (ok0) {
        ok0 = F.finalize();
        for (size_t i = 0; i < nod.size(); i++) { Vec3 v; who.push_back(F.getForce(i, v)); f.push_back(vf::ilist(three(v))); }
        for (int i = 1; i <= nn; i++) byn.push_back(vf::ilist(three(F.getForce(i))));
        tot = three(F.getTotalForce());
      }
      out.step(j.arr("nodes", nod).raw("els", vf::list(els)).set("ok0", ok0).arr("oks", oks).arr("who", who).raw("f", vf::list(f)).raw("byn", vf::list(byn)).arr("tot", tot));
      continue;
    }
    int s = in.num();
    j.set("s", s);
    auto& S = sys[s-1];
    bool ok = true;
    if (op == "new") { S.reset(new AlgEqSystem(sam, &adm)); ok = S->init(mt, nullptr, nA, nB, nC, reac, 1); }
    else if (op == "asc") { int a = in.num(), b = in.num(); j.set("a", a).set("b", b); ok = S->setAssociatedVector(a-1, b-1); }
    else if (op == "ini") { int l = in.num(); j.set("lhs", l); S->initialize(l); }
    else if (op == "elm") {
      int t = in.num();
      ElmMats elm;
      int e = element(elm, j);
      #pragma omp parallel num_threads(thr)
      if (omp_get_thread_num() == t % thr) ok = S->assemble(&elm, e);
    }
    else if (op == "fin") { int l = in.num(); ok = S->finalize(l); observe(j, *S, false); }
    else if (op == "cpy") {
      int b = in.num();
      j.set("o", b);
      if (!S) { S.reset(new AlgEqSystem(sam, &adm)); }
      S->copy(*sys[b-1]);
      observe(j, *S, false);
    }
    else if (op == "add") { int b = in.num(); j.set("o", b); S->add(*sys[b-1]); observe(j, *S, false); }
    else if (op == "obs") observe(j, *S, false);
    else if (op == "con") {
      int im = in.num();
      IntVec ext = ints(), xe = ints();
      Matrix Ar, Rm;
      Vector br, full;
      ok = S->staticCondensation(Ar, br, ext, im - 1, file.c_str());
      j.set("im", im).arr("ext", ext).arr("xe", xe).set("done", ok);
      if (ok) {
        bool rd = AlgEqSystem::readRecoveryMatrix(Rm, file.c_str());
        Vector x(xe.size());
        for (size_t k = 0; k < xe.size(); k++) x[k] = xe[k];
        bool rec = rd && S->recoverInternals(Rm, ext, x, full);
        j.set("rd", rd).set("rec", rec).raw("Ar", rows(Ar, 1000.0)).raw("br", scaled(br, 1000.0)).raw("xf", scaled(full, 1000.0));
      }
      std::remove(file.c_str());
      ok = true;
    }
    else
      _exit(97);
    out.step(j.set("ok", ok));
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
