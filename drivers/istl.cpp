// Equation systems on the ISTL format: assembly, iterative solution with preconditioners, re-use.
#include "vf.h"
#include "fake_asm.h"
#include "SAMpatch.h"
#include "ISTLMatrix.h"
#include "LinSolParams.h"
#include "ProcessAdm.h"
#include "LinAlgInit.h"
#include "tinyxml2.h"
#include <memory>
#include <omp.h>

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  auto ints = [&in]() { IntVec v(in.num()); for (int& x : v) x = in.num(); return v; };
  std::string type = in.tok(), pc = in.tok(), reset = in.tok();
  int maxits = in.num(), thr = in.num(), slots = in.num(), nm = in.num();
  omp_set_num_threads(thr);
  struct Mesh { std::unique_ptr<FakeASM> patch; std::unique_ptr<SAMpatch> sam; std::vector<IntVec> elms; };
  std::vector<Mesh> mesh(nm);
  std::vector<std::string> mj;
  for (Mesh& g : mesh)
  {
    int nn = in.num(), ne = in.num();
    IntVec nodes, ids;
    std::vector<IntVec> el0;
    std::vector<std::string> ej;
    for (int e = 0; e < ne; e++) { g.elms.push_back(ints()); ej.push_back(vf::ilist(g.elms.back())); }
    IntVec fixed = ints();
    for (int n = 1; n <= nn; n++) nodes.push_back(n);
    for (int e = 0; e < ne; e++) { ids.push_back(e+1); el0.push_back(g.elms[e]); for (int& n : el0.back()) n--; }
    g.patch = std::make_unique<FakeASM>(1);
    g.patch->setTopology(nodes,el0,ids);
    for (int n : fixed) g.patch->fix(n,1);
    g.sam = std::make_unique<SAMpatch>();
    if (!g.sam->init({g.patch.get()},nn,{})) _exit(96);
    mj.push_back(vf::J().set("nn",nn).raw("elms",vf::list(ej)).arr("fixed",fixed).str());
  }
  out.begin(id, vf::J().set("type",type).set("pc",pc).set("reset",reset).set("maxits",maxits).set("slots",slots).raw("mesh",vf::list(mj)).str());

  ProcessAdm adm;
  LinSolParams par(LinAlg::GENERAL_MATRIX);
  std::string xml = "<linearsolver class=\"istl\" verbosity=\"0\"><type>" + type + "</type><pc>" + pc + "</pc><rtol>1e-11</rtol><maxits>" + std::to_string(maxits) + "</maxits>"
    + (reset == "none" ? "" : "<reset_pc>" + reset + "</reset_pc>") + (pc == "amg" ? "<multigrid smoother=\"ssor\"/>" : "") + "</linearsolver>";
  tinyxml2::XMLDocument doc;
  doc.Parse(xml.c_str());
  bool rd = par.read(doc.RootElement());
  out.step(vf::J("begin").set("ok",rd));

  std::vector<std::unique_ptr<SystemMatrix>> m(slots);
  int step = 0;
  while (in.more())
  {
    std::string op = in.tok();
    int s = in.num();
    auto& A = m[s-1];
    vf::J j(op);
    j.set("s",s);
    bool ok = true;
    step++;
    if (op == "new") A.reset(SystemMatrix::create(&adm,LinAlg::ISTL,par));
    else if (op == "iam") { int g = in.num(); j.set("g",g); A->initAssembly(*mesh[g-1].sam); }
    else if (op == "init") A->init();
    else if (op == "inz") A->initNonZeroEqs();
    else if (op == "sam")
    {
      int g = in.num(), e = in.num();
      IntVec x = ints();
      j.set("e",e).arr("x",x);
      int n = mesh[g-1].elms[e-1].size();
      Matrix eM(n,n);
      for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) eM(i+1,k+1) = x[i*n+k];
      ok = A->assemble(eM,*mesh[g-1].sam,e);
    }
    else if (op == "end") { ok = A->endAssembly(); j.set("norm",vf::q(std::min(A->Linfnorm(),1.0e6))); }
    else if (op == "cpy") { int b = in.num(); j.set("b",b); A.reset(m[b-1]->copy()); }
    else if (op == "sol")
    {
      int mode = in.num();
      IntVec b = ints();
      j.set("mode",mode).arr("b",b);
      std::vector<double> v(b.begin(),b.end());
      std::vector<int> o;
      auto put = [&o](double x) { o.push_back(std::fabs(x) < 1.0e6 ? (int)std::lround(1000.0*x) : vf::BAD); };
      if (mode == 0) // solution on the right-hand-side vector
      {
        ISTLVector B(adm,v.data(),v.size());
        ok = A->solve(B);
        if (ok) for (double x : B) put(x);
      }
      else if (mode == 1) // separate solution vector, the right-hand-side is kept
      {
        ISTLVector B(adm,v.data(),v.size()), X(adm,v.size());
        if (step%2) X.init(3.0);
        ok = A->solve(B,X);
        if (ok) for (double x : X) put(x);
        for (size_t i = 0; i < v.size(); i++)
          if (B(i+1) != v[i] || B.getVector()[i][0] != v[i]) ok = false;
        if (ok && step%3 == 0) // once more for the same right-hand side
        {
          ISTLVector Y(adm,v.size());
          ok = A->solve(B,Y);
          for (size_t i = 0; i < v.size() && ok; i++) if (std::fabs(Y(i+1)-X(i+1)) > 1.0e-6*(1.0+std::fabs(X(i+1)))) o[i] = vf::BAD;
          j.set("twice",true);
        }
      }
      else if (mode == 2) // assembled right-hand side
      {
        std::unique_ptr<SystemVector> B(SystemVector::create(&adm,LinAlg::ISTL));
        B->redim(v.size());
        B->init();
        for (size_t i = 0; i < v.size(); i++) B->getPtr()[i] += v[i];
        B->endAssembly();
        double n1 = 0.0, n2 = 0.0, n3 = 0.0;
        for (double x : v) { n1 += fabs(x); n2 += x*x; n3 = std::max(n3,fabs(x)); }
        bool same = B->L1norm() == n1 && fabs(B->L2norm()-sqrt(n2)) < 1.0e-9*(1.0+n2) && B->Linfnorm() == n3 && B->dim() == v.size();
        ok = A->solve(*B);
        if (ok) for (size_t i = 0; i < v.size(); i++) put(same ? B->getPtr()[i] : 1.0e9);
      }
      else // not the vector type of this format
      {
        StdVector B(v);
        ok = A->solve(B);
        if (ok) for (double x : B) put(x);
      }
      j.arr("out",o);
    }
    else { fprintf(stderr,"op %s?\n",op.c_str()); _exit(97); }
    out.step(j.set("dim",A->dim()).set("ok",ok));
  }
}

int main(int argc, char** argv) { LinAlgInit::Init(argc,argv); return vf::drive(argc,argv,run); }
