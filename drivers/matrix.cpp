// System matrices: the same operations on all storage formats.
#include "vf.h"
#include "fake_asm.h"
#include "SAMpatch.h"
#include "DenseMatrix.h"
#include "SparseMatrix.h"
#include "DiagMatrix.h"
#include <memory>
#include <omp.h>

static int Q(double v)
{
  double r = std::nearbyint(v);
  return r == v && std::fabs(r) <= 2.1e9 ? (int)r : vf::BAD;
}

using MPtr = std::unique_ptr<SystemMatrix>;

static MPtr make(const std::string& kind, int r, int k)
{
  if (kind == "dense") return MPtr(new DenseMatrix(r,k));
  if (kind == "sym")   return MPtr(new DenseMatrix(r,k,true));
  if (kind == "diag")  return MPtr(new DiagMatrix(r));
  if (kind == "slu")   return MPtr(new SparseMatrix(r,k,SparseMatrix::SUPERLU));
  if (kind == "umf")   return MPtr(new SparseMatrix(r,k,SparseMatrix::UMFPACK));
  if (kind == "samg")  return MPtr(new SparseMatrix(r,k,SparseMatrix::S_A_M_G));
  return MPtr(new SparseMatrix(r,k));
}

static DenseMatrix* D(const MPtr& m) { return dynamic_cast<DenseMatrix*>(m.get()); }
static SparseMatrix* S(const MPtr& m) { return dynamic_cast<SparseMatrix*>(m.get()); }
static DiagMatrix* G(const MPtr& m) { return dynamic_cast<DiagMatrix*>(m.get()); }
static int rows(const MPtr& m) { return m->dim(1); }
static int cols(const MPtr& m) { return m->dim(2); }

static double get(const MPtr& m, int i, int j)
{
  if (auto d = D(m)) { const DenseMatrix& c = *d; return c(i,j); }
  if (auto s = S(m)) { const SparseMatrix& c = *s; return c(i,j); }
  return i == j ? (*G(m))(i) : 0.0;
}

static std::string values(const MPtr& m)
{
  std::vector<std::string> v;
  for (int i = 1; i <= rows(m); i++)
  {
    std::vector<int> r;
    for (int j = 1; j <= cols(m); j++) r.push_back(Q(get(m,i,j)));
    v.push_back(vf::ilist(r));
  }
  return vf::list(v);
}

static std::string table(const std::vector<std::vector<double>>& t)
{
  std::vector<std::string> v;
  for (const auto& r : t) { std::vector<int> q; for (double x : r) q.push_back(Q(x)); v.push_back(vf::ilist(q)); }
  return vf::list(v);
}

//! Reads what was dumped.
static std::string reread(const MPtr& m, bool market)
{
  std::ostringstream os;
  os.precision(17);
  m->dump(os, market ? LinAlg::MATRIX_MARKET : LinAlg::MATLAB, "A");
  std::string txt = os.str(), line;
  if (getenv("VF_VERBOSE")) std::cerr << txt;
  int r = rows(m), k = cols(m);
  std::vector<std::vector<double>> t(r, std::vector<double>(k, 0.0));
  auto bad = [&t](double v) { if (t.empty() || t[0].empty()) t = {{v}}; else t[0][0] = v; return table(t); };
  std::istringstream is(txt);
  if (market)
  {
    std::getline(is,line);
    bool coord = line.find("coordinate") != std::string::npos;
    do std::getline(is,line); while (is && line[0] == '%');
    std::istringstream hd(line);
    int hr = 0, hk = 0, n = 0;
    hd >> hr >> hk;
    if (hr != r || hk != k) return bad(vf::BAD);
    if (coord)
    {
      if (!(hd >> n)) return bad(vf::BAD);
      int i, j, c = 0; double x;
      while (is >> i >> j >> x)
      {
        c++;
        if (i < 1 || i > r || j < 1 || j > k) return bad(vf::BAD);
        t[i-1][j-1] += x;
      }
      if (c != n) return bad(vf::BAD);
    }
    else
    {
      double x;
      for (int j = 0; j < k; j++)
        for (int i = 0; i < r; i++)
          if (is >> x) t[i][j] = x; else return bad(vf::BAD);
      if (is >> x) return bad(vf::BAD);
    }
    return table(t);
  }
  // Matlab: everything between the brackets, rows separated by semicolons or line shifts
  size_t a = txt.find('['), b = txt.rfind(']');
  if (a == std::string::npos || b == std::string::npos) return bad(vf::BAD);
  std::vector<std::vector<double>> rowsIn(1);
  std::string body = txt.substr(a+1, b-a-1), w;
  for (size_t p = 0; p <= body.size(); p++)
  {
    char c = p < body.size() ? body[p] : ' ';
    if (c == ';' || c == ' ' || c == '\n' || c == ',' || c == '\t')
    {
      if (!w.empty())
      {
        if (w != "...") rowsIn.back().push_back(atof(w.c_str()));
        else { w.clear(); while (p < body.size() && body[p] != '\n') p++; continue; }
      }
      w.clear();
      if ((c == ';' || c == '\n') && !rowsIn.back().empty()) rowsIn.push_back({});
    }
    else
      w += c;
  }
  if (rowsIn.back().empty()) rowsIn.pop_back();
  if (S(m))
  {
    for (const auto& e : rowsIn)
    {
      if (e.size() != 3 || e[0] < 1 || e[0] > r || e[1] < 1 || e[1] > k) return bad(vf::BAD);
      t[e[0]-1][e[1]-1] += e[2];
    }
    return table(t);
  }
  if (G(m))
  {
    int n = 0;
    for (const auto& e : rowsIn)
      for (double x : e) { if (n >= r) return bad(vf::BAD); t[n][n] = x; n++; }
    return n == r ? table(t) : bad(vf::BAD);
  }
  return table(rowsIn);
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  auto ints = [&in]() { IntVec v(in.num()); for (int& x : v) x = in.num(); return v; };
  int nn = in.num(), ne = in.num();
  std::vector<IntVec> elms; std::vector<std::string> ej;
  for (int e = 0; e < ne; e++) { elms.push_back(ints()); ej.push_back(vf::ilist(elms.back())); }
  IntVec fixed = ints();
  int thr = in.num(), slots = in.num();
  out.begin(id, vf::J().set("nn",nn).raw("elms",vf::list(ej)).arr("fixed",fixed).set("thr",thr).set("slots",slots).str());
  out.step(vf::J("begin"));
  omp_set_num_threads(thr);

  FakeASM patch(1);
  IntVec nodes, ids;
  std::vector<IntVec> el0;
  for (int n = 1; n <= nn; n++) nodes.push_back(n);
  for (int e = 0; e < ne; e++) { ids.push_back(e+1); el0.push_back(elms[e]); for (int& n : el0.back()) n--; }
  patch.setTopology(nodes, el0, ids);
  for (int n : fixed) patch.fix(n, 1);
  SAMpatch sam;
  if (!sam.init({&patch}, nn, {})) _exit(96);

  std::vector<MPtr> m(slots);
  std::vector<std::string> kd(slots, "void");
  int step = 0;
  while (in.more())
  {
    std::string op = in.tok();
    int s = in.num(), s0 = s - 1;
    std::vector<std::string> a;
    auto I = [&]() { int v = in.num(); a.push_back(std::to_string(v)); return v; };
    auto L = [&]() { IntVec v = ints(); a.push_back(vf::ilist(v)); return v; };
    auto W = [&]() { std::string v = in.tok(); a.push_back('"' + v + '"'); return v; };
    MPtr& A = m[s0];
    bool ok = true;
    std::string res = "[]";
    step++;
    if (op == "new") { std::string k = W(); int r = I(), c = I(); A = make(k,r,c); kd[s0] = k; }
    else if (op == "set")
    {
      int i = I(), j = I(), x = I();
      if (auto d = D(A)) (*d)(i,j) = x;
      else if (auto p = S(A)) (*p)(i,j) = x;
      else (*G(A))(i) = x;
    }
    else if (op == "raw")
    {
      IntVec x = L(), q = L();
      int n = q.size();
      Matrix eM(n,n);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eM(i+1,j+1) = x[i*n+j];
      for (int& e : q) e--;
      ok = A->assemble(eM,q);
    }
    else if (op == "sam")
    {
      int e = I(); IntVec x = L();
      int n = elms[e-1].size();
      Matrix eM(n,n);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eM(i+1,j+1) = x[i*n+j];
      StdVector B(sam.getNoEquations());
      IntVec meq;
      sam.getElmEqns(meq,e);
      switch (step%3) {
      case 0: ok = A->assemble(eM,sam,e); break;
      case 1: ok = A->assemble(eM,sam,B,e); break;
      case 2: ok = A->assemble(eM,sam,B,meq); break;
      }
      if (B.normInf() != 0.0) ok = false;
    }
    else if (op == "init") A->init();
    else if (op == "iam") { std::string f = W(); A->initAssembly(sam, f == "0" ? 0 : f[0]); }
    else if (op == "inz") A->initNonZeroEqs();
    else if (op == "end") ok = A->endAssembly();
    else if (op == "pre")
    {
      int n = in.num();
      std::vector<IntVec> M; std::vector<std::string> mj;
      for (int k = 0; k < n; k++) { M.push_back(ints()); mj.push_back(vf::ilist(M.back())); for (int& x : M.back()) x--; }
      a.push_back(vf::list(mj));
      A->preAssemble(M);
    }
    else if (op == "cmp") A->compressPattern();
    else if (op == "lck") { int l = I(); ok = A->lockPattern(l); }
    else if (op == "rsz") { int r = I(), c = I(), f = I(); S(A)->resize(r,c,f); }
    else if (op == "rdm") { int r = I(), c = I(); ok = D(A) ? D(A)->redim(r,c) : S(A)->redim(r,c); }
    else if (op == "aug") { int b = I(), r = I(), c = I(); ok = A->augment(*m[b-1],r,c); }
    else if (op == "trc") { int p = I(), q = I(); ok = A->truncate(double(p)/q); }
    else if (op == "mul") A->mult(I());
    else if (op == "adm") { int b = I(), al = I(); ok = A->add(*m[b-1],al); }
    else if (op == "ads") { int sg = I(), e = I(); ok = A->add(double(sg),e); }
    else if (op == "mvp")
    {
      IntVec x = L();
      StdVector X(x.size());
      for (size_t i = 0; i < x.size(); i++) X[i] = x[i];
      std::vector<int> o;
      if (step%2)
      {
        StdVector Y = (*A)*X;
        for (double v : Y) o.push_back(Q(v));
      }
      else
      {
        StdVector Y(rows(A));
        if (step%4) Y.init(17.0);
        ok = A->multiply(X,Y);
        for (double v : Y) o.push_back(Q(v));
      }
      res = vf::ilist(o);
    }
    else if (op == "sol")
    {
      int mode = I(), wr = I(); IntVec b = L();
      StdVector B(b.size());
      for (size_t i = 0; i < b.size(); i++) B[i] = b[i];
      Real rc = 0.0;
      std::vector<int> o;
      auto put = [&o](double v) { o.push_back(std::fabs(v) < 2.0e6 ? vf::qt(v,1.0,1.0e-6) : vf::BAD); };
      if (mode == 0) { ok = A->solve(B, wr ? &rc : nullptr); for (double v : B) put(v); }
      else if (mode == 1)
      {
        StdVector X, B0(B);
        ok = A->solve(B,X);
        for (double v : X) put(v);
        for (size_t i = 0; i < b.size(); i++) if (B[i] != B0[i]) ok = false;
      }
      else if (Matrix X; true)
      {
        ok = A->solve(B,X);
        if (ok) for (size_t i = 1; i <= X.rows(); i++) for (size_t j = 1; j <= X.cols(); j++) put(X(i,j));
      }
      if (wr && ok && mode == 0 && !G(A) && kd[s0] != "sym" && !(rc >= 0.0 && rc < 1.001)) ok = false;
      res = ok ? vf::ilist(o) : "[]";
    }
    else if (op == "cpy") { int b = I(); A.reset(m[b-1]->copy()); kd[s0] = kd[b-1]; }
    else if (op == "spl")
    {
      IntVec q = L();
      std::array<SparseMatrix,4> sub;
      ok = S(A)->split(sub,q);
      if (ok)
      {
        std::vector<std::string> o;
        for (const SparseMatrix& c : sub)
        {
          std::vector<std::string> v;
          for (size_t i = 1; i <= c.rows(); i++)
          {
            std::vector<int> r;
            for (size_t j = 1; j <= c.cols(); j++) r.push_back(Q(c(i,j)));
            v.push_back(vf::ilist(r));
          }
          o.push_back(vf::list(v));
        }
        res = vf::list(o);
      }
    }
    else if (op == "col")
    {
      int c = I(); Vector col;
      if (step%2) { col.resize(rows(A)+2); col.fill(5.0); }
      ok = S(A)->getColumn(c,col);
      std::vector<int> o; for (double v : col) o.push_back(Q(v));
      res = vf::ilist(o);
    }
    else if (op == "csr")
    {
      IntVec ia(step%3 ? step%5 : 0, 3), ja(step%2 ? 7 : 0, 2);
      if (step%3 == 2) ia.assign(rows(A)+1, 9);
      S(A)->calcCSR(ia,ja);
      res = "{\"ia\":" + vf::ilist(ia) + ",\"ja\":" + vf::ilist(ja) + "}";
    }
    else if (op == "dmp") { int f = I(); res = reread(A,f); }
    else if (op == "lod")
    {
      int b = I(), bin = I();
      std::string fn = std::string(getenv("VF_SCRATCH")) + "/m" + std::to_string(getpid());
      m[b-1]->dump(fn.c_str(), 17, bin ? LinAlg::BINARY : LinAlg::FLAT);
      ok = A->load(fn.c_str(), bin);
      unlink(fn.c_str());
    }
    else { fprintf(stderr,"op %s?\n",op.c_str()); _exit(97); }

    std::vector<std::string> mj;
    for (int k = 0; k < slots; k++)
      if (!m[k]) mj.push_back("{\"r\":0}");
      else
        mj.push_back(vf::J().set("r",rows(m[k])).set("k",cols(m[k])).set("zero",m[k]->isZero()).raw("v",values(m[k]))
                     .set("nnz",S(m[k]) ? (int)S(m[k])->size() : 0).set("norm",rows(m[k]) > 0 ? Q(m[k]->Linfnorm()) : 0).str());
    out.step(vf::J(op).set("s",s).raw("a",vf::list(a)).set("ok",ok).raw("out",res).raw("m",vf::list(mj)));
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
