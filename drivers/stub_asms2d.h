// Stand-ins for the structured spline patch classes (they need the spline library, which is not available offline):
// only what the unstructured patches inherit from them.  The element integration only records when it is active.
#ifndef STUB_ASMS2D_H
#define STUB_ASMS2D_H
#define _ASM_S2D_H
#define _ASM_S2D_LAG_H
#include "fake_asm.h"
#include "ASMutils.h"
#include "ASMLagBase.h"
#include "ThreadGroups.h"
#include "Integrand.h"
#include "GlobalIntegral.h"
#include <memory>
#include <mutex>
#include <utility>
#include <unistd.h>

class ASMs2D : public FakeASM
{
public:
  struct BasisFunctionCache
  {
    virtual ~BasisFunctionCache() {}
    bool setIntegrand(const Integrand*) { return true; }
    bool init(int) { return true; }
    void clear() {}
    virtual double getParam(int, size_t, size_t, bool) const { return 0.0; }
    virtual void setupParameters() {}
  };
  ASMs2D(unsigned char ns, unsigned char nf) : FakeASM(nf, ns, 2) {}
  ASMs2D(const ASMs2D& p, unsigned char nf) : FakeASM(p, nf) {}
  ThreadGroups threadGroups;
  IntVec myElms;
  std::vector<std::unique_ptr<BasisFunctionCache>> myCache;
  using FakeASM::generateThreadGroups;
  virtual bool evalSolPt(int, double, double, size_t, const Vector&, RealArray&, RealArray&) const { return true; }
};

class ASMs2DLag : public ASMs2D, protected ASMLagBase
{
public:
  struct BasisFunctionCache : public ASMs2D::BasisFunctionCache { BasisFunctionCache(const ASMs2DLag&) {} };
  explicit ASMs2DLag(unsigned char ns = 2, unsigned char nf = 2) : ASMs2D(ns, nf) {}
  ASMs2DLag(const ASMs2DLag& p, unsigned char nf) : ASMs2D(p, nf), ASMLagBase(p) {}
  ASMs2DLag(const ASMs2DLag& p) : ASMs2D(p, p.nf), ASMLagBase(p) {}
  bool evalSolPt(int, double, double, size_t, const Vector&, RealArray&, RealArray&) const override { return true; }
  Vec3 getCoord(size_t inod) const override { return coord[inod-1]; }
  using FakeASM::integrate;

  //! (element, 1 = entered / 0 = left), in the order they happened
  std::vector<std::pair<int,int>> events;
  int failing = -1;
protected:
  bool integrateElm(Integrand&, GlobalIntegral&, int iel, ASMs2D::BasisFunctionCache&, const TimeDomain&)
  {
    { std::lock_guard<std::mutex> g(mtx); events.emplace_back(iel, 1); }
    usleep(300);
    { std::lock_guard<std::mutex> g(mtx); events.emplace_back(iel, 0); }
    return iel != failing;
  }
  int p1 = 0, p2 = 0;
private:
  std::mutex mtx;
};
#endif
