// A patch with an arbitrary finite element topology and no geometry.
#ifndef FAKE_ASM_H
#define FAKE_ASM_H
#include "ASMbase.h"
#include "Vec3.h"

class FakeASM : public ASMbase
{
public:
  explicit FakeASM(unsigned char n_f = 1, unsigned char n_s = 2, unsigned char n_p = 2) : ASMbase(n_p, n_s, n_f) {}
  FakeASM(const FakeASM& p, unsigned char n_f) : ASMbase(p, n_f), X(p.X) {}
  virtual ~FakeASM() {}

  void setTopology(const IntVec& nodes, const std::vector<IntVec>& elms, const IntVec& ids)
  {
    myMLGN = nodes; myMNPC = elms; myMLGE = ids;
    nnod = nodes.size(); nel = elms.size();
  }
  void setElmNos(const IntVec& ids) { myMLGE = ids; }
  const IntVec& nodeNos() const { return MLGN; }
  bool fixedDofs(int node, int dofs) const { return this->isFixed(node, dofs, true); }
  const BCVec& bcs() const { return BCode; }
  const MPCMap& codes() const { return dCode; }

  bool empty() const override { return MLGN.empty(); }
  bool read(std::istream&) override { return false; }
  bool write(std::ostream&, int) const override { return false; }
  bool generateFEMTopology() override { return true; }
  Vec3 getCoord(size_t inod) const override { return Vec3(inod <= X.size() ? X[inod-1] : 0.0, 0.0, 0.0); }
  void getNodalCoordinates(Matrix&, bool) const override {}
  bool getElementCoordinates(Matrix&, int, bool) const override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  void getBoundaryNodes(int, IntVec&, int, int, int, bool) const override {}
  bool getParameterDomain(Real2DMat&, IntVec*) const override { return false; }
  void getElmConnectivities(IntMat& n, int) const override { n = neighs; }
  bool updateCoords(const Vector&) override { return true; }
  bool integrate(Integrand&, GlobalIntegral&, const TimeDomain&) override { return true; }
  bool integrate(Integrand&, int, GlobalIntegral&, const TimeDomain&) override { return true; }
  int evalPoint(const double*, double*, Vec3&) const override { return 0; }
  int findElementContaining(const double*) const override { return 0; }
  double findPoint(Vec3&, double*) const override { return 0.0; }
  bool tesselate(ElementBlock&, const int*) const override { return false; }
  void findBoundaryElms(IntVec&, int, int) const override {}

  IntMat neighs;
  std::vector<double> X;
};
#endif
