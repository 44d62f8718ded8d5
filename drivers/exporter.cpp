// Drives DataExporter with recording writers, and with a real result file.
#include "vf.h"
#include "DataExporter.h"
#include "HDF5Writer.h"
#include "HDF5Reader.h"
#include "ProcessAdm.h"
#include "TimeStep.h"
#include "matrix.h"
#include "tinyxml2.h"
#include <memory>
#include <sys/stat.h>

static const char* names[] = { "c", "a", "d", "b 2" };
static utl::vector<double> dv[8];
static std::vector<int> iv[8];
static std::vector<std::string> ev;

static int ident(const void* p)
{
  if (!p) return -1;
  for (int k = 0; k < 8; k++) if (p == &dv[k] || p == &iv[k]) return k;
  return -2;
}

class Recorder : public DataWriter
{
  int me, last;
  void note(const char* k, int lev, const DataEntry* e = nullptr, int geo = 0, const std::string& pre = "")
  {
    vf::J j;
    j.set("w", me).set("k", k).set("l", lev);
    if (e) {
      int n = 0;
      while (n < 4 && e->first != names[n]) n++;
      std::vector<int> v = { ident(e->second.data) };
      for (const void* p : e->second.data2) v.push_back(ident(p));
      // the prefix comes with a separating blank
      j.set("n", n).set("on", e->second.enabled).arr("v", v).set("geo", geo).set("res", e->second.results)
       .set("pre", pre == "" ? 0 : pre == "p " ? 1 : pre == "q " ? 2 : -1).set("nc", e->second.ncmps);
    }
    ev.push_back(j.str());
  }
public:
  Recorder(const ProcessAdm& adm, int m, int l) : DataWriter("rec", adm), me(m), last(l) {}
  int getLastTimeLevel() override { return last; }
  void openFile(int l) override { note("open", l); }
  void closeFile(int l) override { note("close", l); }
  void writeVector(int l, const DataEntry& e) override { note("vec", l, &e, 0, e.second.prefix); }
  void writeSIM(int l, double t, const DataEntry& e, bool geo, const std::string& p) override { note("sim", l, &e, 2*(int)t + geo, p); }
  void writeNodalForces(int l, const DataEntry& e) override { note("nod", l, &e, 0, e.second.prefix); }
  void writeKnotspan(int l, const DataEntry& e, const std::string& p) override { note("knot", l, &e, 0, p); }
  void writeBasis(int l, const DataEntry& e, const std::string& p) override { note("basis", l, &e, 0, p); }
  bool writeTimeInfo(int l, double t) override { ev.push_back(vf::J().set("w", me).set("k", "time").set("l", l).set("t", vf::q(t)).str()); return true; }
  bool writeLog(const std::string&, const std::string&) override { note("log", 0); return true; }
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  std::string file = std::string(getenv("VF_SCRATCH")) + "/e" + id + ".hdf5";
  for (int k = 0; k < 8; k++) { dv[k] = { k + 0.5, -1.0 }; iv[k] = { k, 7, -k }; }
  int nw = in.num(), stride = in.num(), level0 = in.num(), real = in.num();
  ProcessAdm adm;
  std::unique_ptr<DataExporter> exp(new DataExporter(true, stride, level0));
  std::vector<int> last;
  for (int k = 1; k <= nw; k++) { last.push_back(in.num()); exp->registerWriter(new Recorder(adm, k, last.back())); }
  if (real) exp->registerWriter(new HDF5Writer(file, adm));
  out.begin(id, vf::J().set("nw", nw).set("stride", stride).set("lev0", level0).set("real", real != 0).arr("last", last).str());
  out.step(vf::J("begin").set("ok", true));
  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    ev.clear();
    if (op == "reg") {
      int n = in.num(), ty = in.num(), res = in.num(), pre = in.num(), nc = in.num();
      const char* ps[] = { "", "p", "q" };
      j.set("n", n).set("ty", ty).set("res", res).set("pre", pre).set("nc", nc);
      j.set("r", exp->registerField(names[n], "field", (DataExporter::FieldType)ty, res, ps[pre], nc));
    } else if (op == "val") { // value, -1: none
      int n = in.num(), v = in.num(), isint = in.num(), v2 = in.num();
      auto p = [isint](int k) { return k < 0 ? nullptr : isint ? (const void*)&iv[k] : (const void*)&dv[k]; };
      j.set("n", n).set("v", v).set("v2", v2).set("r", exp->setFieldValue(names[n], p(v), p(v2), p(v2), nullptr));
    } else if (op == "dump") { // step -1: no time stepping
      TimeStep tp;
      int step = in.num(), time = in.num(), multi = in.num(), geo = in.num();
      tp.step = step; tp.time.t = time; tp.time.dt = 1.0; tp.starTime = 0.0; tp.stopTime = multi ? 100.0 : 1.0;
      bool r = exp->dumpTimeLevel(step < 0 ? nullptr : &tp, geo);
      j.set("step", step).set("time", time).set("multi", multi != 0).set("geo", geo != 0).set("r", r).set("lev", exp->getTimeLevel());
    } else if (op == "ctl") { // what: 0 enable, 1 disable, 2 stride
      int what = in.num(), n = in.num();
      std::string x = "<datawriter>";
      if (what < 2) x += std::string("<enable_field name=\"") + names[n] + (what == 0 ? "\"/>" : "\" enable=\"false\"/>");
      else x += "<set_stride value=\"" + std::to_string(n) + "\"/>";
      x += "</datawriter>";
      tinyxml2::XMLDocument doc;
      doc.Parse(x.c_str());
      exp->OnControl(doc.RootElement());
      j.set("what", what).set("n", n).set("r", exp->getStride());
    } else _exit(97);
    j.raw("ev", vf::list(ev));
    out.step(j);
  }
  if (real) {
    exp.reset();
    std::vector<std::string> js;
    struct stat sb;
    bool there = stat(file.c_str(), &sb) == 0;
    for (int l = 0; l < 12 && there; l++)
      for (int n = 0; n < 5; n++) {
        HDF5Reader r(file, adm);
        std::vector<double> v;
        double t;
        if (n < 4 && r.readVector(std::to_string(l) + "/" + names[n] + "/1", v)) {
          int k = 0, ii = 0;
          while (k < 8 && v != std::vector<double>(dv[k].begin(), dv[k].end())) k++;
          if (k == 8)
            for (k = 0, ii = 1; k < 8 && v != std::vector<double>(iv[k].begin(), iv[k].end());) k++;
          js.push_back("[" + std::to_string(l) + "," + std::to_string(n) + "," + std::to_string(ii) + "," + std::to_string(k) + "]");
        } else if (n == 4 && r.readDouble(std::to_string(l) + "/timeinfo/level", t))
          js.push_back("[" + std::to_string(l) + ",4,0," + std::to_string(vf::q(t)) + "]");
      }
    out.step(vf::J("file").raw("d", vf::list(js)).raw("ev", "[]"));
    unlink(file.c_str());
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
