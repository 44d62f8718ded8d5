// Drives HDF5Restart, HDF5Writer and HDF5Reader on files in a scratch directory.
#include "vf.h"
#include "HDF5Restart.h"
#include "HDF5Writer.h"
#include "HDF5Reader.h"
#include "DataExporter.h"
#include "ProcessAdm.h"
#include "TimeStep.h"
#include "matrix.h"
#include <climits>
#include <limits>
#include <memory>
#include <sys/stat.h>

static const char* keys[] = { "SIMa", "time", "B c", "SIMa::basis", "x::basis", "::basis2" };
static const char* names[] = { "u", "v w", "strain" };
static std::string dir;

static std::string bytes(int id)
{
  std::string s;
  if (id == 1) return "a";
  if (id == 2) return std::string(1, '\0');
  for (int k = 0; k < id * id * 7; k++) s += char((k * 37 + id * 11 + k * k) & 255); // includes zero bytes
  return s;
}

static int decode(const std::string& s)
{
  for (int id = 0; id < 40; id++) if (bytes(id) == s) return id;
  return -1;
}

static double dval(int id)
{
  if (id < 10) return id - 4;
  switch (id) {
    case 10: return -0.0;
    case 11: return std::numeric_limits<double>::infinity();
    case 12: return std::numeric_limits<double>::quiet_NaN();
    case 13: return 4.9e-324;
    case 14: return -1.7976931348623157e308;
    case 15: return 0.1;
    case 16: return 1.0 + std::numeric_limits<double>::epsilon();
    default: return 1e9 + id;
  }
}

static int ival(int id)
{
  if (id < 10) return id - 4;
  return id == 10 ? INT_MAX : id == 11 ? INT_MIN : 100000 + id;
}

static int code(double v) { for (int k = 0; k < 20; k++) { double w = dval(k); if (!memcmp(&v, &w, 8)) return k; } return -1; }
static int code(int v) { for (int k = 0; k < 20; k++) if (v == ival(k)) return k; return -1; }

template<class T> static std::vector<int> codes(const std::vector<T>& v)
{
  std::vector<int> r;
  for (T x : v) r.push_back(code(x));
  return r;
}

static std::string path(int f, bool restart)
{
  // the restart files have the extension appended
  static const char* nm[] = { "a", "b", "c" };
  return dir + "/" + (restart ? "r" : "d") + nm[f] + (f < 2 ? "" : restart ? ".h5" : ".hdf5");
}

static std::string real(int f, bool restart)
{
  return f == 2 ? path(f, restart) : path(f, restart) + ".hdf5";
}

static std::string dump(const HDF5Restart::SerializeData& d)
{
  std::vector<std::string> r;
  for (const auto& x : d) {
    int k = 0;
    while (k < 6 && x.first != keys[k]) k++;
    r.push_back("[" + std::to_string(k) + "," + std::to_string(decode(x.second)) + "]");
  }
  std::sort(r.begin(), r.end());
  return vf::list(r);
}

static int openFiles() { return (int)H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); }

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  dir = std::string(getenv("VF_SCRATCH")) + "/f" + id;
  if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) _exit(97);
  ProcessAdm adm;
  std::unique_ptr<HDF5Restart> h[2];
  std::unique_ptr<HDF5Writer> w[2];
  out.begin(id, "{}");
  out.step(vf::J("begin").set("ok", true));
  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    int s = in.num();
    if (op == "new") {
      int f = in.num(), stride = in.num(), lev = in.num();
      h[s].reset(new HDF5Restart(path(f, true), adm, stride, lev));
      j.set("k", s + 1).set("f", f).set("stride", stride).set("lev0", lev).set("r", h[s]->getTimeLevel());
    } else if (op == "due") {
      TimeStep tp;
      tp.step = in.num();
      j.set("k", s + 1).set("step", tp.step).set("r", h[s]->dumpStep(tp));
    } else if (op == "wr") {
      HDF5Restart::SerializeData d;
      for (int n = in.num(); n > 0; n--) { int k = in.num(); d[keys[k]] = bytes(in.num()); }
      j.set("k", s + 1).raw("d", dump(d)).set("r", h[s]->writeData(d)).set("lev", h[s]->getTimeLevel());
    } else if (op == "rd") {
      int lev = in.num(), basis = in.num(), pre = in.num();
      HDF5Restart::SerializeData d;
      if (pre >= 0) d[keys[0]] = bytes(pre);
      int r = h[s]->readData(d, lev, basis);
      j.set("k", s + 1).set("lev", lev).set("basis", basis != 0).set("pre", pre).set("r", r < 0 ? -1 : r).raw("d", dump(d));
    } else if (op == "bad") { // 0: removed, 1: cut off, 2: something else
      int rst = in.num(), kind = in.num();
      std::string fn = real(s, rst);
      struct stat sb;
      bool there = stat(fn.c_str(), &sb) == 0;
      if (kind == 0) unlink(fn.c_str());
      else if (kind == 1 && there) { if (truncate(fn.c_str(), sb.st_size / 2)) _exit(97); }
      else if (kind == 2) { std::ofstream o(fn); o << "not a data file"; }
      j.set("f", s).set("rst", rst != 0).set("kind", kind).set("there", there);
    } else if (op == "wnew") {
      int f = in.num(), app = in.num();
      w[s].reset(new HDF5Writer(path(f, false), adm, app));
      j.set("k", s + 1).set("f", f).set("app", app != 0).set("name", w[s]->getName() == real(f, false));
    } else if (op == "last") {
      j.set("k", s + 1).set("r", w[s]->getLastTimeLevel());
    } else if (op == "lev") { // one complete time level
      int lev = in.num(), tm = in.num(), n = in.num();
      j.set("k", s + 1).set("lev", lev).set("time", tm);
      w[s]->openFile(lev);
      std::vector<std::string> fs;
      for (; n > 0; n--) {
        int nm = in.num(), ty = in.num(), len = in.num(), en = in.num();
        utl::vector<double> dv;
        std::vector<int> iv, ids;
        for (int k = 0; k < len; k++) { ids.push_back(in.num()); dv.push_back(dval(ids.back())); iv.push_back(ival(ids.back())); }
        DataEntry e;
        e.first = names[nm];
        e.second.field = ty ? DataExporter::INTVECTOR : DataExporter::VECTOR;
        e.second.results = 0;
        e.second.enabled = en;
        e.second.ncmps = 0;
        e.second.data = ty ? (const void*)&iv : (const void*)&dv;
        w[s]->writeVector(lev, e);
        fs.push_back(vf::J().set("n", nm).set("int", ty != 0).set("en", en != 0).arr("v", ids).str());
      }
      if (tm >= 0) j.set("tok", w[s]->writeTimeInfo(lev, dval(tm)));
      w[s]->closeFile(lev);
      j.raw("fs", vf::list(fs));
    } else if (op == "log") {
      w[s]->openFile(0);
      int v = in.num();
      j.set("k", s + 1).set("v", v).set("r", w[s]->writeLog(bytes(v), "cout"));
      w[s]->closeFile(0);
    } else if (op == "get") {
      int lev = in.num(), nm = in.num(), ty = in.num();
      HDF5Reader r(path(s, false), adm);
      std::string p = std::to_string(lev) + "/" + names[nm];
      j.set("f", s).set("lev", lev).set("n", nm).set("int", ty != 0);
      if (ty) { std::vector<int> v(1, ival(9)); j.set("r", r.readVector(p + "/1", v)).arr("v", codes(v)); }
      else { std::vector<double> v(1, dval(9)); j.set("r", r.readVector(p + "/1", v)).arr("v", codes(v)); }
      j.set("size", r.getFieldSize(p));
    } else if (op == "tim") {
      int lev = in.num();
      HDF5Reader r(path(s, false), adm);
      double v = dval(9);
      bool ok = r.readDouble(std::to_string(lev) + "/timeinfo/level", v);
      j.set("f", s).set("lev", lev).set("r", ok).set("v", code(v));
    } else if (op == "str") {
      HDF5Reader r(path(s, false), adm);
      std::string v = bytes(3);
      bool ok = r.readString("/log/cout/0", v);
      j.set("f", s).set("r", ok).set("v", decode(v));
    } else _exit(97);
    j.set("open", openFiles());
    out.step(j);
  }
  for (int f = 0; f < 3; f++) { unlink(real(f, true).c_str()); unlink(real(f, false).c_str()); }
  if (!chdir("/")) rmdir(dir.c_str());
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
