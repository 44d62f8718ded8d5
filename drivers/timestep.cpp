// Drives TimeStep: "cfg ..." followed by operations.
#include "vf.h"
#include "TimeStep.h"
#include "tinyxml2.h"
#include <memory>
#include <map>

static const double U = 4096.0;

struct Cfg {
  int start, stop, dt0, dtMin, dtMax, f1h, f2d, maxStep, maxCFL, nInit, mode, graded = 0;
  struct Seg { std::vector<int> d; int e, raw; };
  std::vector<Seg> segs;
};

static std::string num(int i) { char b[40]; std::snprintf(b, 40, "%.17g", i / U); return b; }

// mode 0: XML, 1: the old text format, 2: XML with only what differs from the default values, 3: XML with illegal factors for no change
static bool configure(TimeStep& tp, const Cfg& c)
{
  std::ostringstream x;
  if (c.mode == 1) { // old text format
    const int style = (c.start + c.segs.front().e) / 256 % 4; // blanks, comments, blank lines, no final end-of-line
    if (style == 1) x << "# Comment\n  \n  ";
    x << num(c.start);
    for (const Cfg::Seg& s : c.segs) {
      bool first = &s == c.segs.data(), last = &s == &c.segs.back();
      if (!first && style == 2) x << "\t\n # Next\n";
      x << ' ' << num(s.e);
      size_t k = 0;
      if (s.raw) x << ' ' << s.raw; else x << ' ' << num(s.d[k++]);
      if (first && (c.maxCFL || s.d.size() > k)) x << ' ' << num(c.maxCFL);
      while (k < s.d.size()) x << ' ' << num(s.d[k++]);
      if (style == 3) x << "  ";
      if (!last || style != 2) x << '\n';
    }
    std::istringstream is(x.str());
    std::string kw = "TIME_STEPPING " + std::to_string(c.segs.size());
    std::vector<char> k(kw.begin(), kw.end()); k.push_back(0);
    return tp.parse(k.data(), is);
  }
  const bool brief = c.mode == 2;
  auto put = [&x,brief](const char* name, const std::string& v, bool dflt) { if (!brief || !dflt) x << ' ' << name << "=\"" << v << '"'; };
  auto dec = [](double v) { std::ostringstream o; o << v; return o.str(); };
  x << "<timestepping";
  put("start", num(c.start), c.start == 0 || !c.segs.empty());
  put("end", num(c.stop), c.stop == (int)U || !c.segs.empty());
  put("dt", num(c.dt0), c.dt0 == c.stop - c.start || !c.segs.empty());
  put("dtMin", num(c.dtMin), c.dtMin == (int)U);
  put("dtMax", num(c.dtMax), c.dtMax == (int)U);
  put("maxCFL", num(c.maxCFL), c.maxCFL == 0);
  put("nInitStep", std::to_string(c.nInit), c.nInit == 0);
  put("maxStep", std::to_string(c.maxStep), c.maxStep == 0);
  put("f1", c.mode == 3 && c.f1h == 2 ? "0.5" : dec(c.f1h*0.5), c.f1h == 3);
  put("f2", c.mode == 3 && c.f2d == 1 ? "1.5" : dec(1.0/c.f2d), c.f2d == 4);
  x << '>';
  bool first = true;
  for (const Cfg::Seg& s : c.segs) {
    x << "<step";
    if (first ? !brief || c.start : c.mode == 3) x << " start=\"" << num(c.start) << "\"";
    x << " end=\"" << num(s.e) << "\"";
    first = false;
    if (c.graded == (int)(&s - c.segs.data()) + 1) x << " graded=\"true\">" << num(s.d[0]) << ' ' << num(s.d[1]);
    else if (s.raw) x << '>' << s.raw;
    else { x << '>'; for (int d : s.d) x << num(d) << ' '; }
    x << "</step>";
  }
  x << "</timestepping>";
  tinyxml2::XMLDocument doc;
  if (doc.Parse(x.str().c_str()) != tinyxml2::XML_SUCCESS) _exit(97);
  return tp.parse(doc.RootElement());
}

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  Cfg c;
  c.mode = in.num(); c.start = in.num(); c.stop = in.num(); c.dt0 = in.num(); c.dtMin = in.num(); c.dtMax = in.num();
  c.f1h = in.num(); c.f2d = in.num(); c.maxStep = in.num(); c.maxCFL = in.num(); c.nInit = in.num(); c.graded = in.num();
  int ns = in.num();
  std::vector<std::string> js;
  for (int i = 0; i < ns; i++) {
    Cfg::Seg s;
    s.e = in.num(); s.raw = in.num();
    int nd = in.num();
    for (int k = 0; k < nd; k++) s.d.push_back(in.num());
    js.push_back(vf::J().set("e", s.e).set("n", s.raw).set("graded", c.graded == i+1 ? 1 : 0).arr("d", s.d).str());
    c.segs.push_back(s);
  }
  out.begin(id, vf::J().set("start", c.start).set("stop", c.stop).set("dt0", c.dt0).set("dtMin", c.dtMin).set("dtMax", c.dtMax)
            .set("f1h", c.f1h).set("f2d", c.f2d).set("maxStep", c.maxStep).set("maxCFL", c.maxCFL).set("nInit", c.nInit)
            .raw("segs", vf::list(js)).str());

  auto tp = std::make_unique<TimeStep>();
  std::map<std::string,std::string> archive;
  bool open = false; // a step which may be cut back is in progress
  auto obs = [&](vf::J j, bool ok) {
    int f = tp->time.first == 'c' ? 2 : (int)tp->time.first;
    out.step(j.set("ok", ok).set("step", tp->step).set("t", vf::q(tp->time.t, U)).set("dt", vf::q(tp->time.dt, U))
             .set("dtn", vf::q(tp->time.dtn, U)).set("it", tp->iter).set("first", f)
             .set("fin", tp->finished()).set("multi", tp->multiSteps())
             .set("stop", vf::q(tp->stopTime, U)).set("start", vf::q(tp->starTime, U)).set("mcfl", vf::q(tp->maxCFL, U)));
  };
  obs(vf::J("begin"), configure(*tp, c));
  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    bool ok = true;
    if (op == "inc")
      open = ok = tp->increment();
    else if (op == "cut") {
      if (!open) continue;
      ok = tp->cutback();
    }
    else if (op == "it") {
      int n = in.num(); j.set("n", n);
      tp->iter = n;
    } else if (op == "cfl") {
      int v = in.num(); j.set("n", v);
      tp->time.CFL = v / 4.0;
    } else if (op == "clear")
      tp->time.first = 0;
    else if (op == "save") {
      archive.clear();
      ok = tp->serialize(archive);
    } else if (op == "restore") {
      auto tq = std::make_unique<TimeStep>();
      ok = configure(*tq, c) && tq->deSerialize(archive);
      tp = std::move(tq);
      open = false;
    } else if (op == "copy") {
      auto tq = std::make_unique<TimeStep>(*tp);
      tp->step = -99; tp->time.t = -1.0; // the copy must not depend on the original
      tp = std::move(tq);
    } else if (op == "assign") {
      auto tq = std::make_unique<TimeStep>();
      configure(*tq, c); tq->increment();
      *tq = *tp;
      tp = std::move(tq);
    } else if (op == "reset") {
      int n = in.num(); j.set("n", n);
      ok = tp->reset(n);
      open = false;
    } else if (op == "probe") {
      int n = in.num(); j.set("n", n);
      ok = tp->hasReached(n / U);
    } else
      _exit(97);
    obs(j, ok);
  }
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
