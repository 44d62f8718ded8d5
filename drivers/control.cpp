// Control of a running simulation through a named pipe.
#include "vf.h"
#include "ControlFIFO.h"
#include "tinyxml2.h"
#include <cerrno>
#include <fcntl.h>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

static std::vector<std::string> got;
struct Receiver : public ControlCallback
{
  int id; std::string ctx;
  Receiver(int i, const std::string& c) : id(i), ctx(c) {}
  void OnControl(const tinyxml2::XMLElement* e) override
  {
    const tinyxml2::XMLElement* c = e->FirstChildElement("set");
    int v = -1;
    if (c) c->QueryIntAttribute("value", &v);
    got.push_back("[" + std::to_string(id) + ",\"" + e->Value() + "\"," + std::to_string(v) + "]");
  }
  std::string GetContext() const override { return ctx; }
};

static void run(vf::In& in, vf::Out& out, const std::string& id)
{
  const char* dir = getenv("VF_SCRATCH");
  const std::string base = dir ? dir : "/tmp", name = base + "/ctl-" + id + "-" + std::to_string(getpid());
  out.begin(id, vf::J().set("kind", "fifo").str());
  out.step(vf::J("begin"));
  std::unique_ptr<ControlFIFO> fifo;
  std::vector<std::unique_ptr<Receiver>> recs;
  bool open = false;
  auto there = [&name]() { struct stat s; return stat(name.c_str(), &s) == 0; };
  while (in.more()) {
    std::string op = in.tok();
    vf::J j(op);
    got.clear();
    if (!fifo) fifo.reset(new ControlFIFO());
    if (op == "open") {
      int how = in.num(); // 0: plain, 1: a file of this name is in the way, 2: the folder does not exist, 3: no more files can be opened
      if (how == 1) { FILE* f = fopen(name.c_str(), "w"); fputs("<x><a><set value=\"5\"/></a></x>", f); fclose(f); }
      std::string where = how == 2 ? base + "/nosuch/ctl" : name;
      struct rlimit old, lim;
      getrlimit(RLIMIT_NOFILE, &old);
      lim = old;
      int next = dup(0);
      close(next);
      if (how == 3) { lim.rlim_cur = next; setrlimit(RLIMIT_NOFILE, &lim); }
      bool ok = fifo->open(where.c_str());
      setrlimit(RLIMIT_NOFILE, &old);
      open = how < 2;
      struct stat s;
      j.set("possible", how < 2).set("ok", ok).set("file", stat(name.c_str(), &s) == 0 && S_ISFIFO(s.st_mode));
    }
    else if (op == "close") { fifo.reset(); recs.clear(); open = false; j.set("file", there()); }
    else if (op == "reg") {
      int who = in.num();
      std::string ctx = in.tok();
      recs.emplace_back(new Receiver(who, ctx));
      fifo->registerCallback(*recs.back());
      j.set("id", who).set("ctx", ctx);
    }
    else if (op == "send") {
      int form = in.num(), pad = in.num(), n = in.num(); // form 0: plain, 1: indented, 2: malformed, 3: with an empty line after it
      std::string msg = "<control>", nl = form == 1 ? "\n  " : "";
      std::vector<std::string> cmds;
      for (int k = 0; k < n; k++) {
        std::string ctx = in.tok(), val = in.tok();
        msg += nl + "<" + ctx + "><set value=\"" + val + "\"/></" + ctx + ">";
        cmds.push_back("[\"" + ctx + "\"," + val + "]");
        if (k == 0 && pad > 0) msg += nl + "<!--" + std::string(pad, 'x') + "-->";
      }
      msg += form == 2 ? "</contro" : "</control>";
      if (form == 1 || form == 3) msg += "\n\n";
      bool ok = false;
      int fd = open ? ::open(name.c_str(), O_WRONLY | O_NONBLOCK) : -1;
      if (fd >= 0) { ok = ::write(fd, msg.c_str(), msg.size()) == (ssize_t)msg.size(); ::close(fd); }
      j.set("good", form != 2).raw("cmds", vf::list(cmds)).set("ok", ok);
    }
    else if (op == "poll") { fifo->poll(); j.raw("got", vf::list(got)); }
    else
      _exit(97);
    out.step(j);
  }
  fifo.reset();
  std::remove(name.c_str());
}

int main(int argc, char** argv) { return vf::drive(argc, argv, run); }
