// CSV driver: files given byte by byte are converted by the mdf2csv program (path in VCSV); what it leaves is recorded.
#include "common.h"
#include <cstdlib>
#include <spawn.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
extern char** environ;
using namespace mdf;
using namespace vh;
namespace fs = std::filesystem;
namespace {
std::vector<uint8_t> Hex(const std::string& s) {
  std::vector<uint8_t> r;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
  return r;
}
// names the specification compares as a whole
std::string Clean(const std::string& s) { return s.rfind("CAN_", 0) == 0 ? s : std::string(); }
V Bytes(const std::string& s) { return V::B(s); }
// what a reader delivers, as text
V View(const std::string& file) {
  V out = V::A();
  MdfReader r(file);
  if (!r.IsOk() || !r.ReadEverythingButData()) return out;
  DataGroupList dgs;
  r.GetFile()->DataGroups(dgs);
  for (auto* d : dgs) {
    std::vector<std::vector<std::unique_ptr<IChannelObserver>>> obs;
    for (auto* g : d->ChannelGroups()) {
      obs.emplace_back();
      for (auto* c : g->Channels()) obs.back().push_back(CreateChannelObserver(*d, *g, *c));
    }
    r.ReadData(*d);
    size_t i = 0;
    for (auto* g : d->ChannelGroups()) {
      V chs = V::A();
      size_t j = 0;
      for (auto* c : g->Channels()) {
        auto& o = obs[i][j++];
        V eng = V::A();
        for (uint64_t k = 0; k < o->NofSamples(); ++k) {
          std::string s;
          const bool v = o->GetEngValue(k, s);
          eng.push(V::O().set("v", Bytes(s)).set("ok", v));
        }
        chs.push(V::O().set("name", Bytes(c->Name())).set("unit", Bytes(c->Unit())).set("text", Clean(c->Name()))
          .set("master", c->Type() == ChannelType::Master || c->Type() == ChannelType::VirtualMaster).set("eng", eng));
      }
      ++i;
      out.push(V::O().set("vlsd", (g->Flags() & CgFlag::VlsdChannel) != 0).set("bus", (g->Flags() & CgFlag::BusEvent) != 0).set("n", (int64_t)g->NofSamples()).set("chs", chs));
    }
  }
  return out;
}
int Exec(const std::vector<std::string>& args, const std::string& cwd) {
  std::vector<char*> a;
  for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
  a.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  if (!cwd.empty()) posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t pid = 0;
  int st = -1;
  if (posix_spawn(&pid, a[0], &fa, nullptr, a.data(), environ) == 0) waitpid(pid, &st, 0);
  posix_spawn_file_actions_destroy(&fa);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const fs::path b = fs::path(dir) / ("c" + std::to_string(sc["id"].num()));
  // the place for temporary files may be on another file system than the result
  const fs::path t = sc.flag("shm") && fs::is_directory("/dev/shm")
    ? fs::path("/dev/shm") / ("vcsv_" + std::to_string(getpid()) + "_" + std::to_string(sc["id"].num())) : b / "tmp";
  fs::create_directories(t);
  setenv("TMPDIR", t.c_str(), 1);
  V views = V::A();
  int n = 0;
  for (auto& f : sc["files"].a) {
    const fs::path d = b / ("in" + std::to_string(++n));
    fs::create_directories(d);
    const auto bytes = Hex(f["hex"].s);
    std::ofstream(d / f["name"].s, std::ios::binary).write((const char*)bytes.data(), (std::streamsize)bytes.size());
    views.push(View((d / f["name"].s).string()));
  }
  evs.push(V::O().set("op", "files").set("views", views));
  for (auto& op : sc["ops"].a) {
    V e = op;
    std::vector<std::string> args{getenv("VCSV")};
    if (op.flag("force")) args.push_back("--force");
    if (op.flag("quiet")) args.push_back("-q");
    const bool out = op.flag("out");
    if (out) { args.push_back("-O"); args.push_back((b / "out" / std::to_string(op["which"].a[0].num())).string()); }
    const bool rel = op.flag("rel") && op["which"].size() == 1;
    args.push_back("-i");
    for (auto& w : op["which"].a) {
      const fs::path d = b / ("in" + std::to_string(w.num()));
      const auto& name = sc["files"].a[(size_t)w.num() - 1]["name"].s;
      if (rel) args.push_back(op.flag("asdir") ? std::string(".") : name);
      else args.push_back(op.flag("asdir") ? d.string() : (d / name).string());
    }
    e.set("rc", Exec(args, rel ? (b / ("in" + std::to_string(op["which"].a[0].num()))).string() : std::string()));
    // what every directory holds afterwards; then replace the contents so that a later run shows what it rewrites
    V dirs = V::A();
    for (int i = 1; i <= 2 * n; ++i) {
      const fs::path d = i > n ? b / "out" / std::to_string(i - n) : b / ("in" + std::to_string(i));
      V files = V::A();
      if (fs::exists(d)) {
        std::vector<fs::path> l;
        for (auto& x : fs::directory_iterator(d)) if (x.path().extension() == ".csv") l.push_back(x.path());
        std::sort(l.begin(), l.end());
        for (auto& x : l) {
          std::ifstream in(x, std::ios::binary);
          files.push(V::B(std::string{std::istreambuf_iterator<char>(in), {}}));
          std::ofstream(x, std::ios::trunc) << "old";
        }
      }
      dirs.push(files);
    }
    e.set("dirs", dirs);
    e.set("clean", fs::is_empty(t));
    evs.push(e);
  }
  fs::remove_all(b);
  fs::remove_all(t);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
