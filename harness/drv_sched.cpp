// Runs a measurement with several producer threads under a chosen thread schedule.
// The pthread primitives are replaced: one thread runs at a time and a scheduler decides at every
// lock, unlock, notification, wait and thread start or end which thread goes on.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <map>
#include <random>
#include <thread>
#include "common.h"
#include "mdf/canconfigadapter.h"
#include "mdf/canmessage.h"
#include "mdf/ethconfigadapter.h"
#include "mdf/ethmessage.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/flexraymessage.h"
#include "mdf/linconfigadapter.h"
#include "mdf/linmessage.h"
#include "mdf/mostconfigadapter.h"
#include "mdf/mostmessage.h"
#include "vclock.h"
using namespace mdf;
using namespace vh;
extern "C" {      // race.cpp, linked into the instrumented build only
void race_begin() __attribute__((weak)); const char* race_end() __attribute__((weak));
void race_acquire(void*) __attribute__((weak)); void race_release(void*) __attribute__((weak));
int race_fork() __attribute__((weak)); void race_adopt(int, int) __attribute__((weak)); void race_joined(int) __attribute__((weak));
int race_ignored(int) __attribute__((weak));
}
// Accesses count inside library calls (Api) and not in the driver's own code (Own).
struct Own { Own() { if (race_ignored) race_ignored(1); } ~Own() { if (race_ignored) race_ignored(-1); } };
struct Api { Api() { if (race_ignored) race_ignored(-1); } ~Api() { if (race_ignored) race_ignored(1); } };
namespace sched {
enum St { kRun, kMutex, kCond, kJoin, kDone };
struct T {
  int id = 0;
  St st = kRun;
  void* on = nullptr;       // mutex, condition or thread waited for
  bool timed = false, signalled = false;
  sem_t sem;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  int prio = 0;
  int vc = -1, tracked = 0;
};
bool on = false;
thread_local T* self = nullptr;
std::vector<T*> all;
std::map<void*, T*> owner;
T* cur = nullptr;
uint64_t steps = 0, timeouts = 0;
std::map<int64_t, int64_t> dev;   // decision -> alternative
std::string mode = "dev";
std::mt19937_64 rng;
std::set<uint64_t> change;        // PCT priority change points
int low = 0;
std::vector<int64_t> width;       // number of alternatives at each decision
void (*stuck)(const char*) = nullptr;
bool Free(void* m) { auto it = owner.find(m); return it == owner.end() || it->second == nullptr; }
bool Ready(const T* t) {
  switch (t->st) {
    case kRun: return true;
    case kMutex: return Free(t->on);
    case kCond: return t->signalled || t->timed;
    case kJoin: return ((T*)t->on)->st == kDone;
    default: return false;
  }
}
// Decide who runs next.  Order of alternatives: the current thread if it can go on, the others by id,
// threads that could only go on by a time-out last.
T* Pick() {
  std::vector<T*> r, late;
  if (cur != nullptr && Ready(cur) && !(cur->st == kCond && !cur->signalled)) r.push_back(cur);
  for (auto* t : all) {
    if (t == cur && !r.empty() && r[0] == cur) continue;
    if (!Ready(t)) continue;
    if (t->st == kCond && !t->signalled) late.push_back(t); else r.push_back(t);
  }
  const size_t firm = r.size();
  r.insert(r.end(), late.begin(), late.end());
  if (r.empty()) { stuck("deadlock"); return nullptr; }
  if (++steps > 60000) { stuck("livelock"); return nullptr; }
  const int64_t k = (int64_t)width.size();
  width.push_back((int64_t)r.size());
  if (r.size() == 1) return r[0];
  if (mode == "rand") {
    if (firm > 0 && !late.empty() && rng() % 4 != 0) return r[rng() % firm];
    return r[rng() % r.size()];
  }
  if (mode == "pct") {
    T* best = nullptr;
    for (auto* t : r) if (best == nullptr || t->prio > best->prio) best = t;
    if (change.count((uint64_t)k)) { best->prio = --low; best = nullptr; for (auto* t : r) if (best == nullptr || t->prio > best->prio) best = t; }
    // a time-out of the thread with the highest priority would starve the others for ever
    if (best->st == kCond && !best->signalled) best->prio = --low;
    return best;
  }
  auto it = dev.find(k);
  return r[it == dev.end() ? 0 : (size_t)(it->second % (int64_t)r.size())];
}
void Switch(T* next) {
  T* me = self;
  cur = next;
  if (next == me) return;
  sem_post(&next->sem);
  if (me->st == kDone) return;
  while (sem_wait(&me->sem) != 0) {}
}
void Yield() { Switch(Pick()); }
void Lock(void* m) {
  Yield();
  while (!Free(m)) { self->st = kMutex; self->on = m; Yield(); self->st = kRun; }
  self->st = kRun;
  owner[m] = self;
  if (race_acquire) race_acquire(m);
}
void Unlock(void* m) { if (race_release) race_release(m); owner[m] = nullptr; Yield(); }
int Wait(void* c, void* m, int64_t* lack) {
  if (race_release) race_release(m);
  owner[m] = nullptr;
  self->st = kCond; self->on = c; self->timed = lack != nullptr; self->signalled = false;
  Yield();
  const bool sig = self->signalled;
  self->st = kRun; self->signalled = false;
  if (!sig && lack != nullptr) { ++timeouts; if (*lack > 0) vclk::Advance(*lack + 1000); }
  while (!Free(m)) { self->st = kMutex; self->on = m; Yield(); self->st = kRun; }
  owner[m] = self;
  if (race_acquire) race_acquire(m);
  return sig ? 0 : ETIMEDOUT;
}
void Signal(void* c, bool everyone) {
  for (auto* t : all) if (t->st == kCond && t->on == c && !t->signalled) { t->signalled = true; if (!everyone) break; }
  Yield();
}
T* NewThread() {
  T* t = new T; t->id = (int)all.size(); sem_init(&t->sem, 0, 0);
  t->prio = 1000 + (int)(rng() % 1000);
  all.push_back(t); return t;
}
void* Entry(void* p) {
  T* t = (T*)p;
  self = t;
  while (sem_wait(&t->sem) != 0) {}
  auto* fn = t->fn;
  if (race_adopt) race_adopt(t->vc, t->tracked);
  void* r = fn(t->arg);
  if (race_adopt) race_adopt(t->vc, 0);
  t->st = kDone;
  Switch(Pick());
  self = nullptr;
  return r;
}
void Begin(const V& sc) {
  for (auto* t : all) delete t;
  all.clear(); owner.clear(); width.clear(); dev.clear(); change.clear(); steps = 0; low = 0; timeouts = 0;
  rng.seed((uint64_t)sc.num("seed", 1));
  mode = sc.str("mode", "dev");
  if (sc.has("dev")) for (auto& d : sc["dev"].a) dev[d[0].num()] = d[1].num();
  if (mode == "pct") for (int i = 0; i < sc.num("depth", 3); ++i) change.insert(rng() % (uint64_t)sc.num("len", 300));
  self = NewThread(); cur = self;
  if (race_begin) race_begin();
  vclk::Hook(+[](void* c, void* m, int64_t* lack) { Own o; return Wait(c, m, lack); });
  vclk::Enable(true);
  on = true;
}
void End() { on = false; vclk::Enable(false); self = nullptr; cur = nullptr; }
}  // namespace sched
#define REAL(name) static auto f = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define MANAGED (sched::on && sched::self != nullptr)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock); Own o; if (!MANAGED) return f(m); sched::Lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock); Own o; if (!MANAGED) return f(m); sched::Unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_trylock); Own o; if (!MANAGED) return f(m); sched::Yield(); if (!sched::Free(m)) return EBUSY; sched::owner[m] = sched::self; if (race_acquire) race_acquire(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait); Own o; if (!MANAGED) return f(c, m); return sched::Wait(c, m, nullptr); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { REAL(pthread_cond_signal); Own o; if (!MANAGED) return f(c); sched::Signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { REAL(pthread_cond_broadcast); Own o; if (!MANAGED) return f(c); sched::Signal(c, true); return 0; }
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  REAL(pthread_create);
  Own o;
  if (!MANAGED) return f(h, a, fn, arg);
  auto* t = sched::NewThread(); t->fn = fn; t->arg = arg;
  if (race_fork) { t->vc = race_fork(); t->tracked = race_ignored(0) == 1; }
  const int rc = f(&t->handle, a, sched::Entry, t);
  *h = t->handle;
  sched::Yield();
  return rc;
}
int pthread_join(pthread_t h, void** r) {
  REAL(pthread_join);
  Own o;
  if (!MANAGED) return f(h, r);
  for (auto* t : sched::all) if (t->fn != nullptr && pthread_equal(t->handle, h)) {
    sched::Yield();
    while (t->st != sched::kDone) { sched::self->st = sched::kJoin; sched::self->on = t; sched::Yield(); sched::self->st = sched::kRun; }
    if (race_joined) race_joined(t->vc);
    t->fn = nullptr;   // handles are used again
    break;
  }
  sched::self->st = sched::kRun;
  return f(h, r);
}
}
namespace {
V* gEvs = nullptr; int64_t gId = 0; std::string gOut;
void Emit(const std::string& op, std::initializer_list<std::pair<const char*, V>> kv) { V e = V::O(); e.set("op", op); for (auto& x : kv) e.set(x.first, x.second); gEvs->push(e); }
void Stuck(const char* what) {
  Emit("stuck", {{"why", V(what)}});
  FILE* f = fopen(gOut.c_str(), "a");
  V r = V::O(); r.set("id", gId); r.set("ev", *gEvs);
  const std::string s = r.dump() + "\n"; fwrite(s.data(), 1, s.size(), f); fclose(f);
  _exit(42);
}
// One kind of bus message per producer; the number of the message is stored in the named member.
struct Kind { const char *bus, *group, *member; };
const Kind kKinds[] = {{"CAN", "CAN_DataFrame", "ID"}, {"CAN", "CAN_RemoteFrame", "ID"}, {"CAN", "CAN_ErrorFrame", "ID"},
  {"LIN", "LIN_Frame", "ID"}, {"LIN", "LIN_ChecksumError", "ID"}, {"LIN", "LIN_TransmissionError", "ID"},
  {"ETH", "ETH_Frame", "EtherType"}, {"ETH", "ETH_ChecksumError", "EtherType"}, {"ETH", "ETH_LengthError", "EtherType"},
  {"MOST", "MOST_MaxPosInfo", "DeviceCount"}, {"MOST", "MOST_BoundDesc", "SBC"}, {"MOST", "MOST_AllocTable", "FreeByteCount"},
  {"FLX", "FLX_Frame", "ID"}, {"FLX", "FLX_Pdu", "ID"}, {"FLX", "FLX_NullFrame", "ID"}};
const Kind& KindOf(const std::string& bus, int p) { int k = 0; for (auto& x : kKinds) if (bus == x.bus && k++ == p) return x; throw std::runtime_error("kind"); }
std::vector<uint8_t> Payload(int64_t n) { return std::vector<uint8_t>((size_t)(1 + n % 8), (uint8_t)n); }
void SaveBus(MdfWriter& wr, const IDataGroup& dg, const IChannelGroup& cg, const Kind& k, int64_t n, uint64_t t) {
  const std::string bus = k.bus, g = k.group;
  const bool by = n % 2 != 0;
  if (bus == "CAN") { CanMessage m; m.MessageId((uint32_t)n); m.DataBytes(Payload(n)); Api a; if (by) wr.SaveCanMessage(dg, cg, t, m); else wr.SaveCanMessage(cg, t, m); }
  else if (bus == "LIN") { LinMessage m; m.LinId((uint8_t)n); m.DataBytes(Payload(n)); Api a; if (by) wr.SaveLinMessage(dg, cg, t, m); else wr.SaveLinMessage(cg, t, m); }
  else if (bus == "ETH") { EthMessage m; m.EthType((uint16_t)n); m.DataBytes(Payload(n)); Api a; if (by) wr.SaveEthMessage(dg, cg, t, m); else wr.SaveEthMessage(cg, t, m); }
  else if (g == "MOST_MaxPosInfo") { MostMaxPosInfo m; m.DeviceCount((uint8_t)n); Api a; wr.SaveMostMessage(dg, cg, t, m); }
  else if (g == "MOST_BoundDesc") { MostBoundDesc m; m.BoundaryCount((uint16_t)n); Api a; wr.SaveMostMessage(dg, cg, t, m); }
  else if (g == "MOST_AllocTable") { MostAllocTable m; m.FreeByteCount((uint16_t)n); m.TableData(Payload(n)); Api a; wr.SaveMostMessage(dg, cg, t, m); }
  else if (g == "FLX_Frame") { FlexRayFrame m; m.FrameId((uint16_t)n); m.DataBytes(Payload(n)); Api a; wr.SaveFlexRayMessage(dg, cg, t, m); }
  else if (g == "FLX_Pdu") { FlexRayPdu m; m.FrameId((uint16_t)n); m.DataBytes(Payload(n)); Api a; wr.SaveFlexRayMessage(dg, cg, t, m); }
  else { FlexRayNullFrame m; m.FrameId((uint16_t)n); Api a; wr.SaveFlexRayMessage(dg, cg, t, m); }
}
V Run(const V& sc, const std::string& dir) {
  const std::string file = dir + "/s" + std::to_string(sc["id"].num()) + ".mdf";
  std::filesystem::remove(file);
  const int64_t unit = 1000000;
  kT0 = 1600000000000000000ULL;
  V evs = V::A();
  gEvs = &evs; gId = sc["id"].num(); sched::stuck = Stuck;
  const std::string w = sc["w"].s, bus = sc.str("bus", "");
  int64_t hdr = -1, seen = 0;
  sched::Begin(sc);
  for (auto& ses : sc["ses"].a) {
    const int np = (int)ses["np"].num(), ndg = (int)ses["dgs"].num();
    {
      auto wr = MdfFactory::CreateMdfWriter(w == "mdf3" ? MdfWriterType::Mdf3Basic : w == "conv" ? MdfWriterType::MdfConverter : w == "bus" ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic);
      { Api a; wr->Init(file); }
      wr->CompressData(sc.flag("z"));
      wr->SavePeriodic(sc.flag("per", true));
      wr->PreTrigTime(1e6);
      std::vector<IDataGroup*> dgs(np); std::vector<IChannelGroup*> cgs(np);
      std::vector<std::pair<IDataGroup*, IChannelGroup*>> byp(np);
      if (!bus.empty()) {
        const std::string st = sc.str("store", "mlsd");
        wr->StorageType(st == "mlsd" ? MdfStorageType::MlsdStorage : st == "vlsd" ? MdfStorageType::VlsdStorage : MdfStorageType::FixedLengthStorage);
        wr->MaxLength(8);
      }
      for (int d = 0; d < ndg; ++d) {
        auto* dg = wr->CreateDataGroup();
        if (!bus.empty()) {
          if (bus == "CAN") { CanConfigAdapter c(*wr); c.CreateConfig(*dg); } else if (bus == "LIN") { LinConfigAdapter c(*wr); c.CreateConfig(*dg); }
          else if (bus == "ETH") { EthConfigAdapter c(*wr); c.CreateConfig(*dg); } else if (bus == "MOST") { MostConfigAdapter c(*wr); c.CreateConfig(*dg); }
          else { FlexRayConfigAdapter c(*wr); c.CreateConfig(*dg); }
          for (int p = d; p < np; p += ndg)
            for (auto* cg : dg->ChannelGroups()) if (cg->Name() == KindOf(bus, p).group) byp[p] = {dg, cg};
          continue;
        }
        for (int p = d; p < np; p += ndg) {
          auto* cg = MdfWriter::CreateChannelGroup(dg);
          cg->Name("P" + std::to_string(p + 1));
          auto* t = MdfWriter::CreateChannel(cg); t->Name("t"); t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
          auto* n = MdfWriter::CreateChannel(cg); n->Name("n"); n->DataType(ChannelDataType::UnsignedIntegerLe); n->DataBytes(4);
          if (sc.flag("str") && w != "mdf3") { auto* s = MdfWriter::CreateChannel(cg); s->Name("s"); s->Type(ChannelType::VariableLength); s->DataType(ChannelDataType::StringUTF8); }
          else { auto* s = MdfWriter::CreateChannel(cg); s->Name("s"); s->DataType(ChannelDataType::StringAscii); s->DataBytes(8); }
          byp[p] = {dg, cg};
        }
      }
      const int64_t t0 = ses.num("start", 10);
      if (hdr < 0) hdr = t0;
      Emit("cfg", {{"np", V((int64_t)np)}, {"hdr", V(hdr)}});
      { Api a; wr->InitMeasurement(); }
      std::vector<std::thread> th;
      for (int p = 0; p < np; ++p) {
        const V& plan = ses["plan"][p];
        th.emplace_back([&, p]() {
          int64_t n = 0;
          for (auto& tv : plan.a) {
            auto list = byp[p].second->Channels();
            ++n;
            Emit("call", {{"p", V((int64_t)p + 1)}, {"n", V(n)}, {"t", V(tv.num())}});
            const uint64_t at = kT0 + (uint64_t)(tv.num() * unit);
            if (!bus.empty()) SaveBus(*wr, *byp[p].first, *byp[p].second, KindOf(bus, p), n, at);
            else {
              for (auto* ch : list) {
                if (ch->Name() == "n") ch->SetChannelValue((uint32_t)n);
                if (ch->Name() == "s") ch->SetChannelValue("s" + std::to_string(n));
              }
              if (n % 3 == 0) { auto rec = byp[p].second->GetSampleRecord(); Api a; wr->AddSample(*byp[p].first, *byp[p].second, at, std::move(rec)); }
              else if (n % 2) { Api a; wr->SaveSample(*byp[p].first, *byp[p].second, at); }
              else { Api a; wr->SaveSample(*byp[p].second, at); }
            }
            Emit("ret", {{"p", V((int64_t)p + 1)}});
          }
        });
      }
      if (ses.flag("late")) { for (auto& t : th) t.join(); th.clear(); }
      Emit("start", {{"t", V(t0)}});
      { Api a; wr->StartMeasurement(kT0 + (uint64_t)(t0 * unit)); }
      Emit("started", {});
      if (ses.flag("wait", true)) { for (auto& t : th) t.join(); th.clear(); }
      Emit("stop", {});
      { Api a; wr->StopMeasurement(kT0 + 1000000000000ULL); }
      Emit("stopped", {});
      for (auto& t : th) t.join();
      bool res = false;
      { Api a; res = wr->FinalizeMeasurement(); }
      Emit("fin", {{"res", V(res)}});
      { Api a; wr.reset(); }
    }
    sched::on = false;
    V rd = V::O(); rd.set("op", "read");
    {
      MdfReader r(file);
      bool ok = r.ReadEverythingButData();
      V gs = V::A();
      rd.set("start", (int64_t)(((int64_t)r.GetHeader()->StartTime() - (int64_t)kT0) / unit));
      auto dl = r.GetHeader()->DataGroups();
      V out = V::A(); for (int p = 0; p < np; ++p) out.push(V::O());
      for (size_t d = (size_t)seen; d < dl.size(); ++d) {
        ChannelObserverList ol;
        for (auto* cg : dl[d]->ChannelGroups()) for (auto* ch : cg->Channels()) ol.push_back(CreateChannelObserver(*dl[d], *cg, *ch));
        ok = r.ReadData(*dl[d]) && ok;
        size_t k = 0;
        int pos = 0;
        for (auto* cg : dl[d]->ChannelGroups()) {
          if (!bus.empty()) {
            std::map<std::string, IChannelObserver*> by;
            for (auto* ch : cg->Channels()) by[ch->Name()] = ol[k++].get();
            for (int p = (int)(d - (size_t)seen); p < np; p += ndg) if (cg->Name() == KindOf(bus, p).group) {
              const std::string pre = cg->Name() + ".";
              V g = V::O(), rows = V::A(), ts = V::A();
              g.set("n", (int64_t)cg->NofSamples());
              for (uint64_t s = 0; s < cg->NofSamples(); ++s) {
                double t = -1e9; uint64_t n = 0; std::vector<uint8_t> data;
                by["t"]->GetEngValue(s, t);
                if (by.count(pre + KindOf(bus, p).member)) by[pre + KindOf(bus, p).member]->GetChannelValue(s, n);
                bool good = true;
                if (cg->Name() == "CAN_DataFrame") { by[pre + "DataBytes"]->GetChannelValue(s, data); good = data.size() >= Payload((int64_t)n).size() && data[0] == (uint8_t)n && data[Payload((int64_t)n).size() - 1] == (uint8_t)n; }
                rows.push(V((int64_t)(good ? n : 0))); ts.push(V(ToTick(t, unit)));
              }
              g.set("rows", rows); g.set("t", ts);
              out.a[(size_t)p] = g;
            }
            continue;
          }
          V g = V::O(); V rows = V::A(), ts = V::A();
          std::map<std::string, IChannelObserver*> by;
          for (auto* ch : cg->Channels()) by[ch->Name()] = ol[k++].get();
          g.set("n", (int64_t)cg->NofSamples());
          for (uint64_t s = 0; s < cg->NofSamples(); ++s) {
            double t = -1e9; uint32_t n = 0; std::string str;
            by["t"]->GetEngValue(s, t); by["n"]->GetChannelValue(s, n); by["s"]->GetChannelValue(s, str);
            rows.push(V((int64_t)(str == "s" + std::to_string(n) ? n : 0))); ts.push(V(ToTick(t, unit)));
          }
          g.set("rows", rows); g.set("t", ts);
          const int p = (int)(d - (size_t)seen) + 1 + ndg * pos++;
          if (p >= 1 && p <= np) out.a[(size_t)p - 1] = g;
        }
      }
      seen = (int64_t)dl.size();
      rd.set("ok", ok); rd.set("groups", out);
      r.Close();
    }
    evs.push(rd);
    sched::on = true;
  }
  V w2 = V::A(); for (auto x : sched::width) w2.push(V(x));
  sched::End();
  if (race_end) if (const char* what = race_end()) Emit("race", {{"what", V(std::string(what))}});
  if (sc.flag("width")) { V x = V::O(); x.set("op", "width"); x.set("w", w2); evs.push(x); }
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { if (argc > 2) gOut = argv[2]; return vh::Main(argc, argv, Run); }
