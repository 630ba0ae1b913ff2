// Time driver: conversions between the representations of an instant.
#include <ctime>
#include "common.h"
#include "mdf/ifilehistory.h"
#include "mdf/imdftimestamp.h"
#include "mdf/itimestamp.h"
#include "mdf/mdfhelper.h"
using namespace mdf;
using namespace vh;
namespace {
constexpr uint64_t kDay = 86400000000000ULL;
uint64_t Ns(const V& t) { return (uint64_t)t["d"].i * kDay + (uint64_t)t["m"].i * 1000000 + (uint64_t)t["n"].i; }
V Parts(uint64_t ns) {
  return V::O().set("d", (int64_t)(ns / kDay)).set("m", (int64_t)(ns % kDay / 1000000)).set("n", (int64_t)(ns % 1000000));
}
void Zone(const V& z) {
  std::string s = "UTC";
  if (z["k"].s == "eu") s = "CET-1CEST,M3.5.0/2,M10.5.0/3";
  else if (z["min"].i != 0) {
    const int a = (int)std::abs(z["min"].i);
    char b[64];
    snprintf(b, sizeof b, "XYZ%c%d:%02d", z["min"].i < 0 ? '+' : '-', a / 60, a % 60);
    s = b;
  }
  setenv("TZ", s.c_str(), 1);
  tzset();
}
V Cal(const V& e) {
  const uint64_t ns = Ns(e["t"]);
  Zone(e["z"]);
  const auto tz = (int16_t)e["tz"].i, dst = (int16_t)e["dst"].i;
  V r = e;
  UtcTimestamp u(ns);
  r.set("isodate", V::B(u.ToIsoDate())).set("isotime", V::B(u.ToIsoTime(false))).set("isotimems", V::B(u.ToIsoTime(true)));
  r.set("iso", V::B(u.ToIsoDateTime(false))).set("isoms", V::B(u.ToIsoDateTime(true)));
  r.set("back", Parts(UtcTimestamp(u.ToIsoDateTime(true)).GetTimeNs()));
  r.set("dmy", V::B(MdfHelper::NanoSecToDDMMYYYY(ns))).set("hms", V::B(MdfHelper::NanoSecToHHMMSS(ns)));
  r.set("udmy", V::B(MdfHelper::NanoSecUtcToDDMMYYYY(ns))).set("uhms", V::B(MdfHelper::NanoSecUtcToHHMMSS(ns)));
  r.set("tdmy", V::B(MdfHelper::NanoSecTzToDDMMYYYY(ns, tz, dst))).set("thms", V::B(MdfHelper::NanoSecTzToHHMMSS(ns, tz, dst)));
  r.set("liso", V::B(MdfHelper::NsToLocalIsoTime(ns)));
  const uint64_t local = MdfHelper::NanoSecToLocal(ns);
  r.set("local", Parts(local)).set("utc", Parts(LocalTimestamp(local).GetUtcTimeNs())).set("ltz", (int)LocalTimestamp(local).GetTimezoneMin());
  const auto cd = MdfHelper::NsToCanOpenDateArray(ns), ct = MdfHelper::NsToCanOpenTimeArray(ns);
  r.set("cdate", V::B(cd)).set("cdback", Parts(MdfHelper::CanOpenDateArrayToNs(cd)));
  r.set("ctime", V::B(ct)).set("ctback", Parts(MdfHelper::CanOpenTimeArrayToNs(ct)));
  return r;
}
V Hdr(const V& e, const std::string& file) {
  Zone(e["z"]);
  const uint64_t ns = Ns(e["t"]);
  const bool m4 = e["ver"].i == 4;
  const std::string k = e["k"].s;
  UtcTimestamp u(ns);
  LocalTimestamp l(ns);
  TimezoneTimestamp t(ns, (int16_t)e["atz"].i, (int16_t)e["adst"].i);
  ITimestamp& ts = k == "local" ? (ITimestamp&)l : k == "tz" ? (ITimestamp&)t : (ITimestamp&)u;
  {
    auto w = MdfFactory::CreateMdfWriter(m4 ? MdfWriterType::Mdf4Basic : MdfWriterType::Mdf3Basic);
    w->Init(file);
    if (m4) {
      auto* fh = w->Header()->CreateFileHistory();
      fh->Description("x");
      if (k == "ns") fh->Time(ns); else fh->Time(ts);
    }
    auto* dg = w->CreateDataGroup();
    auto* cg = MdfWriter::CreateChannelGroup(dg);
    auto* m = MdfWriter::CreateChannel(cg);
    m->Name("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
    if (!w->InitMeasurement()) throw std::runtime_error("init");
    if (e["how"].s == "start") { if (k == "ns") w->StartMeasurement(ns); else w->StartMeasurement(ts); w->StopMeasurement(ns); }
    else { if (k == "ns") w->Header()->StartTime(ns); else w->Header()->StartTime(ts); }
    if (!w->FinalizeMeasurement()) throw std::runtime_error("finalize");
  }
  V r = e;
  MdfReader rd(file);
  if (!rd.IsOk() || !rd.ReadHeader()) throw std::runtime_error("read");
  auto* h = rd.GetHeader();
  auto* st = h->StartTimestamp();
  r.set("start", Parts(h->StartTime())).set("type", (int)st->GetTimeType()).set("tz", (int)st->GetTzOffsetMin()).set("dst", (int)st->GetDstOffsetMin());
  if (m4) {
    auto* fh = h->FileHistories().at(0);
    auto* ft = fh->StartTimestamp();
    r.set("fh", Parts(fh->Time())).set("fhtype", (int)ft->GetTimeType()).set("fhtz", (int)ft->GetTzOffsetMin()).set("fhdst", (int)ft->GetDstOffsetMin());
  } else {
    std::ifstream f(file, std::ios::binary);
    std::string b(100, 0);
    f.read(&b[0], 100);
    r.set("date", V::B(b.substr(64 + 18, 10))).set("time", V::B(b.substr(64 + 28, 8)));
  }
  rd.Close();
  std::filesystem::remove(file);
  return r;
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  for (auto& e : sc["ops"].a) {
    const std::string op = e["op"].s;
    if (op == "cal") evs.push(Cal(e));
    else if (op == "iso") { Zone(e["z"]); V r = e; evs.push(r.set("got", Parts(UtcTimestamp(e["text"].text()).GetTimeNs()))); }
    else evs.push(Hdr(e, dir + "/t.mdf"));
  }
  Zone(V::O().set("k", "fix").set("min", 0));
  return evs;
}
}  // namespace
int main(int c, char** v) { return Main(c, v, Run); }
