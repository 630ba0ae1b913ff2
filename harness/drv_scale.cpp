// Long recordings, wide records and many groups: contents follow a rule of the sample number, reads report sums.
#include "common.h"
using namespace mdf;
using namespace vh;
namespace {
std::vector<uint8_t> Hex(const std::string& s) {
  std::vector<uint8_t> r;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
  return r;
}
uint64_t Rule(int64_t s, int64_t c) { return (uint64_t)((s * 7 + c * 13) % 65521); }
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string file = dir + "/s" + std::to_string(sc["id"].num()) + ".mdf";
  std::filesystem::remove(file);
  const V& cfg = sc["cfg"];
  const int64_t D = cfg["D"].num(), G = cfg["G"].num(), C = cfg["C"].num(), N = cfg["N"].num();
  V e = V::O().set("op", "made").set("cfg", cfg);
  if (sc.has("hex")) {
    const auto b = Hex(sc["hex"].s);
    std::ofstream(file, std::ios::binary).write((const char*)b.data(), (std::streamsize)b.size());
    e.set("ok", true);
  } else {
    const std::string w = sc["w"].s;
    auto wr = MdfFactory::CreateMdfWriter(w == "mdf3" ? MdfWriterType::Mdf3Basic : w == "conv" ? MdfWriterType::MdfConverter : w == "bus" ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic);
    bool ok = wr->Init(file);
    wr->CompressData(sc.flag("z"));
    wr->SavePeriodic(sc.flag("per"));
    std::vector<std::vector<std::vector<IChannel*>>> chs;
    std::vector<std::vector<IChannelGroup*>> cgs;
    for (int64_t d = 0; d < D; ++d) {
      auto* dg = wr->CreateDataGroup();
      chs.emplace_back(); cgs.emplace_back();
      for (int64_t g = 0; g < G; ++g) {
        auto* cg = MdfWriter::CreateChannelGroup(dg);
        cg->Name("g" + std::to_string(d) + "_" + std::to_string(g));
        cgs.back().push_back(cg);
        chs.back().emplace_back();
        auto* t = MdfWriter::CreateChannel(cg);
        t->Name("t"); t->Type(ChannelType::Master); t->Sync(ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
        for (int64_t c = 0; c < C; ++c) {
          auto* ch = MdfWriter::CreateChannel(cg);
          ch->Name("c" + std::to_string(c));
          ch->Type(ChannelType::FixedLength); ch->DataType(ChannelDataType::UnsignedIntegerLe); ch->DataBytes((size_t)cfg.num("B", 4));
          if (cfg.flag("inv")) ch->Flags(CnFlag::InvalidValid);
          chs.back().back().push_back(ch);
        }
      }
    }
    ok = wr->InitMeasurement() && ok;
    wr->StartMeasurement(kT0);
    for (int64_t s = 0; s < N; ++s) {
      const size_t d = (size_t)(s % D), g = (size_t)((s / D) % G);
      for (int64_t c = 0; c < C; ++c) chs[d][g][(size_t)c]->SetChannelValue(Rule(s, c), !cfg.flag("inv") || (s + c) % 3 != 0);
      wr->SaveSample(*cgs[d][g], kT0 + (uint64_t)s * 1000);
    }
    wr->StopMeasurement(kT0 + (uint64_t)(N + 1) * 1000);
    ok = wr->FinalizeMeasurement() && ok;
    e.set("ok", ok);
  }
  evs.push(e);
  MdfReader r(file);
  V o = V::O().set("op", "open").set("ok", r.IsOk() && r.ReadEverythingButData());
  DataGroupList list;
  if (r.GetFile()) r.GetFile()->DataGroups(list);
  V shape = V::A();
  for (auto* d : list) {
    V gs = V::A();
    for (auto* g : d->ChannelGroups()) {
      int64_t named = 0;   // channels with the expected name
      for (auto* c : g->Channels()) if (c->Name() == "c" + std::to_string(named)) ++named;
      gs.push(V::O().set("name", g->Name()).set("n", (int64_t)g->NofSamples()).set("c", named));
    }
    shape.push(gs);
  }
  o.set("shape", shape);
  evs.push(o);
  for (auto& rd : sc["reads"].a) {
    V x = rd;
    auto* d = list.at((size_t)rd["d"].num());
    struct One { int64_t g, c; std::unique_ptr<IChannelObserver> ob; };
    std::vector<One> obs;
    const auto groups = d->ChannelGroups();
    for (auto& q : rd["pick"].a) {
      auto* g = groups.at((size_t)q[0].num());
      const std::string name = "c" + std::to_string(q[1].num());
      for (auto* c : g->Channels()) if (c->Name() == name) obs.push_back({q[0].num(), q[1].num(), CreateChannelObserver(*d, *g, *c)});
    }
    x.set("ok", rd.has("lo") ? r.ReadPartialData(*d, (size_t)rd["lo"].num(), (size_t)rd["hi"].num()) : r.ReadData(*d));
    V got = V::A();
    for (auto& ob : obs) {
      int64_t sum = 0, good = 0;
      for (uint64_t k = 0; k < ob.ob->NofSamples(); ++k) {
        uint64_t v = 0;
        const bool ok = ob.ob->GetChannelValue(k, v);
        good += ok;
        sum = (sum + (int64_t)(((v + (ok ? 1 : 0)) % 1000003) * (k % 1009 + 1))) % 1000003;
      }
      got.push(V::O().set("g", ob.g).set("c", ob.c).set("n", (int64_t)ob.ob->NofSamples()).set("good", good).set("sum", sum));
    }
    x.set("got", got);
    evs.push(x);
  }
  r.Close();
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
