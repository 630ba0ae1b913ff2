// Replays writer call histories against the real library and logs what a reader sees.
#include "common.h"
#include "vclock.h"
#include "mdf/idatawriter.h"
using namespace mdf;
using namespace vh;
namespace {
struct Ctx {
  std::string file;
  std::unique_ptr<MdfWriter> w;
  std::vector<std::vector<IChannelGroup*>> groups;  // groups of the current session
  std::vector<IDataGroup*> dgs;
  int64_t unit = 1000000;
  int dgno = 0;
};
const char* StName(WriteState s) {
  switch (s) { case WriteState::Create: return "create"; case WriteState::Init: return "init"; case WriteState::StartMeas: return "meas";
    case WriteState::StopMeas: return "stop"; case WriteState::Finalize: return "final"; }
  return "?";
}
uint64_t Abs(const Ctx& c, int64_t tick) { return kT0 + (uint64_t)(tick * c.unit); }
void AddGroups(Ctx& c, const V& op) {
  for (auto& d : op["dgs"].a) {
    IDataGroup* dg = c.w->CreateDataGroup();
    ++c.dgno;
    c.dgs.push_back(dg);
    std::vector<IChannelGroup*> cgs;
    int g = 0;
    for (auto& q : d.a) {
      IChannelGroup* cg = MdfWriter::CreateChannelGroup(dg);
      cg->Name("G" + std::to_string(c.dgno) + "_" + std::to_string(++g));
      if (q.flag("mst", true)) {
        IChannel* t = MdfWriter::CreateChannel(cg);
        t->Name("t");
        t->Type(ChannelType::Master);
        t->Sync(ChannelSyncType::Time);
        const Kind* k = FindKind(q.str("mk", "f64"));
        t->DataType(k->dt);
        t->DataBytes(k->bytes);
        t->Unit("s");
        if (q.flag("own")) t->CalculateMasterTime(false);   // the user sets the master value
        if (q.has("cv")) {
          auto* cc = t->CreateChannelConversion();
          cc->Type(ConversionType::Linear);
          cc->Parameter(0, (double)q["cv"][0].num());
          cc->Parameter(1, 1.0 / (double)q["cv"][1].num());
        }
      }
      int n = 0;
      for (auto& ks : q["chs"].a) {
        const Kind* k = FindKind(ks["k"].s);
        IChannel* ch = MdfWriter::CreateChannel(cg);
        ch->Name("c" + std::to_string(++n));
        const size_t blk = (size_t)ks.num("n", 0);
        if (blk) ch->Name("b" + std::to_string(n) + "_" + std::to_string(blk));
        ch->Type(k->bytes == 0 ? ChannelType::VariableLength : ChannelType::FixedLength);
        ch->DataType(k->dt);
        if (k->bytes) ch->DataBytes(blk ? blk : k->bytes);
        if (ks.flag("inv")) ch->Flags(ch->Flags() | CnFlag::InvalidValid);
      }
      cgs.push_back(cg);
    }
    if (!d.a.empty() && d[0].has("rid")) dg->RecordIdSize((uint8_t)d[0].num("rid", 1));  // wider record ids than needed
    c.groups.push_back(cgs);
  }
}
// A data writer holding the sample, or null if the group has values it cannot hold.
std::unique_ptr<IDataWriter> Prepared(IChannelGroup& cg, const V& vals, bool whole) {
  const auto list = cg.Channels();
  for (auto* ch : list) {
    if (ch->Type() == ChannelType::VariableLength) return nullptr;
    if (!whole && ch->Type() != ChannelType::Master && (ch->Flags() & CnFlag::InvalidValid)) return nullptr;
    if (!whole && ch->Type() != ChannelType::Master && (ClassOf(*ch) == 't' || ClassOf(*ch) == 'b')) return nullptr;
  }
  auto w = MdfFactory::CreateDataWriter(cg, cg.GetSampleRecord().record_buffer.empty() ? MdfFileType::Mdf3FileType : MdfFileType::Mdf4FileType);
  if (!w) return nullptr;
  w->Reset();
  if (whole) {
    const auto rec = cg.GetSampleRecord().record_buffer;
    return w->WriteRawRecord(rec.data(), rec.size()) ? std::move(w) : nullptr;
  }
  size_t i = 0;
  for (auto& l : w->ChannelLayouts()) {
    const auto& ch = *list.at(l.channel_index);
    const auto b = vals[i++].bytes();
    const uint64_t u = FromLe(b);
    if (ClassOf(ch) == 'f') {
      if (l.data_bytes == 4) w->SetValue<float>(l, (float)DoubleOf(b)); else w->SetValue<double>(l, DoubleOf(b));
    } else {
      switch (l.data_bytes) {
        case 1: w->SetValue<uint8_t>(l, (uint8_t)u); break;
        case 2: w->SetValue<uint16_t>(l, (uint16_t)u); break;
        case 4: w->SetValue<uint32_t>(l, (uint32_t)u); break;
        default: w->SetValue<uint64_t>(l, u); break;
      }
    }
  }
  return w;
}
V Run(const V& sc, const std::string& dir) {
  Ctx c;
  c.file = dir + "/w" + std::to_string(sc["id"].num()) + ".mdf";
  std::filesystem::remove(c.file);
  c.unit = sc.num("unit", 1000000);
  kT0 = sc.has("t0") ? (uint64_t)sc["t0"].num() : 1600000000000000000ULL;
  V evs = V::A();
  vclk::Enable(true);
  for (auto& op : sc["ops"].a) {
    V e = op;
    if (op["op"].s == "save" && !op.has("m")) e.set("m", V::A());
    const std::string o = op["op"].s;
    if (o == "open") {
      const std::string w = op["w"].s;
      c.w.reset();
      c.groups.clear(); c.dgs.clear();
      c.w = MdfFactory::CreateMdfWriter(w == "mdf3" ? MdfWriterType::Mdf3Basic : w == "conv" ? MdfWriterType::MdfConverter : w == "bus" ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic);
      if (op.num("sb", 0) == 1) {           // a stream buffer of the caller
        auto fb = std::make_shared<std::filebuf>();
        fb->open(c.file, std::ios_base::in | std::ios_base::out | std::ios_base::binary | std::ios_base::trunc);
        e.set("res", c.w->Init(std::static_pointer_cast<std::streambuf>(fb)));
      } else e.set("res", c.w->Init(c.file));
      c.w->CompressData(op.flag("z"));
      c.w->SavePeriodic(op.flag("per", true));
      c.w->PreTrigTime((double)op.num("pre", 0) * (double)c.unit / 1e9);
    } else if (o == "groups") {
      c.groups.clear(); c.dgs.clear();
      AddGroups(c, op);
    } else if (o == "init") {
      e.set("res", c.w->InitMeasurement());
    } else if (o == "start") {
      if (op.flag("its")) { UtcTimestamp ts(Abs(c, op["t"].num())); c.w->StartMeasurement(ts); }
      else c.w->StartMeasurement(Abs(c, op["t"].num()));
    } else if (o == "save") {
      auto* cg = c.groups.at((size_t)op["d"].num() - 1).at((size_t)op["c"].num() - 1);
      auto list = cg->Channels();
      size_t i = 0;
      for (auto* ch : list) {
        if (ch->Type() == ChannelType::Master) {
          if (op.has("m") && op["m"].a.size()) ch->SetChannelValue((double)op["m"][0].num() * (double)c.unit / 1e9);
          continue;
        }
        auto val = op["v"][i].bytes();
        if (ch->Name()[0] == 'b') val = Block(val, std::stoul(ch->Name().substr(ch->Name().find('_') + 1)));
        SetValue(*ch, val, op.has("ok") ? op["ok"][i].b : true);
        ++i;
      }
      const auto dw = op.num("dw", 0) ? Prepared(*cg, op["v"], op.num("dw", 0) == 2) : nullptr;
      if (dw) c.w->AddSample(*c.dgs.at((size_t)op["d"].num() - 1), *cg, Abs(c, op["t"].num()), dw->Commit());
      else if (op.flag("bydg")) c.w->SaveSample(*c.dgs.at((size_t)op["d"].num() - 1), *cg, Abs(c, op["t"].num()));
      else c.w->SaveSample(*cg, Abs(c, op["t"].num()));
    } else if (o == "tick") {
      vclk::Tick();
    } else if (o == "stop") {
      if (op.flag("its")) { UtcTimestamp ts(Abs(c, op["t"].num())); c.w->StopMeasurement(ts); }
      else c.w->StopMeasurement(Abs(c, op["t"].num()));
    } else if (o == "fin") {
      e.set("res", c.w->FinalizeMeasurement());
    } else if (o == "close") {
      c.w.reset();
      c.groups.clear(); c.dgs.clear();
    } else if (o == "snap") {
      const std::string s = c.file + ".snap";
      std::error_code ec;
      std::filesystem::remove(s, ec);
      std::filesystem::copy_file(c.file, s, ec);
      e.set("out", ReadAll(s, c.unit));
      std::filesystem::remove(s, ec);
    } else if (o == "read") {
      e.set("out", ReadAll(c.file, c.unit));
    } else throw std::runtime_error("op " + o);
    e.set("st", c.w ? StName(c.w->State()) : "none");
    evs.push(e);
  }
  c.w.reset();
  vclk::Enable(false);
  if (!sc.flag("keep")) std::filesystem::remove(c.file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
