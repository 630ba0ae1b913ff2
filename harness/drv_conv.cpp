// Conversion driver: a file (given byte by byte, or written through the writer) is read and
// the engineering values of all channels are reported.
#include "common.h"
using namespace mdf;
using namespace vh;
namespace {
std::vector<uint8_t> Hex(const std::string& s) {
  std::vector<uint8_t> r;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
  return r;
}
int64_t Fix(double x, double scale) {
  if (std::isnan(x)) return 2000000001;
  x *= scale;
  if (x > 2e9) return 2000000000;
  if (x < -2e9) return -2000000000;
  return llround(x);
}
void Write(const V& sc, const std::string& file) {
  const bool m3 = sc["write"].s == "mdf3";
  auto w = MdfFactory::CreateMdfWriter(m3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
  w->Init(file);
  auto* h = w->Header();
  h->Author("x");
  auto* dg = w->CreateDataGroup();
  auto* cg = MdfWriter::CreateChannelGroup(dg);
  cg->Name("g");
  auto* m = MdfWriter::CreateChannel(cg);
  m->Name("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
  std::vector<IChannel*> cs;
  for (auto& c : sc["chs"].a) {
    auto* ch = MdfWriter::CreateChannel(cg);
    ch->Name(c["name"].s);
    ch->Type(ChannelType::FixedLength);
    const std::string k = c["kind"].s;
    ch->DataType(k == "u" ? ChannelDataType::UnsignedIntegerLe : k == "s" ? ChannelDataType::SignedIntegerLe : k == "f" ? ChannelDataType::FloatLe : m3 ? ChannelDataType::StringAscii : ChannelDataType::StringUTF8);
    ch->DataBytes(k == "t" ? 16 : 8);
    auto* cc = ch->CreateChannelConversion();
    cc->Type((ConversionType)c["code"].num());
    cc->Unit(c["unit"].s);
    uint16_t i = 0;
    for (auto& p : c["cc"]["p"].a) cc->Parameter(i++, (double)p.i / 4.0);
    i = 0;
    for (auto& r : c["cc"]["refs"].a) cc->Reference(i++, r["t"].text());
    cs.push_back(ch);
  }
  if (!w->InitMeasurement()) throw std::runtime_error("init");
  w->StartMeasurement(kT0);
  const size_t n = sc["chs"][0]["raw"].size();
  for (size_t k = 0; k < n; ++k) {
    for (size_t c = 0; c < cs.size(); ++c) {
      auto& raw = sc["chs"][c]["raw"][k];
      const std::string kind = sc["chs"][c]["kind"].s;
      if (kind == "t") cs[c]->SetChannelValue(raw.text());
      else if (kind == "f") cs[c]->SetChannelValue((double)raw.i / 4.0);
      else cs[c]->SetChannelValue((int64_t)(raw.i / 4));
    }
    w->SaveSample(*cg, kT0 + (uint64_t)k * 1000000);
  }
  w->StopMeasurement(kT0 + n * 1000000);
  if (!w->FinalizeMeasurement()) throw std::runtime_error("finalize");
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string file = dir + "/f" + std::to_string(sc["id"].num()) + ".mf4";
  evs.push(V::O().set("op", "conf").set("chs", sc["chs"]));
  if (sc.has("write")) Write(sc, file);
  else {
    const auto bytes = Hex(sc["hex"].s);
    std::ofstream(file, std::ios::binary).write((const char*)bytes.data(), (std::streamsize)bytes.size());
  }
  {
    MdfReader r(file);
    bool ok = r.IsOk() && r.ReadEverythingButData();
    DataGroupList dgs;
    r.GetFile()->DataGroups(dgs);
    V cols = V::A(), rules = V::A();
    auto* cg = dgs.at(0)->ChannelGroups().at(0);
    std::vector<std::unique_ptr<IChannelObserver>> os;
    for (auto& c : sc["chs"].a)
      for (auto* ch : cg->Channels())
        if (ch->Name() == c["name"].s) {
          os.push_back(CreateChannelObserver(*dgs[0], *cg, *ch));
          auto* cc = ch->ChannelConversion();
          V one = V::O();
          one.set("ty", cc ? (int64_t)cc->Type() : -1).set("unit", cc ? cc->Unit() : "");
          V p = V::A(), refs = V::A();
          if (cc) {
            const bool pairs = sc.str("write") == "mdf3" && (cc->Type() == ConversionType::ValueToValue || cc->Type() == ConversionType::ValueToValueInterpolation);
            for (uint16_t i = 0; i < cc->NofParameters() * (pairs ? 2 : 1); ++i) p.push(Fix(cc->Parameter(i), 4));
            for (uint16_t i = 0; i < cc->NofReferences(); ++i) refs.push(V::B(cc->Reference(i)));
          }
          rules.push(one.set("p", p).set("refs", refs));
          break;
        }
    if (sc.has("write")) evs.push(V::O().set("op", "rule").set("rules", rules));
    ok = ok && r.ReadData(*dgs[0]);
    for (auto& o : os) {
      V col = V::A();
      for (uint64_t k = 0; k < o->NofSamples(); ++k) {
        double d = 0; std::string t;
        const bool a = o->GetEngValue(k, d);
        const bool b = o->GetEngValue(k, t);
        col.push(V::O().set("ok", a).set("e", Fix(d, 1024)).set("okt", b).set("t", V::B(t)).set("et", Fix(strtod(t.c_str(), nullptr), 1024)));
      }
      cols.push(col);
    }
    evs.push(V::O().set("op", "read").set("ok", ok).set("cols", cols));
  }
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int c, char** v) { return Main(c, v, Run); }
