// Record coding: layouts, channel values, array elements and invalidation marks, in memory and through a file.
#include "common.h"
#if __has_include("dbchelper.h")
#include "dbchelper.h"
#else
namespace mdf::detail { class DbcHelper; }
#endif
#include "mdf/mdfhelper.h"
using namespace mdf;
using namespace vh;
namespace {
// The internal coders are used when they exist under these names, otherwise the public one.
template <class D> auto RawU(int, bool le, size_t s, size_t n, uint64_t v, uint8_t* r) -> decltype(D::UnsignedToRaw(le, s, n, v, r)) { return D::UnsignedToRaw(le, s, n, v, r); }
template <class D> void RawU(long, bool le, size_t s, size_t n, uint64_t v, uint8_t* r) { MdfHelper::UnsignedToRaw(le, s, n, v, r); }
template <class D> auto RawS(int, bool le, size_t s, size_t n, int64_t v, uint8_t* r) -> decltype(D::SignedToRaw(le, s, n, v, r)) { return D::SignedToRaw(le, s, n, v, r); }
template <class D> void RawS(long, bool le, size_t s, size_t n, int64_t v, uint8_t* r) { MdfHelper::UnsignedToRaw(le, s, n, (uint64_t)v, r); }
struct Dt { const char* n; ChannelDataType t; const char* cls; bool be; };
const Dt kDt[] = {
  {"u", ChannelDataType::UnsignedIntegerLe, "u", false}, {"U", ChannelDataType::UnsignedIntegerBe, "u", true},
  {"s", ChannelDataType::SignedIntegerLe, "s", false}, {"S", ChannelDataType::SignedIntegerBe, "s", true},
  {"f", ChannelDataType::FloatLe, "f", false}, {"F", ChannelDataType::FloatBe, "f", true},
  {"l", ChannelDataType::StringAscii, "l", false}, {"t", ChannelDataType::StringUTF8, "t", false},
  {"w", ChannelDataType::StringUTF16Le, "w", false}, {"W", ChannelDataType::StringUTF16Be, "w", true},
  {"b", ChannelDataType::ByteArray, "b", false}, {"m", ChannelDataType::MimeSample, "b", false},
  {"d", ChannelDataType::CanOpenDate, "d", false}, {"c", ChannelDataType::CanOpenTime, "b", false},
};
const Dt& Find(const std::string& n) { for (auto& d : kDt) if (n == d.n) return d; throw std::runtime_error("dt " + n); }
const Dt& Of(const IChannel& c) { for (auto& d : kDt) if (d.t == c.DataType()) return d; throw std::runtime_error("datatype"); }
int64_t Sx(const std::vector<uint8_t>& b) {
  uint64_t v = FromLe(b);
  if (!b.empty() && b.size() < 8 && (b.back() & 0x80)) v |= ~0ULL << (8 * b.size());
  return (int64_t)v;
}
void SetV(IChannel& c, const std::vector<uint8_t>& b, bool ok, uint64_t i) {
  switch (Of(c).cls[0]) {
    case 'u': c.SetChannelValue(FromLe(b), ok, i); break;
    case 's': c.SetChannelValue(Sx(b), ok, i); break;
    case 'f': c.SetChannelValue(DoubleOf(b), ok, i); break;
    case 'b': case 'd': c.SetChannelValue(b, ok, i); break;
    default: c.SetChannelValue(std::string(b.begin(), b.end()), ok, i); break;
  }
}
template <class G> V One(const IChannel& c, G get) {
  std::vector<uint8_t> out; bool ok = false;
  switch (Of(c).cls[0]) {
    case 'u': { uint64_t v = 0; ok = get(v); out = LeBytes(v, 8); break; }
    case 's': { int64_t v = 0; ok = get(v); out = LeBytes((uint64_t)v, 8); break; }
    case 'f': { double v = 0; ok = get(v); out = BytesOf(v); break; }
    case 'b': case 'd': {
      if (c.DataType() == ChannelDataType::CanOpenDate || c.DataType() == ChannelDataType::CanOpenTime) {
        uint64_t v = 0; ok = get(v);
        out = c.DataType() == ChannelDataType::CanOpenDate ? MdfHelper::NsToCanOpenDateArray(v) : MdfHelper::NsToCanOpenTimeArray(v);
      } else { std::vector<uint8_t> v; ok = get(v); out = v; }
      break;
    }
    default: { std::string v; ok = get(v); out.assign(v.begin(), v.end()); break; }
  }
  return V::O().set("v", V::B(out)).set("ok", ok);
}
V Gets(const IChannelGroup& cg, const std::vector<uint8_t>& rec) {
  V g = V::A();
  for (const IChannel* c : cg.Channels()) {
    V e = V::A();
    for (uint64_t i = 0; i < c->ArraySize(); ++i) e.push(One(*c, [&](auto& v) { return c->GetChannelValue(rec, v, i); }));
    g.push(e);
  }
  return g;
}
V Cls(const Dt& d) { return V(std::string(d.cls)); }
V Run(const V& sc, const std::string& dir) {
  const std::string file = dir + "/r" + std::to_string(sc["id"].num()) + ".mdf";
  std::filesystem::remove(file);
  V evs = V::A();
  const bool m3 = sc.str("w", "mdf4") == "mdf3";
  auto w = MdfFactory::CreateMdfWriter(m3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
  w->Init(file);
  w->CompressData(sc.flag("z"));
  IDataGroup* dg = w->CreateDataGroup();
  IChannelGroup* cg = MdfWriter::CreateChannelGroup(dg);
  cg->Name("G");
  int n = 0;
  for (auto& c : sc["chs"].a) {
    IChannel* ch = MdfWriter::CreateChannel(cg);
    ch->Name("c" + std::to_string(++n));
    ch->Type(ChannelType::FixedLength);
    ch->DataType(Find(c["k"].s).t);
    ch->DataBytes((uint64_t)c["by"].num());
    uint32_t fl = 0;
    if (c.flag("inv")) fl |= CnFlag::InvalidValid;
    if (c.flag("all")) fl |= CnFlag::AllValuesInvalid;
    if (fl) ch->Flags(fl);
    if (c.has("sh")) {
      auto* a = ch->CreateChannelArray();
      std::vector<uint64_t> sh; for (auto& x : c["sh"].a) sh.push_back((uint64_t)x.num());
      a->Shape(sh);
      a->Type((ArrayType)c.num("at", 0));
      if (c.has("axis")) {
        a->Flags(CaFlag::Axis | CaFlag::FixedAxis);
        a->ResizeArrays();
        auto& ax = a->AxisValues();
        size_t k = 0;
        for (auto& x : c["axis"].a) if (k < ax.size()) ax[k++] = (double)x.num();
      }
    }
  }
  if (!w->InitMeasurement()) { evs.push(V::O().set("op", "initfail")); return evs; }
  auto& buf = cg->SampleBuffer();
  V lay = V::A();
  size_t nd = buf.size();
  auto chans = cg->Channels();
  int ninv = 0;
  for (size_t i = 0; i < chans.size(); ++i) {
    const IChannel* c = chans[i];
    const bool inv = !m3 && (c->Flags() & CnFlag::InvalidValid);
    if (inv) ninv += (int)c->ArraySize();
    V sh = V::A();
    for (auto x : c->ChannelArray(0) ? c->ChannelArray(0)->Shape() : std::vector<uint64_t>{}) sh.push((int64_t)x);
    lay.push(V::O().set("dt", std::string(Of(*c).cls)).set("be", Of(*c).be).set("byte", (int64_t)c->ByteOffset())
      .set("bit", (int64_t)c->BitOffset()).set("bits", (int64_t)c->BitCount()).set("n", (int64_t)c->ArraySize())
      .set("inv", inv).set("all", !m3 && (c->Flags() & CnFlag::AllValuesInvalid) != 0).set("sh", sh));
  }
  nd -= (size_t)(ninv + 7) / 8;
  evs.push(V::O().set("op", "layout").set("decl", sc["chs"]).set("m4", !m3).set("n", (int64_t)nd).set("size", (int64_t)buf.size()).set("ch", lay));
  w->StartMeasurement(1600000000000000000ULL);
  uint64_t t = 1600000000000000000ULL;
  for (auto& op : sc["ops"].a) {
    V e = op;
    const std::string o = op["op"].s;
    if (o == "set") {
      IChannel* c = chans.at((size_t)op["c"].num() - 1);
      SetV(*c, op["v"].bytes(), op["ok"].b, (uint64_t)op["i"].num());
      e.set("rec", V::B(std::vector<uint8_t>(buf.begin(), buf.begin() + (long)nd)));
      e.set("g", Gets(*cg, buf));
    } else if (o == "setall") {
      IChannel* c = chans.at((size_t)op["c"].num() - 1);
      const char k = Of(*c).cls[0];
      std::vector<uint64_t> u; std::vector<int64_t> s; std::vector<double> f;
      for (auto& x : op["vs"].a) { auto b = x["v"].bytes(); u.push_back(FromLe(b)); s.push_back(Sx(b)); f.push_back(DoubleOf(b)); }
      if (k == 'u') c->SetChannelValues(u); else if (k == 's') c->SetChannelValues(s); else c->SetChannelValues(f);
      e.set("rec", V::B(std::vector<uint8_t>(buf.begin(), buf.begin() + (long)nd)));
      e.set("g", Gets(*cg, buf));
    } else if (o == "save") {
      w->SaveSample(*cg, t += 1000000);
    } else if (o == "raw") {
      // decode at an arbitrary position of an arbitrary record
      IChannel* c = chans.at(0);
      const Dt& d = Find(op["k"].s);
      c->DataType(d.t);
      c->ByteOffset((uint32_t)op["byte"].num()); c->BitOffset((uint16_t)op["bit"].num()); c->BitCount((uint32_t)op["bits"].num());
      const auto rec = op["rec"].bytes();
      const uint64_t i = (uint64_t)op["i"].num();
      V r = One(*c, [&](auto& v) { return c->GetChannelValue(rec, v, i); });
      e.set("ch", V::O().set("dt", std::string(d.cls)).set("be", d.be).set("byte", op["byte"]).set("bit", op["bit"]).set("bits", op["bits"]).set("n", 1).set("inv", false));
      e.set("v", r["v"]).set("res", r["ok"]);
    } else if (o == "toraw") {
      auto rec = op["rec"].bytes();
      const auto v = op["v"].bytes();
      const bool le = !op["be"].b;
      const size_t s = (size_t)op["s"].num(), len = (size_t)op["len"].num();
      const std::string f = op["f"].s;
      if (f == "mu") MdfHelper::UnsignedToRaw(le, s, len, FromLe(v), rec.data());
      else if (f == "du") RawU<detail::DbcHelper>(0, le, s, len, FromLe(v), rec.data());
      else if (f == "ds") RawS<detail::DbcHelper>(0, le, s, len, Sx(v), rec.data());
      e.set("out", V::B(rec));
    } else if (o == "read") {
      w->StopMeasurement(t + 1000000);
      w->FinalizeMeasurement();
      V smp = V::A(), dims = V::A(), arr = V::A();
      MdfReader r(file);
      const bool ok = r.ReadEverythingButData() && r.GetHeader() != nullptr;
      e.set("rok", ok);
      if (ok && r.GetHeader()->LastDataGroup()) {
        IDataGroup* d = r.GetHeader()->LastDataGroup();
        auto gl = d->ChannelGroups();
        IChannelGroup* g = gl.empty() ? nullptr : gl.front();
        if (g) {
          std::vector<std::unique_ptr<IChannelObserver>> obs;
          for (IChannel* c : g->Channels()) {
            obs.push_back(CreateChannelObserver(*d, *g, *c));
            V sh = V::A(), ax = V::A();
            int64_t at = -1;
            if (auto* a = c->ChannelArray(0)) {
              for (auto x : a->Shape()) sh.push((int64_t)x);
              at = (int64_t)a->Type();
              if (a->Flags() & CaFlag::FixedAxis) for (double x : ((const IChannelArray*)a)->AxisValues()) ax.push((int64_t)x);
            }
            dims.push(sh);
            arr.push(V::O().set("at", at).set("axis", ax));
          }
          r.ReadData(*d);
          for (uint64_t k = 0; k < g->NofSamples(); ++k) {
            V gg = V::A();
            for (auto& p : obs) {
              V el = V::A();
              const auto& c = p->Channel();
              const char kc = Of(c).cls[0];
              if (k % 2 == 1 && c.ArraySize() > 1 && (kc == 'u' || kc == 'f' || kc == 's')) {
                // all elements at once
                std::vector<uint64_t> u; std::vector<int64_t> s; std::vector<double> f; std::vector<bool> oks;
                if (kc == 'u') oks = p->GetChannelValues(k, u); else if (kc == 's') oks = p->GetChannelValues(k, s); else oks = p->GetChannelValues(k, f);
                for (size_t i = 0; i < oks.size(); ++i)
                  el.push(V::O().set("v", V::B(kc == 'u' ? LeBytes(u[i], 8) : kc == 's' ? LeBytes((uint64_t)s[i], 8) : BytesOf(f[i]))).set("ok", (bool)oks[i]));
              } else {
                for (uint64_t i = 0; i < c.ArraySize(); ++i) el.push(One(c, [&](auto& v) { return p->GetChannelValue(k, v, i); }));
              }
              gg.push(el);
            }
            smp.push(V::O().set("g", gg));
          }
        }
      }
      e.set("smp", smp).set("dims", dims).set("arr", arr);
    } else throw std::runtime_error("op " + o);
    evs.push(e);
  }
  w.reset();
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
