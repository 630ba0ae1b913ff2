// Reading driver: a file given byte by byte is opened and read through the public interface.
#include "common.h"
#include <map>
#include <sstream>
#include "mdf/isamplereduction.h"
#include "cg3block.h"
#include "cg4block.h"
#include "sr3block.h"
#include "sr4block.h"
using namespace mdf;
using namespace vh;
namespace {
char Cls(const IChannel& c) {
  switch (c.DataType()) {
    case ChannelDataType::UnsignedIntegerLe: case ChannelDataType::UnsignedIntegerBe: return 'u';
    case ChannelDataType::SignedIntegerLe: case ChannelDataType::SignedIntegerBe: return 's';
    case ChannelDataType::FloatLe: case ChannelDataType::FloatBe: return 'f';
    case ChannelDataType::StringAscii: case ChannelDataType::StringUTF8:
    case ChannelDataType::StringUTF16Le: case ChannelDataType::StringUTF16Be: return 't';
    default: return 'b';
  }
}
V Val(const IChannelObserver& o, uint64_t k) {
  std::vector<uint8_t> out; bool ok = false;
  switch (Cls(o.Channel())) {
    case 'u': { uint64_t v = 0; ok = o.GetChannelValue(k, v); out = LeBytes(v, 8); break; }
    case 's': { int64_t v = 0; ok = o.GetChannelValue(k, v); out = LeBytes((uint64_t)v, 8); break; }
    case 'f': { double v = 0; ok = o.GetChannelValue(k, v); out = BytesOf(v); break; }
    case 't': { std::string v; ok = o.GetChannelValue(k, v); out.assign(v.begin(), v.end()); break; }
    default: { ok = o.GetChannelValue(k, out); break; }
  }
  return V::O().set("v", V::B(out)).set("ok", ok);
}
struct Raw : ISampleObserver {
  V log = V::A();
  explicit Raw(const IDataGroup& dg) : ISampleObserver(dg) {}
  bool OnSample(uint64_t sample, uint64_t id, const std::vector<uint8_t>& rec) override {
    log.push(V::O().set("k", (int64_t)sample).set("id", V::B(LeBytes(id, 8))).set("r", V::B(rec)));
    return true;
  }
};
struct Obs { std::unique_ptr<IChannelObserver> c; std::unique_ptr<Raw> r; int64_t dg = 0; };
std::vector<uint8_t> Hex(const std::string& s) {
  std::vector<uint8_t> r;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
  return r;
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string file = dir + "/f" + std::to_string(sc["id"].num()) + ".mdf";
  const std::string& hex = sc["hex"].s;
  auto make = [&]() {   // all bytes, or pieces |position:bytes with holes between
    std::ofstream f(file, std::ios::binary);
    auto put = [&](const std::string& h) { const auto b = Hex(h); f.write((const char*)b.data(), (std::streamsize)b.size()); };
    if (hex.empty() || hex[0] != '|') { put(hex); return; }
    for (size_t i = 0; i < hex.size();) {
      const size_t c = hex.find(':', i), e = std::min(hex.find('|', c), hex.size());
      f.seekp((std::streamoff)std::stoll(hex.substr(i + 1, c - i - 1)));
      put(hex.substr(c + 1, e - c - 1));
      i = e;
    }
  };
  std::unique_ptr<MdfReader> r;
  evs.push(V::O().set("op", "file").set("dgs", sc["dgs"]).set("fin", sc.flag("fin", true)));
  std::map<int64_t, Obs> obs;
  auto dgs = [&]() { std::vector<IDataGroup*> l; DataGroupList t; if (r && r->GetFile()) r->GetFile()->DataGroups(t); for (auto* d : t) l.push_back(d); return l; };
  auto look = [&](V& e, int64_t only) {
    V all = V::A();
    for (auto& [id, o] : obs) {
      if (only >= 0 && o.dg != only) continue;
      V vals = V::A();
      if (o.c) for (uint64_t k = 0; k < o.c->NofSamples(); ++k) vals.push(Val(*o.c, k));
      V one = V::O().set("o", id).set("vals", o.r ? o.r->log : vals);
      if (o.c && o.c->Channel().Type() == ChannelType::VariableLength) {
        V offs = V::A();
        for (auto x : o.c->GetOffsetList()) offs.push((int64_t)x);
        one.set("offs", offs);
      }
      all.push(one);
    }
    e.set("obs", all);
  };
  for (auto& op : sc["ops"].a) {
    V e = op;
    const std::string n = op["op"].s;
    if (n == "open") {
      obs.clear();
      r.reset();
      make();
      if (op.flag("mem")) {      // through a stream buffer of the caller
        auto sb = std::make_shared<std::filebuf>();
        sb->open(file, std::ios_base::in | std::ios_base::binary);
        r = std::make_unique<MdfReader>(sb);
      } else r = std::make_unique<MdfReader>(file);
      e.set("ok", r->IsOk() && r->ReadEverythingButData());
      e.set("fin", r->IsFinalized());
      V g = V::A();
      for (auto* d : dgs()) {
        V cgs = V::A();
        for (auto* c : d->ChannelGroups()) {
          V names = V::A();
          for (auto* ch : c->Channels()) names.push(ch->Name());
          cgs.push(V::O().set("n", (int64_t)c->NofSamples()).set("names", names));
        }
        g.push(cgs);
      }
      e.set("shape", g);
    } else if (n == "attach") {
      IDataGroup* d = dgs().at((size_t)op["dg"].num() - 1);
      Obs o; o.dg = op["dg"].num();
      if (op.num("cn", 0) == 0) o.r = std::make_unique<Raw>(*d);
      else {
        IChannelGroup* g = d->ChannelGroups().at((size_t)op["cg"].num() - 1);
        o.c = CreateChannelObserver(*d, *g, *g->Channels().at((size_t)op["cn"].num() - 1));
        if (op.has("vl")) o.c->ReadVlsdData(op["vl"].b);
      }
      e.set("got", o.c != nullptr || o.r != nullptr);
      obs[op["o"].num()] = std::move(o);
    } else if (n == "detach") {
      obs.erase(op["o"].num());
    } else if (n == "read" || n == "part") {
      IDataGroup* d = dgs().at((size_t)op["dg"].num() - 1);
      for (auto& [id, o] : obs) if (o.r && o.dg == op["dg"].num()) o.r->log = V::A();
      if (op.flag("cls")) r->Close();
      const bool ok = n == "read" ? r->ReadData(*d) : r->ReadPartialData(*d, (size_t)op["min"].num(), (size_t)op["max"].num());
      e.set("ok", ok);
      look(e, op["dg"].num());
    } else if (n == "look") {
      look(e, -1);
    } else if (n == "vlsd") {
      IDataGroup* d = dgs().at((size_t)op["dg"].num() - 1);
      IChannelGroup* g = d->ChannelGroups().at((size_t)op["cg"].num() - 1);
      IChannel* c = g->Channels().at((size_t)op["cn"].num() - 1);
      std::vector<uint64_t> offs;
      for (auto& x : op["offs"].a) offs.push_back((uint64_t)x.num());
      V got = V::A();
      std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t off, const std::vector<uint8_t>& b) {
        got.push(V::O().set("at", (int64_t)off).set("v", V::B(b)));
      };
      e.set("ok", r->ReadVlsdData(*d, *c, offs, cb));
      e.set("got", got);
    } else if (n == "sr") {
      IDataGroup* d = dgs().at((size_t)op["dg"].num() - 1);
      IChannelGroup* g = d->ChannelGroups().at((size_t)op["cg"].num() - 1);
      std::vector<ISampleReduction*> srs;   // the library offers no public way to the reductions of a group
      if (auto* g4 = dynamic_cast<detail::Cg4Block*>(g)) for (auto& x : g4->Sr4()) srs.push_back(x.get());
      if (auto* g3 = dynamic_cast<detail::Cg3Block*>(g)) for (auto& x : g3->Sr3()) srs.push_back(x.get());
      e.set("nsr", (int64_t)srs.size());
      if ((size_t)op["sr"].num() <= srs.size()) {
        ISampleReduction* s = srs.at((size_t)op["sr"].num() - 1);
        if (!op.flag("via")) e.set("ok", r->ReadSrData(*s));
        else e.set("ok", r->ReadData(*d));
        e.set("cyc", (int64_t)s->NofSamples());
        e.set("iv", V::B(BytesOf(s->Interval())));
        e.set("sync", (int64_t)s->SyncType());
        V chs = V::A();
        for (auto* c : g->Channels()) {
          V vals = V::A();
          for (uint64_t k = 0; k < s->NofSamples(); ++k) {
            auto put = [&](auto t, auto enc) {
              SrValue<decltype(t)> v;
              s->GetChannelValue(*c, k, 0, v);
              vals.push(V::O().set("a", V::B(enc(v.MeanValue))).set("lo", V::B(enc(v.MinValue))).set("hi", V::B(enc(v.MaxValue)))
                .set("ok", v.MeanValid && v.MinValid && v.MaxValid));
            };
            switch (Cls(*c)) {
              case 'u': put(uint64_t{}, [](uint64_t x) { return LeBytes(x, 8); }); break;
              case 's': put(int64_t{}, [](int64_t x) { return LeBytes((uint64_t)x, 8); }); break;
              default: put(double{}, [](double x) { return BytesOf(x); }); break;
            }
          }
          chs.push(vals);
        }
        e.set("vals", chs);
        s->ClearData();
      }
    } else throw std::runtime_error("op " + n);
    evs.push(e);
  }
  obs.clear();
  r.reset();
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
