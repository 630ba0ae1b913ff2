// Sorting driver: a file given byte by byte is sorted by the sorting task; source and result are read and compared by the specification.
#include "common.h"
#include <cstdlib>
#include "sortingtask.h"
#include "mdf/ifilehistory.h"
using namespace mdf;
using namespace vh;
namespace {
char Cls(const IChannel& c) {
  switch (c.DataType()) {
    case ChannelDataType::UnsignedIntegerLe: case ChannelDataType::UnsignedIntegerBe: return 'u';
    case ChannelDataType::SignedIntegerLe: case ChannelDataType::SignedIntegerBe: return 's';
    case ChannelDataType::FloatLe: case ChannelDataType::FloatBe: return 'f';
    case ChannelDataType::StringAscii: case ChannelDataType::StringUTF8:
    case ChannelDataType::StringUTF16Le: case ChannelDataType::StringUTF16Be: return 't';
    default: return 'b';
  }
}
V Val(const IChannelObserver& o, uint64_t k) {
  std::vector<uint8_t> out; bool ok = false;
  switch (Cls(o.Channel())) {
    case 'u': { uint64_t v = 0; ok = o.GetChannelValue(k, v); out = LeBytes(v, 8); break; }
    case 's': { int64_t v = 0; ok = o.GetChannelValue(k, v); out = LeBytes((uint64_t)v, 8); break; }
    case 'f': { double v = 0; ok = o.GetChannelValue(k, v); out = BytesOf(v); break; }
    case 't': { std::string v; ok = o.GetChannelValue(k, v); out.assign(v.begin(), v.end()); break; }
    default: { ok = o.GetChannelValue(k, out); break; }
  }
  return V::O().set("v", V::B(out)).set("ok", ok);
}
std::vector<uint8_t> Hex(const std::string& s) {
  std::vector<uint8_t> r;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
  return r;
}
std::vector<uint8_t> Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), {}};
}
// everything a user sees of a file
V View(const std::string& file, bool& ok) {
  V out = V::A();
  MdfReader r(file);
  ok = r.IsOk() && r.ReadEverythingButData() && r.IsFinalized();
  if (!ok) return out;
  DataGroupList dgs;
  r.GetFile()->DataGroups(dgs);
  for (auto* d : dgs) {
    V cgs = V::A();
    std::vector<std::vector<std::unique_ptr<IChannelObserver>>> obs;
    for (auto* g : d->ChannelGroups()) {
      obs.emplace_back();
      for (auto* c : g->Channels()) obs.back().push_back(CreateChannelObserver(*d, *g, *c));
    }
    ok = r.ReadData(*d) && ok;
    size_t i = 0;
    for (auto* g : d->ChannelGroups()) {
      V chs = V::A();
      size_t j = 0;
      for (auto* c : g->Channels()) {
        auto& o = obs[i][j++];
        V vals = V::A(), eng = V::A();
        for (uint64_t k = 0; k < o->NofSamples(); ++k) {
          vals.push(Val(*o, k));
          std::string s;
          const bool v = o->GetEngValue(k, s);
          eng.push(V::O().set("v", s).set("ok", v));
        }
        V arr = V::A();
        if (c->ArraySize() > 1)
          for (uint64_t k = 0; k < o->NofSamples(); ++k) for (uint64_t x = 0; x < c->ArraySize(); ++x) {
            double v = 0; const bool a = o->GetChannelValue(k, v, x);
            arr.push(V::O().set("v", V::B(BytesOf(v))).set("ok", a));
          }
        V dims = V::A();
        for (auto* ca : c->ChannelArrays()) for (auto n : ca->Shape()) dims.push((int64_t)n);
        chs.push(V::O().set("arr", arr).set("dims", dims).set("name", c->Name()).set("unit", c->Unit()).set("desc", c->Description())
          .set("type", (int64_t)c->Type()).set("sync", (int64_t)c->Sync()).set("cls", std::string(1, Cls(*c)))
          .set("vals", vals).set("eng", eng));
      }
      ++i;
      cgs.push(V::O().set("vlsd", (g->Flags() & CgFlag::VlsdChannel) != 0).set("n", (int64_t)g->NofSamples())
        .set("name", g->Name()).set("desc", g->Description()).set("chs", chs));
    }
    out.push(cgs);
  }
  return out;
}
// the header of a file: start of the measurement, who and what, and the file history
V Head(const std::string& file) {
  V o = V::O();
  MdfReader r(file);
  if (!r.IsOk() || !r.ReadEverythingButData()) return o;
  const auto* h = r.GetHeader();
  HdComment c;
  h->GetHdComment(c);
  auto opt = [](std::optional<double> d) { return d ? V::B(BytesOf(*d)) : V::A(); };
  o.set("start", std::to_string(h->StartTime())).set("author", h->Author()).set("dep", h->Department()).set("proj", h->Project())
    .set("subj", h->Subject()).set("desc", h->Description()).set("text", c.Comment().Text()).set("angle", opt(h->StartAngle())).set("dist", opt(h->StartDistance()));
  V l = V::A();
  for (auto* f : h->FileHistories()) {
    FhComment x;
    f->GetFhComment(x);
    l.push(V::O().set("t", std::to_string(f->Time())).set("d", f->Description()).set("c", x.Comment().Text()));
  }
  return o.set("hist", l);
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string b = dir + "/s" + std::to_string(sc["id"].num());
  const std::string src = b + "src.mf4", out = b + "dst.mf4", tmp = b + "tmp";
  std::filesystem::create_directories(tmp);
  setenv("TMPDIR", tmp.c_str(), 1);
  const auto bytes = Hex(sc["hex"].s);
  std::ofstream(src, std::ios::binary).write((const char*)bytes.data(), (std::streamsize)bytes.size());
  bool ok = false;
  evs.push(V::O().set("op", "file").set("dgs", sc["dgs"]).set("m3", sc.flag("m3")));
  V v = View(src, ok);
  evs.push(V::O().set("op", "view").set("ok", ok).set("dgs", v).set("hd", Head(src)));
  std::string from = src;
  for (auto& op : sc["ops"].a) {
    V e = op;
    std::filesystem::remove(out);
    if (op.flag("there")) std::ofstream(out) << "something else";
    {
      SortingTask t;
      t.SourceFile(from);
      t.DestinationFile(out);
      t.OverwriteFile(op.flag("over"));
      t.SkipIfNoSamples(op.flag("skip"));
      t.CompressData(op.flag("zip"));
      t.StorageType(op.flag("vlsd") ? MdfStorageType::VlsdStorage : op.flag("ml") ? MdfStorageType::MlsdStorage : MdfStorageType::FixedLengthStorage);
      t.Run();
      e.set("ok", t.Result() && !t.Error());
      if (getenv("VDBG")) for (auto& m : t.MessageList()) std::cerr << m << std::endl;
    }
    e.set("kept", Slurp(src) == bytes);
    e.set("clean", std::filesystem::is_empty(tmp));
    if (e["ok"].b) {
      V w = View(out, ok);
      e.set("dgs", w);
      e.set("read", ok).set("hd", Head(out));
      if (op.flag("chain")) {
        const std::string nx = b + "chain.mf4";
        std::filesystem::rename(out, nx);
        from = nx;
      }
    } else {
      e.set("left", !std::filesystem::exists(out) ? 0 : Slurp(out).size() == 14 ? 1 : 2);
    }
    evs.push(e);
  }
  for (auto& f : {src, out, b + "chain.mf4"}) std::filesystem::remove(f);
  std::filesystem::remove_all(tmp);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
