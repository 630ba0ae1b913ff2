// Attachment driver: sessions attach files to an MDF 4 file, all attachments are exported afterwards.
#include <sys/resource.h>
#include <zlib.h>
#include "common.h"
#include "mdf/iattachment.h"
#include "sortingtask.h"
using namespace mdf;
using namespace vh;
namespace {
using Bytes = std::vector<uint8_t>;
V Dig(const Bytes& b) {
  if (b.size() <= 48) return V::O().set("n", (int64_t)b.size()).set("c", V::B(b));
  V c = V::A();
  for (size_t i = 0; i < b.size(); i += 8192) {
    const auto x = crc32(0, b.data() + i, (uInt)std::min<size_t>(8192, b.size() - i));
    c.push((int64_t)(x >> 16)).push((int64_t)(x & 0xffff));
  }
  return V::O().set("n", (int64_t)b.size()).set("c", c);
}
Bytes Slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(i)), {});
}
void Dump(const std::string& f, const Bytes& b) { std::ofstream(f, std::ios::binary | std::ios::trunc).write((const char*)b.data(), (std::streamsize)b.size()); }
Bytes Make(const V& c) {
  // the same generator as the one of the check (hashing its output there)
  Bytes out = c["head"].bytes();
  const auto n = (size_t)c["n"].i;
  uint32_t s = (uint32_t)c["seed"].i;
  const auto mask = (uint8_t)c["mask"].i;
  while (out.size() < n) { s = s * 1664525u + 1013904223u; out.push_back((uint8_t)(s >> 24) & mask); }
  out.resize(n);
  return out;
}
V Look(const std::string& file, const std::string& dir) {
  MdfReader r(file);
  if (!r.IsOk() || !r.ReadMeasurementInfo()) throw std::runtime_error("read");
  V seen = V::A();
  for (auto* at : r.GetHeader()->Attachments()) {
    V o = V::O();
    AtComment c;
    at->GetAtComment(c);
    const auto md5 = at->Md5();
    o.set("name", at->FileName()).set("type", at->FileType()).set("emb", at->IsEmbedded()).set("comp", at->IsCompressed())
        .set("creator", (int)at->CreatorIndex()).set("comment", c.Comment().Text()).set("size", (int64_t)at->OriginalSize()).set("md5", md5 ? *md5 : "none");
    std::filesystem::remove(dir + "/out.bin");
    o.set("okf", r.ExportAttachmentData(*at, dir + "/out.bin"));
    o.set("file", Dig(Slurp(dir + "/out.bin")));
    {
      std::filebuf f;
      f.open(dir + "/out2.bin", std::ios::out | std::ios::trunc | std::ios::binary);
      o.set("oks", r.ExportAttachmentData(*at, f));
      f.close();
    }
    o.set("stream", Dig(Slurp(dir + "/out2.bin")));
    seen.push(o);
  }
  return seen;
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string file = dir + "/a" + std::to_string(sc["id"].num()) + ".mf4";
  std::vector<std::string> rm{file, dir + "/out.bin", dir + "/out2.bin"};
  for (auto& ses : sc["sessions"].a) {
    {
      auto w = MdfFactory::CreateMdfWriter((MdfWriterType)ses["writer"].i);
      w->Init(file);
      V atts = V::A();
      for (auto& a : ses["atts"].a) {
        const Bytes b = Make(a["c"]);
        const std::string src = dir + "/" + a["file"].s;
        Dump(src, b);
        rm.push_back(src);
        auto* at = w->Header()->CreateAttachment();
        at->FileName(src);
        at->FileType(a["type"].s);
        at->IsEmbedded(a["emb"].b);
        at->IsCompressed(a["comp"].b);
        at->CreatorIndex((uint16_t)a["creator"].i);
        if (!a["comment"].s.empty()) at->SetAtComment(AtComment(a["comment"].s));
        atts.push(V::O().set("name", src).set("type", a["type"]).set("emb", a["emb"]).set("comp", a["comp"]).set("creator", a["creator"])
                      .set("comment", a["comment"]).set("size", (int64_t)b.size()).set("content", Dig(b)).set("md5", a["md5"]));
      }
      if (ses["data"].b) {
        auto* dg = w->CreateDataGroup();
        auto* cg = MdfWriter::CreateChannelGroup(dg);
        auto* m = MdfWriter::CreateChannel(cg);
        m->Name("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
        bool ok = w->InitMeasurement();
        w->StartMeasurement(kT0);
        for (int i = 0; i < 3; ++i) w->SaveSample(*cg, kT0 + i * 1000000);
        w->StopMeasurement(kT0 + 5000000);
        ok = w->FinalizeMeasurement() && ok;
        evs.push(V::O().set("op", "session").set("ok", ok).set("atts", atts));
      } else {
        bool ok = w->InitMeasurement();
        ok = w->FinalizeMeasurement() && ok;
        evs.push(V::O().set("op", "session").set("ok", ok).set("atts", atts));
      }
    }
    for (auto& a : ses["atts"].a)   // embedded contents must not need their source any more
      if (a["emb"].b) {
        if (a["after"].s == "gone") std::filesystem::remove(dir + "/" + a["file"].s);
        else if (a["after"].s == "changed") Dump(dir + "/" + a["file"].s, Bytes{1, 2, 3});
      }
    evs.push(V::O().set("op", "read").set("atts", Look(file, dir)));
  }
  if (sc.flag("sort")) {   // the sorting task copies the attachments
    const std::string out = file + ".sorted.mf4";
    rm.push_back(out);
    SortingTask t;
    t.SourceFile(file);
    t.DestinationFile(out);
    t.CompressData(sc.flag("zip"));
    t.Run();
    const bool ok = t.Result() && !t.Error();
    evs.push(V::O().set("op", "sort").set("ok", ok).set("atts", ok ? Look(out, dir) : V::A()));
  }
  for (auto& f : rm) if (f != file || !sc.flag("keep")) std::filesystem::remove(f);
  return evs;
}
}  // namespace
int main(int c, char** v) {
  struct rlimit l{48, 48};
  setrlimit(RLIMIT_NOFILE, &l);
  return Main(c, v, Run);
}
