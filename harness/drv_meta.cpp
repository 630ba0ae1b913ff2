// Descriptive information: objects are created and their items set through the public interfaces, written, and listed as
// a reader of the file (and the writer itself) returns them.
#include "common.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"
using namespace mdf;
using namespace vh;
namespace {
std::string Dbl(double d) { char t[64]; snprintf(t, sizeof t, "%.17g", d); return t; }
double ToD(const std::string& s) { return strtod(s.c_str(), nullptr); }
std::string Opt(const std::optional<std::pair<double, double>>& o) { return o ? Dbl(o->first) + ".." + Dbl(o->second) : "none"; }
std::string Opt1(const std::optional<double>& o) { return o ? Dbl(*o) : "none"; }

struct Obj {
  std::string kind;
  void* p = nullptr;           // most derived interface pointer of that kind
  const IBlock* blk = nullptr;  // identity
  int depth = 0;
};
template <class T> T* As(const Obj& o) { return static_cast<T*>(o.p); }

V TagOut(const ETag& t) {
  V k = V::A();
  for (auto& c : t.TreeList()) k.push(TagOut(c));
  return V::O().set("name", t.Name()).set("desc", t.Description()).set("unit", t.Unit()).set("uref", t.UnitRef()).set("type", t.Type()).set("lang", t.Language())
      .set("ro", t.ReadOnly()).set("ci", t.CreatorIndex()).set("val", t.TreeList().empty() ? t.Value<std::string>() : std::string()).set("kids", k);
}
ETag TagIn(const V& v) {
  ETag t;
  t.Name(v["name"].s); t.Description(v["desc"].s); t.Unit(v["unit"].s); t.UnitRef(v["uref"].s); t.Type(v["type"].s); t.Language(v["lang"].s);
  t.ReadOnly(v["ro"].b); t.CreatorIndex((int)v["ci"].i); t.Value(v["val"].s);
  for (auto& c : v["kids"].a) t.AddTag(TagIn(c));
  return t;
}
const std::vector<std::string> kHd{"author", "department", "project", "subject", "Measurement.UUID", "Recorder.UUID", "Recorder.FileIndex"};
V Props(const IMetaData* m, bool hd = false) {
  V r = V::A();
  if (m)
    for (auto& t : m->CommonProperties()) {
      bool skip = false;
      for (auto& n : kHd) skip = skip || (hd && n == t.Name());
      if (!skip) r.push(TagOut(t));
    }
  return r;
}
struct Env { bool m3 = false; MdfFile* file = nullptr; std::map<const void*, std::pair<int, int>> cnt; };

V Items(const Obj& o, const Env& e) {
  V r = V::O();
  const auto& k = o.kind;
  if (k == "hd") {
    auto* h = As<IHeader>(o);
    r.set("author", h->Author()).set("dept", h->Department()).set("proj", h->Project()).set("subj", h->Subject()).set("desc", h->Description());
    r.set("prog", e.file->ProgramId());
    if (!e.m3) {
      r.set("measid", h->MeasurementId()).set("recid", h->RecorderId()).set("recidx", std::to_string(h->RecorderIndex()));
      r.set("angle", Opt1(h->StartAngle())).set("dist", Opt1(h->StartDistance())).set("props", Props(h->MetaData(), true));
    }
  } else if (k == "fh") {
    auto* h = As<IFileHistory>(o);
    r.set("time", std::to_string(h->Time())).set("desc", h->Description()).set("tool", h->ToolName()).set("vendor", h->ToolVendor())
        .set("version", h->ToolVersion()).set("user", h->UserName()).set("props", Props(h->MetaData()));
  } else if (k == "at") {
    auto* h = As<IAttachment>(o);
    r.set("name", h->FileName()).set("type", h->FileType()).set("creator", std::to_string(h->CreatorIndex()));
  } else if (k == "ev") {
    auto* h = As<IEvent>(o);
    r.set("name", h->Name()).set("group", h->GroupName()).set("type", (int)h->Type()).set("sync", (int)h->Sync()).set("range", (int)h->Range())
        .set("cause", (int)h->Cause()).set("creator", std::to_string(h->CreatorIndex())).set("sval", std::to_string(h->SyncValue())).set("sfac", Dbl(h->SyncFactor()))
        .set("desc", h->Description()).set("pre", Dbl(h->PreTrig())).set("post", Dbl(h->PostTrig())).set("props", Props(h->MetaData()));
  } else if (k == "ch") {
    auto* h = As<IChannelHierarchy>(o);
    r.set("name", h->Name()).set("type", (int)h->Type()).set("desc", h->Description()).set("props", Props(h->MetaData()));
  } else if (k == "si") {
    auto* h = As<ISourceInformation>(o);
    r.set("name", h->Name()).set("path", h->Path()).set("desc", h->Description()).set("type", (int)h->Type()).set("bus", (int)h->Bus()).set("flags", (int)h->Flags())
        .set("props", Props(h->MetaData()));
  } else if (k == "dg") {
    auto* h = As<IDataGroup>(o);
    if (!e.m3) r.set("desc", h->Description()).set("props", Props(h->MetaData()));
  } else if (k == "cg") {
    auto* h = As<IChannelGroup>(o);
    r.set("desc", h->Description());
    if (!e.m3) r.set("name", h->Name()).set("flags", (int)h->Flags()).set("sep", (int)h->PathSeparator()).set("props", Props(h->MetaData()));
  } else if (k == "cn") {
    auto* h = As<IChannel>(o);
    r.set("name", h->Name()).set("desc", h->Description()).set("unit", h->Unit()).set("type", (int)h->Type()).set("dtype", (int)h->DataType())
        .set("bytes", std::to_string(h->DataBytes())).set("rate", Dbl(h->SamplingRate()));
    if (e.m3) r.set("dname", h->DisplayName());
    if (!e.m3)
      r.set("range", Opt(h->Range())).set("flags", (int)h->Flags()).set("sync", (int)h->Sync()).set("dec", h->IsDecimalUsed() ? std::to_string(h->Decimals()) : std::string("none"))
          .set("limit", Opt(h->Limit())).set("elimit", Opt(h->ExtLimit())).set("props", Props(h->MetaData()));
  } else if (k == "cc") {
    auto* h = As<IChannelConversion>(o);
    r.set("unit", h->Unit()).set("type", (int)h->Type());
    V p = V::A();
    const auto set = e.cnt.find(o.p);  // before the file is written the number of items set is not known to the library
    const int np = set == e.cnt.end() ? h->NofParameters() * (e.m3 && (h->Type() == ConversionType::ValueToValueInterpolation || h->Type() == ConversionType::ValueToValue) ? 2 : 1) : set->second.first, nt = set == e.cnt.end() ? h->NofReferences() : set->second.second;
    for (uint16_t i = 0; i < np; ++i) p.push(h->Type() == ConversionType::BitfieldToText ? std::to_string(h->ParameterUint(i)) : Dbl(h->Parameter(i)));
    r.set("par", p);
    if (!e.m3) {
      V t = V::A();
      for (uint16_t i = 0; i < nt && h->Type() != ConversionType::Algebraic; ++i) t.push(h->Reference(i));
      r.set("name", h->Name()).set("desc", h->Description()).set("range", Opt(h->Range())).set("dec", h->IsDecimalUsed() ? std::to_string(h->Decimals()) : std::string("none"))
          .set("flags", (int)h->Flags()).set("txt", t).set("formula", h->Type() == ConversionType::Algebraic ? h->Formula() : std::string()).set("props", Props(h->MetaData()));
    }
  } else if (k == "ca") {
    auto* h = As<IChannelArray>(o);
    V s = V::A(), ax = V::A();
    for (auto x : h->Shape()) s.push((int64_t)x);
    for (auto x : const_cast<const IChannelArray*>(h)->AxisValues()) ax.push(Dbl(x));
    r.set("type", (int)h->Type()).set("storage", (int)h->Storage()).set("flags", (int)h->Flags()).set("shape", s).set("axis", ax);
  } else throw std::runtime_error("kind " + k);
  return r;
}
IMetaData* Md(const Obj& o) {
  const auto& k = o.kind;
  if (k == "hd") return As<IHeader>(o)->CreateMetaData();
  if (k == "fh") return As<IFileHistory>(o)->CreateMetaData();
  if (k == "ev") return As<IEvent>(o)->CreateMetaData();
  if (k == "ch") return As<IChannelHierarchy>(o)->CreateMetaData();
  if (k == "si") return As<ISourceInformation>(o)->CreateMetaData();
  if (k == "dg") return As<IDataGroup>(o)->CreateMetaData();
  if (k == "cg") return As<IChannelGroup>(o)->CreateMetaData();
  if (k == "cn") return As<IChannel>(o)->CreateMetaData();
  if (k == "cc") return As<IChannelConversion>(o)->CreateMetaData();
  return nullptr;
}
std::pair<double, double> Pair(const std::string& s) { const auto p = s.find(".."); return {ToD(s.substr(0, p)), ToD(s.substr(p + 2))}; }
void Set(const Obj& o, const std::string& n, const V& v, Env& e) {
  const auto& k = o.kind;
  const std::string& s = v.s;
  if (n == "props") { ETag t = TagIn(v); auto* m = Md(o); if (!m) throw std::runtime_error("no metadata"); m->CommonProperty(t); return; }
  if (k == "hd") {
    auto* h = As<IHeader>(o);
    if (n == "author") h->Author(s); else if (n == "dept") h->Department(s); else if (n == "proj") h->Project(s); else if (n == "subj") h->Subject(s);
    else if (n == "desc") h->Description(s); else if (n == "measid") h->MeasurementId(s); else if (n == "recid") h->RecorderId(s);
    else if (n == "recidx") h->RecorderIndex(std::stoll(s)); else if (n == "angle") h->StartAngle(ToD(s)); else if (n == "dist") h->StartDistance(ToD(s));
    else if (n == "prog") e.file->ProgramId(s); else throw std::runtime_error(n);
  } else if (k == "fh") {
    auto* h = As<IFileHistory>(o);
    if (n == "time") h->Time(std::stoull(s)); else if (n == "desc") h->Description(s); else if (n == "tool") h->ToolName(s); else if (n == "vendor") h->ToolVendor(s);
    else if (n == "version") h->ToolVersion(s); else if (n == "user") h->UserName(s); else throw std::runtime_error(n);
  } else if (k == "at") {
    auto* h = As<IAttachment>(o);
    if (n == "name") h->FileName(s); else if (n == "type") h->FileType(s); else if (n == "creator") h->CreatorIndex((uint16_t)std::stoul(s)); else throw std::runtime_error(n);
  } else if (k == "ev") {
    auto* h = As<IEvent>(o);
    if (n == "name") h->Name(s); else if (n == "group") h->GroupName(s); else if (n == "type") h->Type((EventType)v.i); else if (n == "sync") h->Sync((SyncType)v.i);
    else if (n == "range") h->Range((RangeType)v.i); else if (n == "cause") h->Cause((EventCause)v.i); else if (n == "creator") h->CreatorIndex(std::stoul(s));
    else if (n == "sval") h->SyncValue(std::stoll(s)); else if (n == "sfac") h->SyncFactor(ToD(s)); else if (n == "desc") h->Description(s);
    else if (n == "pre") h->PreTrig(ToD(s)); else if (n == "post") h->PostTrig(ToD(s)); else throw std::runtime_error(n);
  } else if (k == "ch") {
    auto* h = As<IChannelHierarchy>(o);
    if (n == "name") h->Name(s); else if (n == "type") h->Type((ChType)v.i); else if (n == "desc") h->Description(s); else throw std::runtime_error(n);
  } else if (k == "si") {
    auto* h = As<ISourceInformation>(o);
    if (n == "name") h->Name(s); else if (n == "path") h->Path(s); else if (n == "desc") h->Description(s); else if (n == "type") h->Type((SourceType)v.i);
    else if (n == "bus") h->Bus((BusType)v.i); else if (n == "flags") h->Flags((uint8_t)v.i); else throw std::runtime_error(n);
  } else if (k == "dg") {
    auto* h = As<IDataGroup>(o);
    if (n == "desc") h->Description(s); else throw std::runtime_error(n);
  } else if (k == "cg") {
    auto* h = As<IChannelGroup>(o);
    if (n == "desc") h->Description(s); else if (n == "name") h->Name(s); else if (n == "flags") h->Flags((uint16_t)v.i); else if (n == "sep") h->PathSeparator((char16_t)v.i);
    else throw std::runtime_error(n);
  } else if (k == "cn") {
    auto* h = As<IChannel>(o);
    if (n == "name") h->Name(s); else if (n == "dname") h->DisplayName(s); else if (n == "desc") h->Description(s); else if (n == "unit") h->Unit(s);
    else if (n == "type") h->Type((ChannelType)v.i); else if (n == "dtype") h->DataType((ChannelDataType)v.i); else if (n == "bytes") h->DataBytes(std::stoull(s));
    else if (n == "range") { auto p = Pair(s); h->Range(p.first, p.second); } else if (n == "limit") { auto p = Pair(s); h->Limit(p.first, p.second); }
    else if (n == "elimit") { auto p = Pair(s); h->ExtLimit(p.first, p.second); } else if (n == "flags") h->Flags((uint32_t)v.i); else if (n == "sync") h->Sync((ChannelSyncType)v.i);
    else if (n == "dec") h->Decimals((uint8_t)std::stoi(s)); else if (n == "rate") h->SamplingRate(ToD(s)); else throw std::runtime_error(n);
  } else if (k == "cc") {
    auto* h = As<IChannelConversion>(o);
    if (n == "name") h->Name(s); else if (n == "desc") h->Description(s); else if (n == "unit") h->Unit(s); else if (n == "type") h->Type((ConversionType)v.i);
    else if (n == "dec") h->Decimals((uint8_t)std::stoi(s)); else if (n == "range") { auto p = Pair(s); h->Range(p.first, p.second); }
    else if (n == "flags") h->Flags((uint16_t)v.i); else if (n == "formula") h->Formula(s);
    else if (n == "par") { uint16_t i = 0; e.cnt[o.p].first = (int)v.size(); for (auto& x : v.a) { if (h->Type() == ConversionType::BitfieldToText) h->ParameterUint(i++, std::stoull(x.s)); else h->Parameter(i++, ToD(x.s)); } }
    else if (n == "txt") { uint16_t i = 0; e.cnt[o.p].second = (int)v.size(); for (auto& x : v.a) h->Reference(i++, x.s); }
    else throw std::runtime_error(n);
  } else if (k == "ca") {
    auto* h = As<IChannelArray>(o);
    if (n == "type") h->Type((ArrayType)v.i); else if (n == "storage") h->Storage((ArrayStorage)v.i); else if (n == "flags") h->Flags((uint32_t)v.i);
    else if (n == "shape") { std::vector<uint64_t> q; for (auto& x : v.a) q.push_back((uint64_t)x.i); h->Shape(q); }
    else if (n == "axis") { auto& q = h->AxisValues(); for (size_t i = 0; i < q.size() && i < v.size(); ++i) q[i] = ToD(v[i].s); }
    else throw std::runtime_error(n);
  }
}
// objects in depth first order
void Walk(std::vector<Obj>& out, const std::string& kind, void* p, const IBlock* b, int d);
template <class T> void Put(std::vector<Obj>& out, const char* kind, T* p, int d) { if (p) Walk(out, kind, p, p, d); }
void Walk(std::vector<Obj>& out, const std::string& kind, void* p, const IBlock* b, int d) {
  Obj o; o.kind = kind; o.p = p; o.blk = b; o.depth = d;
  out.push_back(o);
  if (kind == "hd") {
    auto* h = As<IHeader>(o);
    for (auto* x : h->FileHistories()) Put(out, "fh", x, d + 1);
    for (auto* x : h->Attachments()) Put(out, "at", x, d + 1);
    for (auto* x : h->Events()) Put(out, "ev", x, d + 1);
    for (auto* x : h->ChannelHierarchies()) Put(out, "ch", x, d + 1);
    for (auto* x : h->DataGroups()) Put(out, "dg", x, d + 1);
  } else if (kind == "ch") {
    for (auto* x : As<IChannelHierarchy>(o)->ChannelHierarchies()) Put(out, "ch", x, d + 1);
  } else if (kind == "dg") {
    for (auto* x : As<IDataGroup>(o)->ChannelGroups()) Put(out, "cg", x, d + 1);
  } else if (kind == "cg") {
    auto* h = As<IChannelGroup>(o);
    Put(out, "si", const_cast<ISourceInformation*>(h->SourceInformation()), d + 1);
    for (auto* x : h->TopLevelChannels()) Put(out, "cn", x, d + 1);
  } else if (kind == "cn") {
    auto* h = As<IChannel>(o);
    Put(out, "si", h->SourceInformation(), d + 1);
    Put(out, "cc", h->ChannelConversion(), d + 1);
    for (auto* x : h->ChannelArrays()) Put(out, "ca", x, d + 1);
    for (auto* x : h->ChannelCompositions()) Put(out, "cn", x, d + 1);
  } else if (kind == "cc") {
    Put(out, "cc", As<IChannelConversion>(o)->Inverse(), d + 1);
  }
}
V Refs(const Obj& o, const std::vector<Obj>& all, const Env& e) {
  auto ix = [&](const IBlock* b) -> int64_t {
    if (!b) return 0;
    for (size_t i = 0; i < all.size(); ++i) if (all[i].blk == b) return (int64_t)i + 1;
    return -1;
  };
  auto ixv = [&](const void* b) -> int64_t {
    if (!b) return 0;
    for (size_t i = 0; i < all.size(); ++i) if (all[i].p == b || (const void*)all[i].blk == b || dynamic_cast<const void*>(all[i].blk) == b) return (int64_t)i + 1;
    return -1;
  };
  auto three = [&](const IBlock* a, const IBlock* b, const IBlock* c) { return V::A().push(ix(a)).push(ix(b)).push(ix(c)); };
  V r = V::O();
  if (e.m3) return r;
  if (o.kind == "ev") {
    auto* h = As<IEvent>(o);
    V s = V::A(), a = V::A();
    for (auto* x : h->Scopes()) s.push(ixv(x));
    for (auto* x : h->Attachments()) a.push(ix(x));
    r.set("parent", V::A().push(ix(h->ParentEvent()))).set("rangeev", V::A().push(ix(h->RangeEvent()))).set("scope", s).set("atts", a);
  } else if (o.kind == "ch") {
    V s = V::A();
    for (auto& x : As<IChannelHierarchy>(o)->ElementLinks()) { s.push(ix(x.data_group)); s.push(ix(x.channel_group)); s.push(ix(x.channel)); }
    r.set("elem", s);
  } else if (o.kind == "cn") {
    auto* h = As<IChannel>(o);
    V a = V::A();
    for (auto* x : h->AttachmentList()) a.push(ix(x));
    const auto d = h->DefaultX();
    r.set("atts", a).set("defx", d.IsEmpty() ? V::A() : three(d.data_group, d.channel_group, d.channel));
  } else if (o.kind == "ca") {
    auto* h = As<const IChannelArray>(o);
    auto list = [&](const std::vector<CaTripleReference>& l) { V v = V::A(); for (auto& x : l) { v.push(ix(x.DataGroup)); v.push(ix(x.ChannelGroup)); v.push(ix(x.Channel)); } return v; };
    r.set("dyn", list(h->DynamicSizeList())).set("inq", list(h->InputQuantityList())).set("outq", h->OutputQuantity().IsEmpty() ? V::A() : list({h->OutputQuantity()}))
        .set("cmpq", h->ComparisonQuantity().IsEmpty() ? V::A() : list({h->ComparisonQuantity()})).set("axq", list(h->AxisList()));
    V cc = V::A();
    for (auto* x : h->AxisConversionList()) cc.push(ix(x));
    r.set("axc", cc);
  }
  return r;
}
V List(IHeader* h, const Env& e) {
  std::vector<Obj> all;
  Put(all, "hd", h, 0);
  V r = V::A();
  for (auto& o : all) r.push(V::O().set("kind", o.kind).set("depth", o.depth).set("it", Items(o, e)).set("refs", Refs(o, all, e)));
  return r;
}
struct Ctx {
  std::unique_ptr<MdfWriter> w;
  Env e;
  std::map<int, Obj> obj;
};
template <class T> Obj Mk(const char* kind, T* p) { if (!p) throw std::runtime_error(std::string("cannot create ") + kind); Obj o; o.kind = kind; o.p = p; o.blk = p; return o; }
Obj New(Ctx& c, const std::string& kind, const Obj& par) {
  auto* hd = c.w->Header();
  if (kind == "hd") return Mk("hd", hd);
  if (kind == "fh") return Mk("fh", hd->CreateFileHistory());
  if (kind == "at") return Mk("at", hd->CreateAttachment());
  if (kind == "ev") return Mk("ev", hd->CreateEvent());
  if (kind == "ch") return Mk("ch", par.kind == "hd" ? hd->CreateChannelHierarchy() : As<IChannelHierarchy>(par)->CreateChannelHierarchy());
  if (kind == "dg") return Mk("dg", hd->CreateDataGroup());
  if (kind == "cg") return Mk("cg", As<IDataGroup>(par)->CreateChannelGroup());
  if (kind == "si") return Mk("si", par.kind == "cg" ? As<IChannelGroup>(par)->CreateSourceInformation() : As<IChannel>(par)->CreateSourceInformation());
  if (kind == "cn") return Mk("cn", par.kind == "cg" ? As<IChannelGroup>(par)->CreateChannel() : As<IChannel>(par)->CreateChannelComposition());
  if (kind == "cc") return Mk("cc", par.kind == "cn" ? As<IChannel>(par)->CreateChannelConversion() : As<IChannelConversion>(par)->CreateInverse());
  if (kind == "ca") return Mk("ca", As<IChannel>(par)->CreateChannelArray());
  throw std::runtime_error("new " + kind);
}
void Ref(Ctx& c, const Obj& o, const std::string& n, const V& v) {
  auto at = [&](int i) { return c.obj.at((int)v[(size_t)i].i); };
  if (n == "parent") As<IEvent>(o)->ParentEvent(As<IEvent>(at(0)));
  else if (n == "rangeev") As<IEvent>(o)->RangeEvent(As<IEvent>(at(0)));
  else if (n == "scope") { Obj t = at(0); if (t.kind == "cg") As<IEvent>(o)->AddScope(As<IChannelGroup>(t)); else As<IEvent>(o)->AddScope(As<IChannel>(t)); }
  else if (n == "atts") { if (o.kind == "ev") As<IEvent>(o)->AddAttachment(As<IAttachment>(at(0))); else As<IChannel>(o)->AddAttachmentReference(As<IAttachment>(at(0))); }
  else if (n == "elem" || n == "defx") {
    ElementLink l;
    if (v[0].i) l.data_group = As<IDataGroup>(at(0));
    if (v[1].i) l.channel_group = As<IChannelGroup>(at(1));
    if (v[2].i) l.channel = As<IChannel>(at(2));
    if (n == "elem") As<IChannelHierarchy>(o)->AddElementLink(l); else As<IChannel>(o)->DefaultX(l);
  } else {
    auto* h = As<IChannelArray>(o);
    auto fill = [&](CaTripleReference& t, size_t i) { t.DataGroup = As<IDataGroup>(at((int)i)); t.ChannelGroup = As<IChannelGroup>(at((int)i + 1)); t.Channel = As<IChannel>(at((int)i + 2)); };
    if (n == "outq") fill(h->OutputQuantity(), 0);
    else if (n == "cmpq") fill(h->ComparisonQuantity(), 0);
    else if (n == "axc") { auto& l = h->AxisConversionList(); for (size_t i = 0; i < l.size() && i < v.size(); ++i) l[i] = v[i].i ? As<IChannelConversion>(at((int)i)) : nullptr; }
    else {
      auto& l = n == "dyn" ? h->DynamicSizeList() : n == "inq" ? h->InputQuantityList() : h->AxisList();
      for (size_t i = 0; i < l.size() && 3 * i < v.size(); ++i) fill(l[i], 3 * i);
    }
  }
}
V Run(const V& sc, const std::string& dir) {
  Ctx c;
  const std::string file = dir + "/m" + std::to_string(sc["id"].num()) + ".mdf";
  std::filesystem::remove(file);
  { std::ofstream f(dir + "/att.bin", std::ios::binary); f << "attachment"; }
  V evs = V::A();
  for (auto& op : sc["ops"].a) {
    V e = V::O();
    const auto o = op["op"].s;
    e.set("op", o);
    if (o == "open") {
      const auto w = op["w"].s;
      c.obj.clear();
      c.e.cnt.clear();
      c.e.m3 = w == "mdf3";
      c.w = MdfFactory::CreateMdfWriter(w == "mdf3" ? MdfWriterType::Mdf3Basic : w == "conv" ? MdfWriterType::MdfConverter : w == "bus" ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic);
      const bool ok = c.w->Init(file);
      c.e.file = c.w->GetFile();
      // the objects that exist are known by their position
      std::vector<Obj> all;
      Put(all, "hd", c.w->Header(), 0);
      V ids = V::A();
      for (size_t i = 0; i < all.size(); ++i) c.obj[(int)i + 1] = all[i];
      e.set("ok", ok).set("list", List(c.w->Header(), c.e));
    } else if (o == "new") {
      const Obj par = op["par"].i ? c.obj.at((int)op["par"].i) : Obj{};
      Obj n = New(c, op["kind"].s, par);
      c.obj[(int)op["id"].i] = n;
      if (n.kind == "cc") c.e.cnt[n.p] = {0, 0};
      e.set("id", op["id"]).set("kind", op["kind"]).set("par", op["par"]).set("it", Items(n, c.e));
    } else if (o == "set") {
      const Obj& x = c.obj.at((int)op["id"].i);
      Set(x, op["k"].s, op["v"], c.e);
      e.set("id", op["id"]).set("k", op["k"]).set("v", op["v"]).set("it", Items(x, c.e));
    } else if (o == "ref") {
      Ref(c, c.obj.at((int)op["id"].i), op["k"].s, op["v"]);
      e.set("id", op["id"]).set("k", op["k"]).set("v", op["v"]);
    } else if (o == "start") {
      const bool ok = c.w->InitMeasurement();
      c.w->StartMeasurement(kT0);
      e.set("ok", ok);
    } else if (o == "save") {
      auto* cg = As<IChannelGroup>(c.obj.at((int)op["id"].i));
      c.w->SaveSample(*cg, kT0 + 1000000ULL * (uint64_t)op["t"].i);
    } else if (o == "stop") {
      c.w->StopMeasurement(kT0 + 5000000000ULL);
    } else if (o == "fin") {
      e.set("ok", c.w->FinalizeMeasurement());
    } else if (o == "wlist") {
      e.set("list", List(c.w->Header(), c.e));
    } else if (o == "close") {
      c.w.reset();
      c.obj.clear();
    } else if (o == "read") {
      MdfReader r(file);
      const bool ok = r.IsOk() && r.ReadEverythingButData();
      Env re;
      re.m3 = c.e.m3;
      re.file = const_cast<MdfFile*>(r.GetFile());
      e.set("ok", ok).set("list", List(const_cast<IHeader*>(r.GetHeader()), re));
    } else throw std::runtime_error("op " + o);
    evs.push(e);
  }
  c.w.reset();
  if (!sc.flag("keep")) std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
