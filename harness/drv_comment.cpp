// Structured comments: comment objects are built entry by entry, attached to the blocks of a file, written, and listed as
// the object itself, the block and a reader of the file return them.
#include "common.h"
#include "mdf/atcomment.h"
#include "mdf/cccomment.h"
#include "mdf/cgcomment.h"
#include "mdf/chcomment.h"
#include "mdf/cncomment.h"
#include "mdf/cnunit.h"
#include "mdf/dgcomment.h"
#include "mdf/evcomment.h"
#include "mdf/fhcomment.h"
#include "mdf/hdcomment.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/isourceinformation.h"
#include "mdf/sicomment.h"
using namespace mdf;
using namespace vh;
namespace {
struct Ext : MdExtension { Ext() = default; };
std::string Dbl(double d) { char t[64]; snprintf(t, sizeof t, "%.17g", d); return t; }
double ToD(const std::string& s) { return strtod(s.c_str(), nullptr); }
uint64_t ToU(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }

// attributes every entry may have
void AtIn(const V& v, MdStandardAttribute& a) {
  a.HistoryIndex(ToU(v["ci"].s));
  a.Language(v["lang"].s);
  for (auto& c : v["cust"].a) a.AddCustomAttribute(c["k"].s, c["v"].s);
}
V AtOut(V r, const MdStandardAttribute& a) {
  V c = V::A();
  for (auto& [k, v] : a.CustomAttributes()) c.push(V::O().set("k", k).set("v", v));
  return r.set("ci", std::to_string(a.HistoryIndex())).set("lang", a.Language()).set("cust", c);
}
MdString StrIn(const V& v) {
  MdString s(v["t"].s);
  AtIn(v, s);
  return s;
}
V StrOut(const MdString& s) { return AtOut(V::O().set("t", s.Text()), s); }
V StrsOut(const MdStringList& l) { V r = V::A(); for (auto& s : l) r.push(StrOut(s)); return r; }

template <class T> void PropIn(const V& v, T& p) {
  p.Name(v["name"].s); p.Description(v["desc"].s); p.Unit(v["unit"].s); p.UnitReference(v["uref"].s); p.ReadOnly(v["ro"].b);
  p.DataType((MdDataType)v["type"].i);
  AtIn(v, p);
  const std::string& x = v["val"].s;
  switch ((MdDataType)v["type"].i) {
    case MdDataType::MdInteger: if (!x.empty() && x[0] == '-') p.Value((int64_t)strtoll(x.c_str(), nullptr, 10)); else p.Value(ToU(x)); break;
    case MdDataType::MdHex: case MdDataType::MdDateTime: p.Value(ToU(x)); break;
    case MdDataType::MdFloat: case MdDataType::MdDecimal: p.Value(ToD(x)); break;
    case MdDataType::MdBoolean: p.Value(x == "true"); break;
    default: p.Value(x); break;
  }
}
std::string PropVal(const MdProperty& p) {
  const auto x = p.Value<std::string>();
  switch (p.DataType()) {
    case MdDataType::MdInteger: if (!x.empty() && x[0] == '-') return std::to_string(p.Value<int64_t>()); return std::to_string(p.Value<uint64_t>());
    case MdDataType::MdHex: case MdDataType::MdDateTime: return std::to_string(p.Value<uint64_t>());
    case MdDataType::MdFloat: case MdDataType::MdDecimal: return Dbl(p.Value<double>());
    case MdDataType::MdBoolean: return p.Value<bool>() ? "true" : "false";
    default: return x;
  }
}
V PropOut(const MdProperty& p, bool val) {
  return AtOut(V::O().set("name", p.Name()).set("desc", p.Description()).set("unit", p.Unit()).set("uref", p.UnitReference()).set("ro", p.ReadOnly())
    .set("type", (int)p.DataType()).set("val", val ? PropVal(p) : std::string()), p);
}
MdEnumerate EnumIn(const V& v) {
  MdEnumerate e;
  V t = v;
  PropIn(v, e);
  for (auto& s : v["vals"].a) e.AddValue(StrIn(s));
  return e;
}
V EnumOut(const MdEnumerate& e) {
  V r = V::A();
  for (auto& s : e.ValueList()) r.push(StrOut(s));
  return PropOut(e, false).set("vals", r);
}
template <class T> void AddsIn(const V& adds, T& l);
MdList ListIn(const V& v) {
  MdList l;
  l.Name(v["name"].s); l.Description(v["desc"].s);
  AtIn(v, l);
  AddsIn(v["adds"], l);
  return l;
}
template <class T> void AddsIn(const V& adds, T& l) {
  for (auto& a : adds.a) {
    const std::string& k = a["k"].s;
    if (k == "p") { MdProperty p; PropIn(a["x"], p); l.AddProperty(p); }
    else if (k == "t") l.AddTree(ListIn(a["x"]));
    else if (k == "l") l.AddList(ListIn(a["x"]));
    else if (k == "e") l.AddEnumerate(EnumIn(a["x"]));
    else if constexpr (std::is_same_v<T, HdComment>) {
      const std::string& n = a["x"]["name"].s; const std::string& x = a["x"]["val"].s;
      if (n == "author") l.Author(x); else if (n == "department") l.Department(x); else if (n == "project") l.Project(x); else if (n == "subject") l.Subject(x);
      else if (n == "Measurement.UUID") l.MeasurementUuid(x); else if (n == "Recorder.UUID") l.RecorderUuid(x); else l.RecorderFileIndex(strtoll(x.c_str(), nullptr, 10));
    }
  }
}
template <class T> V AddsOut(const T& l) {
  V r = V::A();
  auto put = [&](const char* k, const std::string& key, const std::string& name, V x) { r.push(V::O().set("k", key == name ? k : "bad").set("x", std::move(x))); };
  auto list = [](const MdList& m) { return AtOut(V::O().set("name", m.Name()).set("desc", m.Description()).set("adds", AddsOut(m)), m); };
  for (auto& [n, p] : l.Properties()) put("p", n, p.Name(), PropOut(p, true));
  for (auto& [n, t] : l.Trees()) put("t", n, t.Name(), list(t));
  for (auto& [n, t] : l.Lists()) put("l", n, t.Name(), list(t));
  for (auto& [n, e] : l.Enumerates()) put("e", n, e.Name(), EnumOut(e));
  return r;
}
void NamesIn(const V& v, MdAlternativeName& n) {
  AtIn(v, n);
  n.DefaultName(v["def"].s);
  for (auto& s : v["names"].a) n.AddAlternativeName(StrIn(s));
  for (auto& s : v["disp"].a) n.AddDisplayName(StrIn(s));
  for (auto& s : v["vend"].a) n.AddVendor(StrIn(s));
  for (auto& s : v["desc"].a) n.AddDescription(StrIn(s));
}
V NamesOut(const MdAlternativeName& n) {
  return AtOut(V::O().set("def", n.DefaultName()).set("names", StrsOut(n.AlternativeNames())).set("disp", StrsOut(n.DisplayNames()))
    .set("vend", StrsOut(n.Vendors())).set("desc", StrsOut(n.Descriptions())), n);
}
MdSyntax SynIn(const V& v) { MdSyntax s; s.Syntax(v["t"].s); s.Version(v["ver"].s); s.Source(v["src"].s); AtIn(v, s); return s; }
V SynOut(const MdSyntax& s) { return StrOut(s).set("ver", s.Version()).set("src", s.Source()); }
void FormulaIn(const V& v, MdFormula& f) {
  AtIn(v, f);
  f.Syntax(SynIn(v["syn"]));
  for (auto& c : v["custom"].a) f.AddCustomSyntax(SynIn(c));
  for (auto& c : v["vars"].a) {
    MdVariable x;
    x.Variable(c["t"].s); AtIn(c, x);
    x.CnBlockName(c["cn"].s); x.CnSourceName(c["cs"].s); x.CnSourcePath(c["cp"].s); x.CgBlockName(c["gn"].s); x.CgSourceName(c["gs"].s); x.CgSourcePath(c["gp"].s);
    for (auto& i : c["idx"].a) x.AddArrayIndex((uint64_t)i.i);
    x.Raw(c["raw"].b);
    f.AddVariable(x);
  }
}
V FormulaOut(const MdFormula& f) {
  V cu = V::A(), va = V::A();
  for (auto& [k, s] : f.CustomSyntaxes()) cu.push(SynOut(s));
  for (auto& [k, x] : f.Variables()) {
    V ix = V::A();
    for (auto i : x.ArrayIndexes()) ix.push((int64_t)i);
    va.push(StrOut(x).set("cn", x.CnBlockName()).set("cs", x.CnSourceName()).set("cp", x.CnSourcePath()).set("gn", x.CgBlockName()).set("gs", x.CgSourceName())
      .set("gp", x.CgSourcePath()).set("idx", ix).set("raw", x.Raw()));
  }
  return AtOut(V::O().set("syn", SynOut(f.Syntax())).set("custom", cu).set("vars", va), f);
}
MdNumber NumIn(const V& v, bool hex) {
  MdNumber n;
  if (hex) n = MdNumber(ToU(v["v"].s), MdDataType::MdHex); else n = MdNumber(ToD(v["v"].s));
  AtIn(v, n);
  if (v["bc"].i != 8) n.ByteCount((uint64_t)v["bc"].i);
  for (auto& m : v["mask"].a) n.BitMask(ToU(m.s));
  if (v["be"].b) n.ByteOrder(MdByteOrder::BigEndian);
  for (auto& m : v["min"].a) n.Min(ToD(m.s));
  for (auto& m : v["max"].a) n.Max(ToD(m.s));
  for (auto& m : v["avg"].a) n.Average(ToD(m.s));
  n.Unit(v["unit"].s); n.UnitRef(v["uref"].s); n.Triggered(v["trig"].b);
  return n;
}
V NumOut(const MdNumber& n, bool hex) {
  auto opt = [](const std::optional<double>& o) { V r = V::A(); if (o) r.push(Dbl(*o)); return r; };
  V mk = V::A();
  if (n.BitMask() != UINT64_MAX) mk.push(std::to_string(n.BitMask()));
  return AtOut(V::O().set("v", !n.IsActive() ? std::string() : hex ? std::to_string(n.Number<uint64_t>()) : Dbl(n.Number<double>())).set("bc", (int64_t)n.ByteCount()).set("mask", mk)
    .set("be", n.ByteOrder() == MdByteOrder::BigEndian).set("min", opt(n.Min())).set("max", opt(n.Max())).set("avg", opt(n.Average())).set("unit", n.Unit()).set("uref", n.UnitRef())
    .set("trig", n.Triggered()), n);
}
// harmony objects
void NdIn(const V& v, HoNameDetails& n) {
  if (!v["short"].s.empty()) n.ShortName(v["short"].s);
  for (auto& s : v["longs"].a) n.AddLongName(StrIn(s));
  for (auto& s : v["descs"].a) n.AddDescription(StrIn(s));
}
V NdOut(const HoNameDetails& n) { return V::O().set("short", n.ShortName()).set("longs", StrsOut(n.LongNames())).set("descs", StrsOut(n.Descriptions())); }
HoInterval IntIn(const V& v) { HoInterval i; i.Limit(ToD(v["v"].s)); i.Type((HoIntervalType)v["type"].i); return i; }
V IntOut(const HoInterval& i) { V r = V::A(); if (i.IsActive()) r.push(V::O().set("v", Dbl(i.Limit())).set("type", (int)i.Type())); return r; }
void ScIn(const V& v, HoScaleConstraint& c) { for (auto& x : v["lo"].a) c.LowerLimit(IntIn(x)); for (auto& x : v["up"].a) c.UpperLimit(IntIn(x)); c.Validity((HoValidity)v["val"].i); }
V ScOut(const HoScaleConstraint& c) { return V::O().set("lo", IntOut(c.LowerLimit())).set("up", IntOut(c.UpperLimit())).set("val", (int)c.Validity()); }
void SpecIn(const V& v, HoUnitSpecification& u) {
  for (auto& r : v["revs"].a) {
    HoRevision x;
    x.TeamMemberReference(r["team"].s); x.RevisionLabel(r["label"].s); x.State(r["state"].s); x.Date(r["date"].s);
    for (auto& c : r["comp"].a) x.AddCompanyRevision({c["ref"].s, c["label"].s, c["state"].s});
    for (auto& m : r["mods"].a) x.AddModification({m["c"].s, m["r"].s});
    u.AdminData().AddRevision(x);
  }
  for (auto& d : v["dims"].a) {
    HoPhysicalDimension x;
    x.Identity(d["id"].s); NdIn(d["nd"], x);
    auto& e = d["ex"].a;
    x.LengthExponent(ToD(e[0].s)); x.MassExponent(ToD(e[1].s)); x.TimeExponent(ToD(e[2].s)); x.CurrentExponent(ToD(e[3].s)); x.TemperatureExponent(ToD(e[4].s));
    x.MolarExponent(ToD(e[5].s)); x.LuminousExponent(ToD(e[6].s));
    u.AddPhysicalDimension(x);
  }
  for (auto& g : v["groups"].a) {
    HoUnitGroup x;
    NdIn(g["nd"], x); x.Category((HoUnitGroupCategory)g["cat"].i);
    for (auto& r : g["refs"].a) x.AddUnitReference(r.s);
    u.AddUnitGroup(x);
  }
  for (auto& g : v["units"].a) {
    HoUnit x;
    x.Identity(g["id"].s); NdIn(g["nd"], x); x.DisplayName(g["disp"].s); x.Factor(ToD(g["f"].s)); x.Offset(ToD(g["o"].s)); x.PhysicalDimensionRef(g["dim"].s);
    u.AddUnit(x);
  }
}
V SpecOut(const HoUnitSpecification& u) {
  V re = V::A(), di = V::A(), gr = V::A(), un = V::A();
  for (auto& x : u.AdminData().Revisions()) {
    V c = V::A(), m = V::A();
    for (auto& y : x.CompanyRevisions()) c.push(V::O().set("ref", y.DataReference).set("label", y.Label).set("state", y.State));
    for (auto& y : x.Modifications()) m.push(V::O().set("c", y.Change).set("r", y.Reason));
    re.push(V::O().set("team", x.TeamMemberReference()).set("label", x.RevisionLabel()).set("state", x.State()).set("date", x.Date()).set("comp", c).set("mods", m));
  }
  for (auto& [k, x] : u.PhysicalDimensions()) {
    V e = V::A();
    for (double d : {x.LengthExponent(), x.MassExponent(), x.TimeExponent(), x.CurrentExponent(), x.TemperatureExponent(), x.MolarExponent(), x.LuminousExponent()}) e.push(Dbl(d));
    di.push(V::O().set("id", x.Identity()).set("nd", NdOut(x)).set("ex", e));
  }
  for (auto& [k, x] : u.UnitGroups()) { V r = V::A(); for (auto& s : x.UnitRefs()) r.push(s); gr.push(V::O().set("nd", NdOut(x)).set("cat", (int)x.Category()).set("refs", r)); }
  for (auto& [k, x] : u.Units())
    un.push(V::O().set("id", x.Identity()).set("nd", NdOut(x)).set("disp", x.DisplayName()).set("f", Dbl(x.Factor())).set("o", Dbl(x.Offset())).set("dim", x.PhysicalDimensionRef()));
  return V::O().set("revs", re).set("dims", di).set("groups", gr).set("units", un);
}
void CompuIn(const V& v, HoCompuMethod& m) {
  NdIn(v["nd"], m);
  m.Category((HoComputationMethodCategory)v["cat"].i); m.UnitReference(v["uref"].s);
  for (auto& c : v["phys"].a) { HoScaleConstraint x; ScIn(c, x); m.AddPhysicalConstraint(x); }
  for (auto& c : v["intern"].a) { HoScaleConstraint x; ScIn(c, x); m.AddInternalConstraint(x); }
  for (auto& c : v["scales"].a) {
    HoCompuScale x;
    ScIn(c["sc"], x);
    for (auto& s : c["descs"].a) x.AddDescription(StrIn(s));
    if (c["cf"].s != "0") x.ConstFloatValue(ToD(c["cf"].s));
    if (!c["ct"].s.empty()) x.ConstTextValue(c["ct"].s);
    for (auto& n : c["num"].a) x.AddNumerator(ToD(n.s));
    for (auto& n : c["den"].a) x.AddDenominator(ToD(n.s));
    x.GenericMath(c["math"].s);
    m.AddCompuScale(x);
  }
  if (v["df"].s != "0") m.DefaultFloatValue(ToD(v["df"].s));
  if (!v["dt"].s.empty()) m.DefaultTextValue(v["dt"].s);
}
V CompuOut(const HoCompuMethod& m) {
  V p = V::A(), i = V::A(), s = V::A();
  for (auto& x : m.PhysicalConstraints()) p.push(ScOut(x));
  for (auto& x : m.InternalConstraints()) i.push(ScOut(x));
  for (auto& x : m.CompuScales()) {
    V n = V::A(), d = V::A();
    for (double y : x.Numerators()) n.push(Dbl(y));
    for (double y : x.Denominators()) d.push(Dbl(y));
    s.push(V::O().set("sc", ScOut(x)).set("descs", StrsOut(x.Descriptions())).set("cf", Dbl(x.ConstFloatValue())).set("ct", x.ConstTextValue()).set("num", n).set("den", d).set("math", x.GenericMath()));
  }
  return V::O().set("nd", NdOut(m)).set("cat", (int)m.Category()).set("uref", m.UnitReference()).set("phys", p).set("intern", i).set("scales", s).set("df", Dbl(m.DefaultFloatValue()))
    .set("dt", m.DefaultTextValue());
}

const V* Key(const V& list, const std::string& k) { for (auto& x : list.a) if (x["k"].s == k) return &x; return nullptr; }

template <class C> void In(const V& x, C& c) {
  c.Comment(StrIn(x["tx"]));
  AddsIn(x["adds"], c);
  for (auto& n : x["names"].a) NamesIn(n, c.Names());
  for (auto& f : x["formula"].a) FormulaIn(f, c.Formula());
  for (auto& e : x["ext"].a) { auto p = std::make_unique<Ext>(); AtIn(e, *p); c.AddExtension(std::move(p)); }
  auto str = [&](const char* k, auto&& set) { if (auto* v = Key(x["strs"], k)) set(StrIn((*v)["s"])); };
  auto num = [&](const char* k, bool hex, auto&& set) { if (auto* v = Key(x["nums"], k)) set(NumIn((*v)["n"], hex)); };
  if constexpr (std::is_same_v<C, HdComment>) {
    str("time_source", [&](MdString s) { c.TimeSource(s); });
    for (auto& k : x["consts"].a) c.AddConstant(StrIn(k["s"]), k["e"].s);
    for (auto& u : x["spec"].a) SpecIn(u, c.UnitSpecification());
  }
  if constexpr (std::is_same_v<C, FhComment>) {
    str("tool_id", [&](MdString s) { c.ToolId(s); });
    str("tool_vendor", [&](MdString s) { c.ToolVendor(s); });
    str("tool_version", [&](MdString s) { c.ToolVersion(s); });
    str("user_name", [&](MdString s) { c.UserName(s); });
  }
  if constexpr (std::is_same_v<C, EvComment>) {
    num("pre", false, [&](MdNumber n) { c.PreTriggerInterval(n); });
    num("post", false, [&](MdNumber n) { c.PostTriggerInterval(n); });
    num("timeout", false, [&](MdNumber n) { c.Timeout(n); });
  }
  if constexpr (std::is_same_v<C, CnComment>) {
    str("linker_name", [&](MdString s) { if (auto* v = Key(x["strs"], "linker_name"); (*v)["s"].has("off") && (*v)["s"]["off"].s != "0") s.Offset(ToU((*v)["s"]["off"].s)); c.LinkerName(s); });
    num("linker_address", true, [&](MdNumber n) { c.LinkerAddress(n); });
    num("raster", false, [&](MdNumber n) { c.Raster(n); });
    num("address", true, [&](MdNumber n) { c.Address(n); });
    for (auto& m : x["mono"].a) c.AxisMonotony((MdMonotony)m.i);
  }
  if constexpr (std::is_same_v<C, CcComment>) for (auto& m : x["compu"].a) CompuIn(m, c.CompuMethod());
  if constexpr (std::is_same_v<C, SiComment>) {
    for (auto& n : x["path"].a) NamesIn(n, c.Path());
    for (auto& n : x["bus"].a) NamesIn(n, c.Bus());
    str("protocol", [&](MdString s) { c.Protocol(s); });
  }
  if constexpr (std::is_base_of_v<CcUnit, C>) str("unit_ref", [&](MdString s) { c.UnitRef(s); });
}
template <class C> V Out(const C& c, const V& x) {
  V r = V::O(), st = V::A(), nu = V::A(), ex = V::A(), co = V::A(), na = V::A(), pa = V::A(), bu = V::A(), fo = V::A(), mo = V::A(), sp = V::A(), cm = V::A(), get = V::A(), find = V::A();
  auto str = [&](const char* k, const MdString& s) { if (s.IsActive()) st.push(V::O().set("k", k).set("s", StrOut(s).set("off", std::to_string(s.Offset())))); };
  auto num = [&](const char* k, bool hex, const MdNumber& n) { if (n.IsActive()) nu.push(V::O().set("k", k).set("n", NumOut(n, hex))); };
  na.push(NamesOut(c.Names()));
  fo.push(FormulaOut(c.Formula()));
  for (auto& e : c.Extensions()) ex.push(AtOut(V::O(), *e));
  if constexpr (std::is_same_v<C, HdComment>) {
    str("time_source", c.TimeSource());
    for (auto& [k, e] : c.Constants()) co.push(V::O().set("s", StrOut(k)).set("e", e));
    sp.push(SpecOut(c.UnitSpecification()));
    for (auto& s : {c.Author(), c.Department(), c.Project(), c.Subject(), c.MeasurementUuid(), c.RecorderUuid(), std::to_string(c.RecorderFileIndex())}) get.push(s);
  }
  if constexpr (std::is_same_v<C, FhComment>) { str("tool_id", c.ToolId()); str("tool_vendor", c.ToolVendor()); str("tool_version", c.ToolVersion()); str("user_name", c.UserName()); }
  if constexpr (std::is_same_v<C, EvComment>) { num("pre", false, c.PreTriggerInterval()); num("post", false, c.PostTriggerInterval()); num("timeout", false, c.Timeout()); }
  if constexpr (std::is_same_v<C, CnComment>) {
    str("linker_name", c.LinkerName()); num("linker_address", true, c.LinkerAddress()); num("raster", false, c.Raster()); num("address", true, c.Address());
    mo.push((int)c.AxisMonotony());
  }
  if constexpr (std::is_same_v<C, CcComment>) cm.push(CompuOut(c.CompuMethod()));
  if constexpr (std::is_same_v<C, SiComment>) { pa.push(NamesOut(c.Path())); bu.push(NamesOut(c.Bus())); str("protocol", c.Protocol()); }
  if constexpr (std::is_base_of_v<CcUnit, C>) str("unit_ref", c.UnitRef());
  for (auto& q : x["find"].a) {
    const MdProperty* p = c.GetProperty(q.s);
    const MdEnumerate* e = c.GetEnumerate(q.s);
    find.push(V::O().set("p", p ? V::A().push(PropOut(*p, true)) : V::A()).set("e", e ? V::A().push(EnumOut(*e)) : V::A()));
  }
  return r.set("tx", StrOut(c.Comment())).set("adds", AddsOut(c)).set("names", na).set("path", pa).set("bus", bu).set("formula", fo).set("strs", st).set("nums", nu).set("ext", ex)
    .set("consts", co).set("spec", sp).set("compu", cm).set("mono", mo).set("get", get).set("find", find);
}
struct Blocks { IHeader* hd = nullptr; IFileHistory* fh = nullptr; IAttachment* at = nullptr; IEvent* ev = nullptr; IChannelHierarchy* ch = nullptr; IDataGroup* dg = nullptr; IChannelGroup* cg = nullptr;
  IChannel* cn = nullptr; IChannelConversion* cc = nullptr; ISourceInformation* si = nullptr; };
struct Fn { std::function<V(const V&)> mem; std::function<bool(Blocks&, const V&)> put; std::function<V(const Blocks&, const V&)> get; };
template <class C, class B> Fn Make(B* Blocks::*b, void (B::*set)(const C&), void (B::*get)(C&) const) {
  return {[](const V& x) { C c; In(x, c); return Out(c, x); },
          [b, set](Blocks& k, const V& x) { if (!(k.*b)) return false; C c; In(x, c); ((k.*b)->*set)(c); return true; },
          [b, get](const Blocks& k, const V& x) { C c; c.SetExtensionCreator([] { return std::make_unique<Ext>(); }); if (k.*b) ((k.*b)->*get)(c); return Out(c, x); }};
}
const std::map<std::string, Fn>& Fns() {
  static const std::map<std::string, Fn> f{
    {"hd", Make<HdComment>(&Blocks::hd, &IHeader::SetHdComment, &IHeader::GetHdComment)},
    {"fh", Make<FhComment>(&Blocks::fh, &IFileHistory::SetFhComment, &IFileHistory::GetFhComment)},
    {"at", Make<AtComment>(&Blocks::at, &IAttachment::SetAtComment, &IAttachment::GetAtComment)},
    {"ev", Make<EvComment>(&Blocks::ev, &IEvent::SetEvComment, &IEvent::GetEvComment)},
    {"ch", Make<ChComment>(&Blocks::ch, &IChannelHierarchy::SetChComment, &IChannelHierarchy::GetChComment)},
    {"dg", Make<DgComment>(&Blocks::dg, &IDataGroup::SetDgComment, &IDataGroup::GetDgComment)},
    {"cg", Make<CgComment>(&Blocks::cg, &IChannelGroup::SetCgComment, &IChannelGroup::GetCgComment)},
    {"cn", Make<CnComment>(&Blocks::cn, &IChannel::SetCnComment, &IChannel::GetCnComment)},
    {"cc", Make<CcComment>(&Blocks::cc, &IChannelConversion::SetCcComment, &IChannelConversion::GetCcComment)},
    {"si", Make<SiComment>(&Blocks::si, &ISourceInformation::SetSiComment, &ISourceInformation::GetSiComment)},
    {"cnu", Make<CnUnit>(&Blocks::cn, &IChannel::SetCnUnit, &IChannel::GetCnUnit)},
    {"ccu", Make<CcUnit>(&Blocks::cc, &IChannelConversion::SetCcUnit, &IChannelConversion::GetCcUnit)}};
  return f;
}
Blocks Find(MdfFile& f) {
  Blocks b;
  b.hd = f.Header();
  if (auto l = b.hd->FileHistories(); !l.empty()) b.fh = l.front();
  if (auto l = b.hd->Attachments(); !l.empty()) b.at = l.front();
  if (auto l = b.hd->Events(); !l.empty()) b.ev = l.front();
  if (auto l = b.hd->ChannelHierarchies(); !l.empty()) b.ch = l.front();
  if (auto l = b.hd->DataGroups(); !l.empty()) {
    b.dg = l.front();
    if (auto g = b.dg->ChannelGroups(); !g.empty()) {
      b.cg = g.front();
      if (auto c = b.cg->Channels(); !c.empty()) {
        b.cn = c.back();
        b.cc = b.cn->ChannelConversion();
        b.si = b.cn->SourceInformation();
      }
    }
  }
  return b;
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  const std::string file = dir + "/c" + std::to_string(sc["id"].num()) + ".mf4";
  auto ev = [&](const char* op, const V& x, V v) { evs.push(V::O().set("op", op).set("x", x).set("v", std::move(v))); };
  for (auto& x : sc["cs"].a) ev("mem", x, Fns().at(x["kind"].s).mem(x));
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    w->Init(file);
    auto* h = w->Header();
    auto* fh = h->CreateFileHistory();
    auto* at = h->CreateAttachment();
    at->FileName("x.bin");
    auto* e = h->CreateEvent();
    e->Name("e");
    auto* ch = h->CreateChannelHierarchy();
    ch->Name("h");
    auto* dg = h->CreateDataGroup();
    auto* cg = dg->CreateChannelGroup();
    cg->Name("g");
    auto* m = cg->CreateChannel();
    m->Name("t"); m->Type(ChannelType::Master); m->Sync(ChannelSyncType::Time); m->DataType(ChannelDataType::FloatLe); m->DataBytes(8);
    auto* c = cg->CreateChannel();
    c->Name("c"); c->DataType(ChannelDataType::UnsignedIntegerLe); c->DataBytes(4);
    auto* cc = c->CreateChannelConversion();
    cc->Type(ConversionType::Linear); cc->Parameter(0, 0.0); cc->Parameter(1, 2.0);
    auto* si = c->CreateSourceInformation();
    si->Name("s");
    Blocks b{h, fh, at, e, ch, dg, cg, c, cc, si};
    for (auto& x : sc["cs"].a) {
      const auto& f = Fns().at(x["kind"].s);
      if (x.flag("twice")) { f.put(b, x); }
      f.put(b, x);
    }
    for (auto& x : sc["cs"].a) ev("blk", x, Fns().at(x["kind"].s).get(b, x));
    w->InitMeasurement();
    w->StartMeasurement(1600000000000000000ULL);
    w->StopMeasurement(1600000001000000000ULL);
    w->FinalizeMeasurement();
  }
  {
    MdfReader r(file);
    bool ok = r.IsOk() && r.ReadEverythingButData();
    if (!ok || !r.GetFile()) { evs.push(V::O().set("op", "unreadable")); }
    else {
      Blocks b = Find(*const_cast<MdfFile*>(r.GetFile()));
      for (auto& x : sc["cs"].a) ev("file", x, Fns().at(x["kind"].s).get(b, x));
    }
  }
  std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
