#include "common.h"
#include <signal.h>
#include <unistd.h>
using namespace mdf;
namespace vh {
uint64_t kT0 = 1'600'000'000'000'000'000ULL;
static const Kind kKinds[] = {
  {"u8", ChannelDataType::UnsignedIntegerLe, 1, 'u'}, {"u16", ChannelDataType::UnsignedIntegerLe, 2, 'u'},
  {"u32", ChannelDataType::UnsignedIntegerLe, 4, 'u'}, {"u64", ChannelDataType::UnsignedIntegerLe, 8, 'u'},
  {"U16", ChannelDataType::UnsignedIntegerBe, 2, 'u'}, {"U32", ChannelDataType::UnsignedIntegerBe, 4, 'u'},
  {"U64", ChannelDataType::UnsignedIntegerBe, 8, 'u'},
  {"s8", ChannelDataType::SignedIntegerLe, 1, 's'}, {"s16", ChannelDataType::SignedIntegerLe, 2, 's'},
  {"s32", ChannelDataType::SignedIntegerLe, 4, 's'}, {"s64", ChannelDataType::SignedIntegerLe, 8, 's'},
  {"S16", ChannelDataType::SignedIntegerBe, 2, 's'}, {"S32", ChannelDataType::SignedIntegerBe, 4, 's'},
  {"S64", ChannelDataType::SignedIntegerBe, 8, 's'},
  {"f32", ChannelDataType::FloatLe, 4, 'f'}, {"f64", ChannelDataType::FloatLe, 8, 'f'},
  {"F32", ChannelDataType::FloatBe, 4, 'f'}, {"F64", ChannelDataType::FloatBe, 8, 'f'},
  {"str", ChannelDataType::StringAscii, 12, 't'}, {"utf8", ChannelDataType::StringUTF8, 12, 't'},
  {"ba", ChannelDataType::ByteArray, 5, 'b'}, {"blk", ChannelDataType::ByteArray, 1000, 'b'}, {"vblk", ChannelDataType::ByteArray, 0, 'b'},
  {"vstr", ChannelDataType::StringUTF8, 0, 't'}, {"vba", ChannelDataType::ByteArray, 0, 'b'},
  {"vasc", ChannelDataType::StringAscii, 0, 't'},
  {"vu16", ChannelDataType::StringUTF16Le, 0, 't'}, {"vU16", ChannelDataType::StringUTF16Be, 0, 't'},
};
const Kind* FindKind(const std::string& n) {
  for (auto& k : kKinds) if (n == k.name) return &k;
  throw std::runtime_error("kind " + n);
}
std::vector<uint8_t> LeBytes(uint64_t v, int n) { std::vector<uint8_t> r; for (int i = 0; i < n; ++i) r.push_back(i < 8 ? (uint8_t)(v >> (8 * i)) : 0); return r; }
uint64_t FromLe(const std::vector<uint8_t>& b) { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 8; ++i) v |= (uint64_t)b[i] << (8 * i); return v; }
double DoubleOf(const std::vector<uint8_t>& b) { uint64_t v = FromLe(b); double d; memcpy(&d, &v, 8); return d; }
std::vector<uint8_t> BytesOf(double d) { uint64_t v; memcpy(&v, &d, 8); return LeBytes(v, 8); }
std::vector<uint8_t> Block(const std::vector<uint8_t>& s, size_t n) {
  std::vector<uint8_t> r(n);
  uint32_t x = 2463534242u ^ ((uint32_t)s.at(0) << 8) ^ s.at(1);
  for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; r[i] = i < 2 ? s[i] : (uint8_t)(x >> 24) & 0x3F; }
  return r;
}
std::vector<uint8_t> UnBlock(const std::vector<uint8_t>& d, size_t n) {
  if (d.size() != n || n < 2) return {77, 77, 77};
  const std::vector<uint8_t> s{d[0], d[1]};
  if (Block(s, n) != d) return {78, 78, 78};
  return s;
}
char ClassOf(const IChannel& c) {
  switch (c.DataType()) {
    case ChannelDataType::UnsignedIntegerLe: case ChannelDataType::UnsignedIntegerBe: return 'u';
    case ChannelDataType::SignedIntegerLe: case ChannelDataType::SignedIntegerBe: return 's';
    case ChannelDataType::FloatLe: case ChannelDataType::FloatBe: return 'f';
    case ChannelDataType::StringAscii: case ChannelDataType::StringUTF8:
    case ChannelDataType::StringUTF16Le: case ChannelDataType::StringUTF16Be: return 't';
    default: return 'b';
  }
}
static int64_t SignExtend(const std::vector<uint8_t>& b) {
  uint64_t v = FromLe(b);
  if (!b.empty() && b.size() < 8 && (b.back() & 0x80)) v |= ~0ULL << (8 * b.size());
  return (int64_t)v;
}
void SetValue(IChannel& c, const std::vector<uint8_t>& b, bool valid, uint64_t idx) {
  switch (ClassOf(c)) {
    case 'u': c.SetChannelValue(FromLe(b), valid, idx); break;
    case 's': c.SetChannelValue(SignExtend(b), valid, idx); break;
    case 'f': c.SetChannelValue(DoubleOf(b), valid, idx); break;
    case 't': c.SetChannelValue(std::string(b.begin(), b.end()), valid, idx); break;
    default: c.SetChannelValue(b, valid, idx); break;
  }
}
bool GetValue(const IChannelObserver& o, uint64_t sample, std::vector<uint8_t>& out, uint64_t idx) {
  const IChannel& c = o.Channel();
  const int n = (int)(c.BitCount() + 7) / 8;
  bool ok = false;
  switch (ClassOf(c)) {
    case 'u': { uint64_t v = 0; ok = o.GetChannelValue(sample, v, idx); out = LeBytes(v, n); break; }
    case 's': { int64_t v = 0; ok = o.GetChannelValue(sample, v, idx); out = LeBytes((uint64_t)v, n); break; }
    case 'f': { double v = 0; ok = o.GetChannelValue(sample, v, idx); out = BytesOf(v); break; }
    case 't': { std::string v; ok = o.GetChannelValue(sample, v, idx); out.assign(v.begin(), v.end()); break; }
    default: { std::vector<uint8_t> v; ok = o.GetChannelValue(sample, v, idx); out = v; break; }
  }
  return ok;
}
int64_t ToTick(double s, int64_t unit) {
  if (!(std::fabs(s) < 1e9)) return kBadTick;
  const int64_t r = std::llround(s * 1e9);
  // tolerate the rounding of a double holding seconds
  int64_t q = std::llround((double)r / (double)unit);
  if (std::llabs(r - q * unit) > 2 + std::llabs(r) / 1000000000000LL) return kBadTick;
  return q;
}
V ReadGroup(const IDataGroup& dg, const IChannelGroup& cg, std::vector<std::unique_ptr<IChannelObserver>>& obs, int64_t unit) {
  V g = V::O();
  g.set("n", (int64_t)cg.NofSamples());
  V chs = V::A();
  V mt = V::A();
  bool hasm = false;
  for (const IChannel* ch : cg.Channels()) {
    const IChannelObserver* o = nullptr;
    for (auto& p : obs) if (p && &p->Channel() == ch) o = p.get();
    V c = V::O();
    c.set("nm", ch->Name());
    V vals = V::A(), oks = V::A();
    const uint64_t n = o ? o->NofSamples() : 0;
    const bool master = ch->Type() == ChannelType::Master;
    for (uint64_t i = 0; i < n; ++i) {
      if (master) {
        double t = 0; bool ok = o->GetEngValue(i, t);
        mt.push(ok ? ToTick(t, unit) : kBadTick);
      } else {
        std::vector<uint8_t> b; bool ok = GetValue(*o, i, b);
        if (ch->Name()[0] == 'b') b = UnBlock(b, std::stoul(ch->Name().substr(ch->Name().find('_') + 1)));
        vals.push(V::B(b)); oks.push(ok);
      }
    }
    if (master) { hasm = true; continue; }
    c.set("v", vals); c.set("ok", oks);
    chs.push(c);
  }
  g.set("mt", mt);
  g.set("hasm", hasm);
  g.set("ch", chs);
  return g;
}
V ReadAll(const std::string& file, int64_t unit) {
  V r = V::O();
  MdfReader reader(file);
  const bool ok = reader.IsOk() && reader.ReadEverythingButData();
  r.set("ok", ok);
  V groups = V::A();
  int64_t start = kBadTick;
  bool fin = false, rd = true;
  if (ok && reader.GetHeader() != nullptr) {
    const int64_t d = (int64_t)(reader.GetHeader()->StartTime() - kT0);
    start = d % unit == 0 ? d / unit : kBadTick;
    if (start > 1000000000 || start < -1000000000) start = kBadTick;
    fin = reader.IsFinalized();
    for (IDataGroup* dg : reader.GetHeader()->DataGroups()) {
      std::vector<std::unique_ptr<IChannelObserver>> obs;
      for (const IChannelGroup* cg : dg->ChannelGroups())
        for (const IChannel* ch : cg->Channels()) obs.push_back(CreateChannelObserver(*dg, *cg, *ch));
      bool any = false;
      for (const IChannelGroup* cg : dg->ChannelGroups()) any |= cg->NofSamples() > 0;
      const bool res = reader.ReadData(*dg);
      if (any && !res) rd = false;
      V g = V::A();
      for (const IChannelGroup* cg : dg->ChannelGroups()) g.push(ReadGroup(*dg, *cg, obs, unit));
      groups.push(g);
    }
  }
  r.set("rd", rd);
  r.set("fin", fin);
  r.set("start", start);
  r.set("dgs", groups);
  return r;
}
void Quiet() { MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {}); }

static int g_out_fd = 1;
static int64_t g_cur = -1;
static void Fatal(int sig) {
  char b[96];
  const int n = snprintf(b, sizeof b, "{\"id\":%lld,\"ev\":[{\"op\":\"CRASH\",\"sig\":%d}]}\n", (long long)g_cur, sig);
  if (write(g_out_fd, b, n) < 0) {}
  _exit(42);
}
int Main(int argc, char** argv, const std::function<V(const V&, const std::string&)>& run) {
  if (argc < 4) { fprintf(stderr, "usage: drv scenarios out scratchdir\n"); return 2; }
  Quiet();
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!out || !in) return 2;
  g_out_fd = fileno(out);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, Fatal);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    V sc = vj::parse(line);
    g_cur = sc["id"].num();
    alarm((unsigned)sc.num("timeout", 30));
    V o = V::O();
    o.set("id", g_cur);
    V ev;
    try { ev = run(sc, argv[3]); }
    catch (const std::exception& e) { ev = V::A(); ev.push(V::O().set("op", "EXC").set("what", std::string(e.what()))); }
    alarm(0);
    if (sc.has("meta")) o.set("meta", sc["meta"]);
    o.set("ev", ev);
    std::string s = o.dump();
    s += "\n";
    fputs(s.c_str(), out);
    fflush(out);
  }
  fclose(out);
  return 0;
}
}  // namespace vh
