// Compression driver: deflates, damages, inflates and transposes byte strings.
#include <zlib.h>
#include <sstream>
#include "common.h"
#include "mdf/zlibutil.h"
using namespace mdf;
using namespace vh;
namespace {
using Bytes = std::vector<uint8_t>;
Bytes Make(const V& c) {
  if (c["k"].s == "raw") return c["b"].bytes();
  const size_t n = (size_t)c["n"].i;
  Bytes b(n);
  uint64_t s = (uint64_t)c["seed"].i * 2654435761u + 1;
  const std::string k = c["k"].s;
  for (size_t i = 0; i < n; ++i) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    b[i] = k == "noise" ? (uint8_t)(s >> 24) : k == "zero" ? 0 : k == "text" ? (uint8_t)("the quick "[(s >> 20) % 10]) : (uint8_t)((i * i / 97) & 0xff);
  }
  return b;
}
// content for the trace
V Dig(const Bytes& b) {
  if (b.size() <= 64) return V::O().set("n", (int64_t)b.size()).set("c", V::B(b));
  V c = V::A();
  for (size_t i = 0; i < b.size(); i += 8192) {
    const auto x = crc32(0, b.data() + i, (uInt)std::min<size_t>(8192, b.size() - i));
    c.push((int64_t)(x >> 16)).push((int64_t)(x & 0xffff));
  }
  return V::O().set("n", (int64_t)b.size()).set("c", c);
}
Bytes Slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(i)), {});
}
void Dump(const std::string& f, const Bytes& b) { std::ofstream(f, std::ios::binary).write((const char*)b.data(), (std::streamsize)b.size()); }
// reference decoder used to judge what Deflate produced: plain zlib
Bytes Reference(const Bytes& z, size_t n) {
  Bytes out(n + 16);
  uLongf len = (uLongf)out.size();
  uLong used = (uLong)z.size();
  if (z.empty() || uncompress2(out.data(), &len, z.data(), &used) != Z_OK || used != z.size()) return {1, 2, 3, 255};
  out.resize(len);
  return out;
}
V Inf(const std::string& how, const Bytes& z, size_t room, const Bytes& content, const std::string& state, const std::string& dir, size_t lim) {
  V e = V::O();
  e.set("op", "inf").set("how", how).set("content", Dig(content)).set("size", (int64_t)content.size()).set("state", state);
  Bytes out;
  bool ok = false;
  if (how == "arr") {
    out.assign(room, 0xAA);
    ok = Inflate(z, out);
    e.set("room", (int64_t)room);
  } else {
    e.set("room", -1);
    Bytes stored = z;
    if (how == "count") for (int i = 0; i < 300; ++i) stored.push_back((uint8_t)(i * 37));   // what follows the block in its file
    Dump(dir + "/z.in", stored);
    std::filebuf in, o;
    in.open(dir + "/z.in", std::ios::in | std::ios::binary);
    o.open(dir + "/z.out", std::ios::out | std::ios::trunc | std::ios::binary);
    ok = how == "stream" ? Inflate(in, o) : how == "count" ? Inflate(in, o, (uint64_t)(z.size() - lim)) : Inflate(z, o);
    if (how == "count") {
      const auto pos = (int64_t)in.pubseekoff(0, std::ios::cur, std::ios::in);
      e.set("over", pos > (int64_t)(z.size() - lim));   // consumed more than it was given
    }
    in.close(); o.close();
    out = Slurp(dir + "/z.out");
  }
  if (!e.has("over")) e.set("over", false);
  return e.set("ok", ok).set("out", Dig(out));
}
V Run(const V& sc, const std::string& dir) {
  V evs = V::A();
  if (sc.has("tp")) {
    for (auto& t : sc["tp"].a) {
      Bytes x = Make(t["c"]);
      Bytes a = x, b = x;
      const auto w = (size_t)t["w"].i;
      Transpose(a, w); InvTranspose(b, w);
      Bytes c = a;
      InvTranspose(c, w);
      evs.push(V::O().set("op", "tp").set("x", V::B(x)).set("w", (int64_t)w).set("t", V::B(a)).set("i", V::B(b)).set("ti", V::B(c)));
    }
    return evs;
  }
  const Bytes content = Make(sc["c"]);
  const size_t n = content.size();
  Bytes z;
  if (sc.has("z")) z = sc["z"].bytes();   // made by another encoder
  else {
    const std::string how = sc["def"].s;
    bool ok = false;
    if (how == "arr") ok = Deflate(content, z);
    else if (how == "file") { Dump(dir + "/d.in", content); ok = Deflate(dir + "/d.in", z); }
    else {
      Dump(dir + "/d.in", content);
      std::filebuf in, o;
      in.open(dir + "/d.in", std::ios::in | std::ios::binary);
      o.open(dir + "/d.out", std::ios::out | std::ios::trunc | std::ios::binary);
      ok = Deflate(in, o);
      in.close(); o.close();
      z = Slurp(dir + "/d.out");
    }
    evs.push(V::O().set("op", "def").set("how", how).set("size", (int64_t)n).set("ok", ok).set("content", Dig(content)).set("ref", ok ? Dig(Reference(z, n)) : Dig({})));
    if (!ok) return evs;
  }
  for (auto& d : sc["inf"].a) {
    Bytes y = z;
    std::string state = "intact";
    size_t room = n;
    if (d.has("cut")) { const size_t c = (size_t)d["cut"].i % z.size(); y.resize(c); state = "cut"; }
    if (d.has("flip")) { y[(size_t)d["flip"].i % y.size()] ^= (uint8_t)(1 << (d["flip"].i % 8)); state = "hurt"; }
    if (d.has("room")) room = (size_t)((int64_t)n + d["room"].i < 0 ? 0 : (int64_t)n + d["room"].i);
    size_t lim = 0;
    if (d.has("lim")) { lim = std::min<size_t>(z.size() - 1, (size_t)d["lim"].i); state = "cut"; }
    if (d["how"].s == "arr" && (room == 0 || y.empty())) continue;
    evs.push(Inf(d["how"].s, y, room, content, state, dir, lim));
  }
  return evs;
}
}  // namespace
int main(int c, char** v) { return Main(c, v, Run); }
