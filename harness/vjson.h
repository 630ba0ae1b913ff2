// Minimal JSON value used by the conformance drivers (no external dependency).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <initializer_list>
namespace vj {
struct V {
  enum K { Null, Bool, Int, Str, Arr, Obj } k = Null;
  bool b = false;
  int64_t i = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  V() = default;
  V(bool x) : k(Bool), b(x) {}
  V(int x) : k(Int), i(x) {}
  V(int64_t x) : k(Int), i(x) {}
  V(uint64_t x) : k(Int), i((int64_t)x) {}
  V(uint32_t x) : k(Int), i(x) {}
  V(const char* x) : k(Str), s(x) {}
  V(const std::string& x) : k(Str), s(x) {}
  static V A() { V v; v.k = Arr; return v; }
  static V O() { V v; v.k = Obj; return v; }
  bool has(const std::string& n) const {
    for (auto& p : o) if (p.first == n) return true;
    return false;
  }
  const V& at(const std::string& n) const {
    for (auto& p : o) if (p.first == n) return p.second;
    throw std::runtime_error("missing field " + n);
  }
  const V& operator[](const std::string& n) const { return at(n); }
  const V& operator[](size_t n) const { return a.at(n); }
  V& set(const std::string& n, V v) { k = Obj; o.emplace_back(n, std::move(v)); return *this; }
  V& push(V v) { k = Arr; a.push_back(std::move(v)); return *this; }
  size_t size() const { return a.size(); }
  int64_t num() const { if (k == Bool) return b; if (k != Int) throw std::runtime_error("not int"); return i; }
  int64_t num(const std::string& n, int64_t d) const { return has(n) ? at(n).num() : d; }
  bool flag(const std::string& n, bool d = false) const { return has(n) ? (at(n).k == Bool ? at(n).b : at(n).i != 0) : d; }
  std::string str(const std::string& n, const std::string& d = "") const { return has(n) ? at(n).s : d; }
  std::vector<uint8_t> bytes() const { std::vector<uint8_t> r; for (auto& x : a) r.push_back((uint8_t)x.i); return r; }
  std::string text() const { std::string r; for (auto& x : a) r.push_back((char)x.i); return r; }
  static V B(const std::vector<uint8_t>& x) { V v = A(); for (auto c : x) v.push((int)c); return v; }
  static V B(const std::string& x) { V v = A(); for (unsigned char c : x) v.push((int)c); return v; }
  void dump(std::string& r) const {
    switch (k) {
      case Null: r += "\"null\""; break;
      case Bool: r += b ? "true" : "false"; break;
      case Int: r += std::to_string(i); break;
      case Str: {
        r += '"';
        for (unsigned char c : s) {
          if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
          else if (c < 0x20 || c >= 0x7f) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
          else r += (char)c;
        }
        r += '"';
        break;
      }
      case Arr: { r += '['; bool f = true; for (auto& x : a) { if (!f) r += ','; f = false; x.dump(r); } r += ']'; break; }
      case Obj: { r += '{'; bool f = true; for (auto& p : o) { if (!f) r += ','; f = false; r += '"'; r += p.first; r += "\":"; p.second.dump(r); } r += '}'; break; }
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }
};
struct P {
  const char* p; const char* e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  V val() {
    ws();
    if (p >= e) throw std::runtime_error("json eof");
    if (*p == '{') {
      ++p; V v = V::O(); ws();
      if (*p == '}') { ++p; return v; }
      for (;;) { ws(); V key = val(); ws(); if (*p != ':') throw std::runtime_error("json :"); ++p; v.set(key.s, val()); ws(); if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return v; } throw std::runtime_error("json obj"); }
    }
    if (*p == '[') {
      ++p; V v = V::A(); ws();
      if (*p == ']') { ++p; return v; }
      for (;;) { v.push(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return v; } throw std::runtime_error("json arr"); }
    }
    if (*p == '"') {
      ++p; V v(""); 
      while (p < e && *p != '"') {
        if (*p == '\\') { ++p; switch (*p) { case 'n': v.s += '\n'; break; case 't': v.s += '\t'; break; case 'r': v.s += '\r'; break;
            case 'u': { unsigned c = (unsigned)strtoul(std::string(p + 1, p + 5).c_str(), nullptr, 16); p += 4; v.s += (char)c; break; }
            default: v.s += *p; } ++p; }
        else v.s += *p++;
      }
      ++p; return v;
    }
    if (*p == 't') { p += 4; return V(true); }
    if (*p == 'f') { p += 5; return V(false); }
    if (*p == 'n') { p += 4; return V(); }
    char* q; V v((int64_t)strtoll(p, &q, 10)); if (q == p) throw std::runtime_error("json num"); p = q; return v;
  }
};
inline V parse(const std::string& s) { P p{s.data(), s.data() + s.size()}; return p.val(); }
}  // namespace vj
