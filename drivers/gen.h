// Seeded generators of dictionaries, targets, code tables and (valid or nearly valid) deltas.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "ref.h"
#include <algorithm>
namespace gen {
using ref::str;
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t a, uint64_t b = 0) : s(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 12345) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline size_t some_size(Rng& r, size_t cap) {
  size_t n;
  switch (r.below(12)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = r.range(2, 15); break;
    case 3: n = r.range(15, 17); break;
    case 4: n = r.range(31, 33); break;
    case 5: n = r.range(126, 130); break;
    case 6: n = r.range(254, 258); break;
    case 7: n = r.range(18, 64); break;
    case 8: n = r.range(65, 300); break;
    case 9: n = r.range(300, 2000); break;
    case 10: n = r.range(4, 40); break;
    default: n = r.range(16384 - 2, 16384 + 2); break;
  }
  return std::min(n, cap);
}
// alphabet: 0 arbitrary bytes, 1 few letters, 2 ASCII printable, 3 all ASCII incl. control
inline char some_char(Rng& r, int alpha) {
  switch (alpha) {
    case 0: return (char)r.below(256);
    case 1: return "ab\xFF\0"[r.below(4)];
    case 2: return (char)r.range(32, 126);
    default: return (char)(r.chance(1, 4) ? "\"\\\n\r\t\b\f/\x7f\x00\x1f'"[r.below(12)] : (char)r.below(128));
  }
}
inline str some_bytes(Rng& r, size_t n, int alpha) {
  str s; s.reserve(n);
  while (s.size() < n) {
    switch (r.below(5)) {
      case 0: s.append(std::min<size_t>(n - s.size(), r.range(1, 60)), some_char(r, alpha)); break;
      case 1: if (!s.empty()) { size_t p = r.below(s.size()), l = r.range(1, 80); for (size_t i = 0; i < l && s.size() < n; ++i) s.push_back(s[p + i]); } break;
      case 2: { size_t per = r.range(1, 9), l = r.range(1, 90), p = s.size(); for (size_t i = 0; i < l && s.size() < n; ++i) s.push_back(i < per ? some_char(r, alpha) : s[p + i - per]); } break;
      default: { size_t l = r.range(1, 24); for (size_t i = 0; i < l && s.size() < n; ++i) s.push_back(some_char(r, alpha)); }
    }
  }
  return s;
}
inline str target_from(Rng& r, const str& dict, size_t n, int alpha) {
  str s;
  while (s.size() < n) {
    size_t left = n - s.size();
    switch (r.below(6)) {
      case 0: case 1: if (!dict.empty()) { size_t p = r.below(dict.size()), l = std::min<size_t>(std::min<size_t>(left, some_size(r, 4000)), dict.size() - p); s.append(dict, p, l); } break;
      case 2: if (!s.empty()) { size_t p = r.below(s.size()), l = std::min<size_t>(left, r.range(1, 200)); for (size_t i = 0; i < l; ++i) s.push_back(s[p + i]); } break;
      case 3: if (!dict.empty()) { size_t l = std::min<size_t>(std::min<size_t>(left, r.range(1, 64)), dict.size()); s.append(dict, dict.size() - l, l); if (s.size() < n) s.push_back(some_char(r, alpha)); } break;
      default: s += some_bytes(r, std::min<size_t>(left, r.range(1, 40)), alpha);
    }
  }
  if (!s.empty() && r.chance(1, 3)) for (int k = r.range(1, 4); k--;) s[r.below(s.size())] = some_char(r, alpha);
  return s;
}
inline std::vector<size_t> cuts(Rng& r, size_t n) {      // chunk sizes, possibly empty chunks
  std::vector<size_t> v; size_t p = 0; int style = r.below(5);
  while (p < n) {
    size_t k = style == 0 ? n : style == 1 ? 1 : style == 2 ? r.range(1, 8) : style == 3 ? r.range(0, 3) : some_size(r, n);
    k = std::min(k, n - p); v.push_back(k); p += k;
    if (v.size() > 100000) { v.push_back(n - p); break; }
  }
  if (v.empty() || r.chance(1, 6)) v.push_back(0);
  return v;
}
inline ref::Table some_table(Rng& r, int max_mode) {     // a random valid table for modes 0..max_mode (max_mode <= 253)
  ref::Table t; memset(&t, 0, sizeof t);
  std::vector<int> slot; for (int i = 0; i < 256; ++i) slot.push_back(i);
  for (int i = 255; i > 0; --i) std::swap(slot[i], slot[r.below(i + 1)]);
  int k = 0;
  t.inst1[slot[k++]] = ref::ADD; t.inst1[slot[k++]] = ref::RUN;
  for (int m = 0; m <= max_mode; ++m) { t.inst1[slot[k]] = ref::COPY; t.mode1[slot[k++]] = m; }
  for (; k < 256; ++k) {
    int o = slot[k];
    for (int h = 0; h < 2; ++h) {
      int inst = r.chance(1, 5) ? ref::NOOP : (int)r.range(1, 3);
      if (h && r.chance(1, 2)) inst = ref::NOOP;
      int size = inst == ref::NOOP ? 0 : r.chance(1, 4) ? 0 : r.chance(1, 8) ? r.range(200, 255) : r.range(1, 18);
      int mode = inst == ref::COPY ? r.below(max_mode + 1) : 0;
      (h ? t.inst2 : t.inst1)[o] = inst; (h ? t.size2 : t.size1)[o] = size; (h ? t.mode2 : t.mode1)[o] = mode;
    }
  }
  return t;
}
struct DeltaOpts {
  bool ext, custom, allow_target, perturb; int max_windows; size_t max_target; int checksum; int interleave;  // -1 random
  int alpha;
  DeltaOpts() : ext(true), custom(false), allow_target(true), perturb(false), max_windows(3), max_target(600), checksum(-1), interleave(-1), alpha(0) {}
};
struct DeltaGen {
  Rng& r; DeltaOpts o; str dict; int bent;
  DeltaGen(Rng& x, const DeltaOpts& oo, const str& d) : r(x), o(oo), dict(d), bent(0) {}
  uint64_t bend(uint64_t v) {                            // in perturb mode, rarely replace a field by a near miss
    if (!o.perturb || !r.chance(1, 40)) return v;
    ++bent;
    switch (r.below(9)) {
      case 0: return v + 1; case 1: return v ? v - 1 : 1; case 2: return 0; case 3: return v + r.range(1, 16);
      case 4: return 0x7FFFFFFF; case 5: return 0x7FFFFFFFull + r.range(0, 2); case 6: return 127 + r.below(3); case 7: return v ^ 128;
      default: return r.next() >> r.below(60);
    }
  }
  void vint(str* s, uint64_t v) {
    v = bend(v);
    if (r.chance(1, 60)) for (int k = r.range(1, 4); k--;) s->push_back((char)0x80);   // redundant leading zeros are legal
    ref::put_varint(s, v);
  }
  void byte(str* s, int v) { s->push_back((char)(o.perturb && r.chance(1, 60) ? (++bent, (int)r.below(256)) : v)); }
  void window(str* d, str* out, const ref::Table& t, int nn, int ns, uint64_t want) {
    int kind = r.below(4); str seg; uint64_t pos = 0;
    int ind = 0;
    if (kind <= 1) ind = 1; else if (kind == 2 && o.allow_target) ind = 2;
    if (ind) {
      const str& src = ind == 1 ? dict : *out;
      uint64_t len = r.chance(1, 3) ? src.size() : r.range(0, src.size());
      pos = r.range(0, src.size() - len); if (r.chance(1, 4)) pos = src.size() - len;
      seg = src.substr(pos, len);
    }
    bool sum = o.ext && (o.checksum < 0 ? r.chance(1, 2) : o.checksum);
    bool inter = o.ext && (o.interleave < 0 ? r.chance(1, 2) : o.interleave);
    if (sum || (!o.ext && r.chance(1, 10))) ind |= 4;
    if (r.chance(1, 30)) ind |= 8 << r.below(5);          // undefined indicator bits carry no meaning
    str I, A, C, T; str& a = inter ? I : A; str& c = inter ? I : C;
    ref::Cache cache(nn, ns); int guard = 0;
    while (T.size() < want && guard++ < 4000) {
      int op = r.below(256);
      // prefer explicit sizes when a lot remains
      uint64_t left = want - T.size();
      // feasibility: total fixed size of the opcode must fit
      int n1 = t.inst1[op] != ref::NOOP, n2 = t.inst2[op] != ref::NOOP;
      if (n1 && t.size1[op] > left) continue;
      uint64_t rest = left - (n1 ? t.size1[op] : 0);
      if (n2 && t.size2[op] > rest) continue;
      if (n1 && n2 && rest == 0) continue;                // second half would be excess
      str I2 = I, A2 = A, C2 = C, T2 = T; ref::Cache k2 = cache; bool good = true;
      str& aa = inter ? I2 : A2; str& cc = inter ? I2 : C2;
      byte(&I2, op);
      for (int h = 0; h < 2 && good; ++h) {
        int ty = h ? t.inst2[op] : t.inst1[op]; uint64_t sz = h ? t.size2[op] : t.size1[op]; int m = h ? t.mode2[op] : t.mode1[op];
        if (ty == ref::NOOP) continue;
        uint64_t l2 = want - T2.size();
        if (h && l2 == 0) { good = false; break; }
        if (sz == 0) {
          uint64_t reserve = (!h && n2) ? std::max<uint64_t>(t.size2[op], 1) : 0;
          if (reserve > l2) { good = false; break; }
          sz = r.chance(1, 12) ? 0 : std::min<uint64_t>(l2 - reserve, r.chance(1, 3) ? r.range(1, 20) : r.range(0, l2));
          vint(&I2, sz);
        }
        if (sz > l2) { good = false; break; }
        if (ty == ref::ADD) { str x = some_bytes(r, sz, o.alpha); aa += x; T2 += x; }
        else if (ty == ref::RUN) { char ch = some_char(r, o.alpha); aa.push_back(ch); T2.append(sz, ch); }
        else {
          int64_t here = seg.size() + T2.size(), ad;
          if (here == 0) { good = false; break; }
          if (m >= 2 + nn) {
            int base = (m - 2 - nn) * 256, v = -1;
            for (int tr = 0; tr < 20; ++tr) { int q = r.below(256); if (k2.same_[base + q] < here && (tr > 14 || k2.same_[base + q] != 0)) { v = q; break; } }
            if (v < 0) { good = false; break; }
            ad = k2.same_[base + v]; byte(&cc, v);
          } else {
            int64_t lo = m >= 2 ? k2.near_[m - 2] : 0;
            if (lo >= here) { good = false; break; }
            switch (r.below(6)) {
              case 0: ad = here - 1; break;
              case 1: ad = lo; break;
              case 2: ad = seg.size() > 3 ? (int64_t)seg.size() - (int64_t)r.range(1, 3) : lo; break;   // straddle
              case 3: ad = here - (int64_t)std::min<uint64_t>(here, r.range(1, 5)); break;              // overlap
              default: ad = r.range(lo, here - 1);
            }
            if (ad < lo) ad = lo;
            if (o.perturb && r.chance(1, 40)) { ++bent; ad = here + r.below(2); }
            vint(&cc, m == 0 ? ad : m == 1 ? (uint64_t)(here - ad) & 0xFFFFFFFFull : ad - lo);
            if (ad >= here) ad = here - 1;
          }
          k2.update(ad);
          for (uint64_t q = 0; q < sz; ++q) { uint64_t x = ad + q; T2.push_back(x < seg.size() ? seg[x] : T2[x - seg.size()]); }
        }
      }
      if (!good) continue;
      I = I2; A = A2; C = C2; T = T2; cache = k2;
    }
    if (o.perturb && r.chance(1, 25)) { ++bent; switch (r.below(4)) { case 0: a.push_back('x'); break; case 1: c.push_back(1); break; case 2: I.push_back((char)r.below(256)); break;
      default: { str& z = r.chance(1, 2) ? I : r.chance(1, 2) ? A : C; if (!z.empty()) z.erase(z.size() - 1); } } }
    if (inter && r.chance(1, 1) && A.empty() && C.empty()) {}
    str body; vint(&body, T.size()); byte(&body, r.chance(1, 30) ? 8 << r.below(5) : 0);
    uint64_t la = A.size(), li = I.size(), lc = C.size();
    if (o.perturb && r.chance(1, 30)) { ++bent; if (li) { --li; r.chance(1, 2) ? ++la : ++lc; } }
    vint(&body, la); vint(&body, li); vint(&body, lc);
    if (sum) vint(&body, o.perturb && r.chance(1, 15) ? (++bent, (uint64_t)(ref::adler(T) ^ (1u << r.below(32)))) : (uint64_t)ref::adler(T));
    body += A; body += I; body += C;
    byte(d, ind);
    if (ind & 3) { vint(d, seg.size()); vint(d, pos); }
    vint(d, body.size());
    *d += body; *out += T;
  }
  str table_delta(const ref::Table& t) {                  // embedded delta that yields the table from the default table
    ref::Table def = ref::default_table(); str D((const char*)&def, sizeof def), T((const char*)&t, sizeof t), d;
    bool ext = r.chance(1, 2), inter = ext && r.chance(1, 2), sum = ext && r.chance(1, 2);
    d.append("\xD6\xC3\xC4", 3); byte(&d, ext ? 'S' : 0); byte(&d, 0);
    size_t p = 0; int nw = r.chance(1, 4) ? 2 : 1; if (r.chance(1, 20)) nw = 3;
    for (int w = 0; w < nw; ++w) {
      size_t e = w == nw - 1 ? T.size() : r.range(p, T.size() - 1);
      str I, A, C, body, X = T.substr(p, e - p); str& a = inter ? I : A; str& c = inter ? I : C;
      size_t q = p;
      while (q < e) {
        size_t k = 0; while (q + k < e && T[q + k] == D[q + k]) ++k;
        if (k >= 4) { I.push_back((char)19); vint(&I, k); vint(&c, q); q += k; }
        else { size_t k2 = 1; while (q + k2 < e && !(q + k2 + 4 <= e && memcmp(&T[q + k2], &D[q + k2], 4) == 0)) ++k2; I.push_back(1); vint(&I, k2); a.append(T, q, k2); q += k2; }
      }
      vint(&body, X.size()); byte(&body, 0); vint(&body, A.size()); vint(&body, I.size()); vint(&body, C.size());
      if (sum) vint(&body, ref::adler(X));
      body += A; body += I; body += C;
      byte(&d, 1 | (sum ? 4 : 0)); vint(&d, D.size()); vint(&d, 0); vint(&d, body.size()); d += body; p = e;
    }
    return d;
  }
  str make() {
    str d, out; ref::Table t = ref::default_table(); int nn = 4, ns = 3;
    d.append("\xD6\xC3\xC4", 3);
    if (o.perturb && r.chance(1, 60)) { ++bent; d[r.below(3)] ^= 1 << r.below(8); }
    byte(&d, o.ext ? 'S' : 0);
    int hi = o.custom ? 2 : 0; if (r.chance(1, 40)) hi |= 4 << r.below(6);
    byte(&d, hi);
    if (o.custom) {
      switch (r.below(6)) {
        case 0: nn = 0; ns = 0; break;
        case 1: nn = r.range(0, 10); ns = 0; break;
        case 2: nn = 0; ns = r.range(1, 8); break;
        case 3: nn = r.range(0, 252); ns = r.range(0, 252 - nn); break;
        default: nn = r.range(1, 8); ns = r.range(1, 6);
      }
      t = some_table(r, 1 + nn + ns);
      if (o.perturb && r.chance(1, 6)) { ++bent; int k = r.below(1536); ((unsigned char*)&t)[k] = r.chance(1, 2) ? r.below(5) : r.below(256); }
      if (o.perturb && r.chance(1, 12)) { ++bent; if (r.chance(1, 2)) { nn = r.range(250, 258); ns = r.range(0, 4); } else { nn = r.range(0, 300); ns = r.range(0, 300); } }
      vint(&d, nn); vint(&d, ns);
      d += table_delta(t);
      if (nn > 255 || ns > 255 || nn + ns > 254) { nn = 4; ns = 3; }
      for (int i = 0; i < 256; ++i) if (t.mode1[i] >= 2 + nn + ns || t.mode2[i] >= 2 + nn + ns || t.inst1[i] > 3 || t.inst2[i] > 3) t.inst1[i] = t.inst2[i] = t.mode1[i] = t.mode2[i] = 0;
    }
    int w = r.range(r.chance(1, 20) ? 0 : 1, o.max_windows);
    for (int i = 0; i < w; ++i) window(&d, &out, t, nn, ns, some_size(r, o.max_target));
    expect = out;
    if (o.perturb && r.chance(1, 5) && !d.empty()) {
      ++bent;
      switch (r.below(5)) {
        case 0: d.resize(r.below(d.size())); break;
        case 1: d[r.below(d.size())] ^= 1 << r.below(8); break;
        case 2: d.insert(r.below(d.size()), 1, (char)r.below(256)); break;
        case 3: d.erase(r.below(d.size()), 1); break;
        default: d += str(r.range(1, 6), (char)r.below(256));
      }
    }
    return d;
  }
  str expect;
};
inline str hex(const str& s, size_t cap = 4096) {
  static const char* h = "0123456789abcdef"; str o;
  for (size_t i = 0; i < s.size() && i < cap; ++i) { o += h[(unsigned char)s[i] >> 4]; o += h[s[i] & 15]; }
  if (s.size() > cap) o += "...";
  return o;
}
}  // namespace gen
#endif
