// Independent reference semantics, written from RFC 3284 and the documented SDCH extensions
// (interleaved sections, Adler-32 window checksum, cache sizes + embedded table for VCD_CODETABLE).
// Shares no code with the library under check.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
typedef std::string str;
typedef unsigned char uc;

inline uint32_t adler(const str& s) {           // Adler-32 seeded with 0 as this format does
  uint32_t a = 0, b = 0;
  for (size_t i = 0; i < s.size(); ++i) { a = (a + (uc)s[i]) % 65521; b = (b + a) % 65521; }
  return (b << 16) | a;
}
inline void put_varint(str* o, uint64_t v) {
  char t[10]; int n = 0;
  do { t[n++] = (char)(v & 127); v >>= 7; } while (v);
  while (n--) o->push_back((char)(t[n] | (n ? 0x80 : 0)));
}
struct Table {
  uc inst1[256], inst2[256], size1[256], size2[256], mode1[256], mode2[256];
};
enum { NOOP = 0, ADD = 1, RUN = 2, COPY = 3 };
inline Table default_table() {                   // RFC 3284 section 5.6, by its generating rules
  Table t; memset(&t, 0, sizeof t);
  int i = 0;
  t.inst1[i++] = RUN;
  for (int s = 0; s <= 17; ++s, ++i) { t.inst1[i] = ADD; t.size1[i] = s; }
  for (int m = 0; m <= 8; ++m) {
    t.inst1[i] = COPY; t.mode1[i] = m; ++i;
    for (int s = 4; s <= 18; ++s, ++i) { t.inst1[i] = COPY; t.size1[i] = s; t.mode1[i] = m; }
  }
  for (int m = 0; m <= 5; ++m) for (int a = 1; a <= 4; ++a) for (int s = 4; s <= 6; ++s, ++i) {
    t.inst1[i] = ADD; t.size1[i] = a; t.inst2[i] = COPY; t.size2[i] = s; t.mode2[i] = m; }
  for (int m = 6; m <= 8; ++m) for (int a = 1; a <= 4; ++a, ++i) {
    t.inst1[i] = ADD; t.size1[i] = a; t.inst2[i] = COPY; t.size2[i] = 4; t.mode2[i] = m; }
  for (int m = 0; m <= 8; ++m, ++i) { t.inst1[i] = COPY; t.size1[i] = 4; t.mode1[i] = m; t.inst2[i] = ADD; t.size2[i] = 1; }
  return t;
}
inline bool half_ok(int inst, int size, int mode, int max_mode) {
  if (inst > 3) return false;
  if (mode > max_mode) return false;
  if (inst == NOOP && size != 0) return false;
  if (inst != COPY && mode != 0) return false;
  return true;
}
inline bool valid_table(const Table& t, int max_mode) {
  for (int i = 0; i < 256; ++i)
    if (!half_ok(t.inst1[i], t.size1[i], t.mode1[i], max_mode) || !half_ok(t.inst2[i], t.size2[i], t.mode2[i], max_mode)) return false;
  for (int inst = ADD; inst <= COPY; ++inst)
    for (int m = 0; m <= (inst == COPY ? max_mode : 0); ++m) {
      bool f = false;
      for (int i = 0; i < 256 && !f; ++i) f = t.inst1[i] == inst && t.mode1[i] == m && t.size1[i] == 0 && t.inst2[i] == NOOP;
      if (!f) return false;
    }
  return true;
}
struct Cache {
  int near_n, same_n, next; std::vector<int64_t> near_, same_;
  Cache(int n, int s) : near_n(n), same_n(s), next(0), near_(n, 0), same_(s * 256, 0) {}
  void update(int64_t a) {
    if (near_n) { near_[next] = a; next = (next + 1) % near_n; }
    if (same_n) same_[a % (same_n * 256)] = a;
  }
};
struct Rd {                                      // bounded reader
  const str& s; size_t p, e; bool bad;
  Rd(const str& x, size_t a, size_t b) : s(x), p(a), e(b), bad(false) {}
  bool byte(int* v) { if (p >= e) { bad = true; return false; } *v = (uc)s[p++]; return true; }
  bool varint(uint64_t* v, uint64_t max) {
    uint64_t r = 0;
    for (size_t q = p; q < e; ++q) {
      if (r > (max >> 7)) return bad = true, false;
      r = (r << 7) | ((uc)s[q] & 127);
      if (r > max) return bad = true, false;
      if (!((uc)s[q] & 128)) { p = q + 1; *v = r; return true; }
    }
    return bad = true, false;
  }
};
const uint64_t I32 = 0x7FFFFFFF;
struct Opts { uint64_t max_file, max_window; bool allow_target; const Table* table; int near_n, same_n; Opts() : max_file(67108864), max_window(67108864), allow_target(true), table(0), near_n(4), same_n(3) {} };
struct Inst { int type; uint64_t size; int mode; int64_t addr; };
struct Window { size_t begin, end, out_begin, out_end; int ind; uint64_t seg_len, seg_pos; bool has_sum; uint32_t sum; bool interleaved; std::vector<Inst> insts; };
struct Result {
  bool ok; str why; str out; size_t consumed; std::vector<Window> windows; size_t header_end; bool custom;
  std::vector<size_t> boundaries;                // input offsets at which stopping is complete
  Result() : ok(false), consumed(0), header_end(0), custom(false) {}
};
inline Result fail(Result& r, const char* w) { r.ok = false; r.why = w; return r; }

// planned < 0: decode the whole input; otherwise stop as soon as exactly `planned` bytes have been produced (embedded table)
inline Result decode(const str& dict, const str& d, size_t pos, const Opts& o, long planned = -1) {
  Result r; Rd h(d, pos, d.size()); int b[5];
  if (planned < 0 && d.size() == pos) { r.ok = true; r.consumed = pos; return r; }
  for (int i = 0; i < 5; ++i) if (!h.byte(&b[i])) return fail(r, "short header");
  if (b[0] != 0xD6 || b[1] != 0xC3 || b[2] != 0xC4) return fail(r, "magic");
  if (b[3] != 0 && b[3] != 'S') return fail(r, "version");
  if (b[4] & 1) return fail(r, "secondary compressor");
  bool ext = b[3] == 'S';
  Table t = o.table ? *o.table : default_table(); int nn = o.near_n, ns = o.same_n;
  if (b[4] & 2) {
    if (planned >= 0) return fail(r, "custom table inside a custom table");
    uint64_t n, s;
    if (!h.varint(&n, I32) || !h.varint(&s, I32)) return fail(r, "cache sizes");
    if (n > 255 || s > 255) return fail(r, "cache size");
    Table def = default_table();
    Opts od;
    Result sub = decode(str((const char*)&def, sizeof def), d, h.p, od, sizeof(Table));
    if (!sub.ok) return fail(r, "embedded table");
    memcpy(&t, sub.out.data(), sizeof t);
    h.p = sub.consumed; nn = n; ns = s; r.custom = true;
    int mm = (2 + nn + ns - 1);
    if (nn + ns > 254) return fail(r, "too many modes");   // reported at the table or at the first window
    if (!valid_table(t, mm)) return fail(r, "invalid table");
  }
  r.header_end = h.p; r.boundaries.push_back(h.p); r.consumed = h.p;
  uint64_t total = 0; size_t p = h.p;
  while (true) {
    if (planned >= 0 && (long)total == planned && !r.windows.empty()) { r.ok = true; r.consumed = p; return r; }
    if (p == d.size()) { if (planned >= 0) return fail(r, "short embedded table"); r.ok = true; r.consumed = p; return r; }
    Rd w(d, p, d.size()); Window W; W.begin = p; W.seg_len = W.seg_pos = 0; W.out_begin = r.out.size();
    int ind; if (!w.byte(&ind)) return fail(r, "win");
    W.ind = ind;
    if ((ind & 3) == 3) return fail(r, "both sources");
    const str* src = 0;
    if (ind & 3) {
      if ((ind & 2) && !o.allow_target) return fail(r, "target not allowed");
      src = (ind & 1) ? &dict : &r.out;
      if (!w.varint(&W.seg_len, I32)) return fail(r, "seg len");
      if (W.seg_len > src->size()) return fail(r, "seg len > source");
      if (!w.varint(&W.seg_pos, I32)) return fail(r, "seg pos");
      if (W.seg_pos + W.seg_len > src->size()) return fail(r, "segment outside source");
    }
    str seg = src ? src->substr(W.seg_pos, W.seg_len) : str();
    uint64_t dl, tl, al, il, cl;
    if (!w.varint(&dl, I32)) return fail(r, "delta length");
    size_t ds = w.p;
    if (!w.varint(&tl, I32)) return fail(r, "target length");
    if (tl > o.max_window) return fail(r, "window limit");
    if (planned >= 0 && total + tl > (uint64_t)planned) return fail(r, "planned size exceeded");
    if (tl > o.max_file || total > o.max_file - tl) return fail(r, "file limit");
    int di; if (!w.byte(&di)) return fail(r, "delta indicator");
    if (di & 7) return fail(r, "compressed section");
    if (!w.varint(&al, I32) || !w.varint(&il, I32) || !w.varint(&cl, I32)) return fail(r, "section lengths");
    W.has_sum = ext && (ind & 4); W.sum = 0;
    if (W.has_sum) { uint64_t c; if (!w.varint(&c, 0xFFFFFFFFu)) return fail(r, "checksum field"); W.sum = (uint32_t)c; }
    if (dl != (w.p - ds) + al + il + cl) return fail(r, "delta length inconsistent");
    if (d.size() - w.p < al + il + cl) return fail(r, "truncated sections");
    bool inter = ext && al == 0 && cl == 0; W.interleaved = inter;
    size_t wend = w.p + al + il + cl;
    Rd ra(d, w.p, w.p + al), ri(d, w.p + al, w.p + al + il), rc(d, w.p + al + il, wend);
    Rd& A = inter ? ri : ra; Rd& C = inter ? ri : rc;
    Cache cache(nn, ns); str T;
    while (true) {
      if (T.size() == tl && ri.p == ri.e) break;
      int op; if (!ri.byte(&op)) return fail(r, "instructions run out");
      if (T.size() == tl) return fail(r, "excess instructions");
      for (int k = 0; k < 2; ++k) {
        int ty = k ? t.inst2[op] : t.inst1[op]; uint64_t sz = k ? t.size2[op] : t.size1[op]; int m = k ? t.mode2[op] : t.mode1[op];
        if (ty == NOOP) continue;
        if (k && T.size() == tl) return fail(r, "excess second instruction");
        if (sz == 0 && !ri.varint(&sz, I32)) return fail(r, "instruction size");
        if (T.size() + sz > tl) return fail(r, "instruction overruns target");
        Inst I; I.type = ty; I.size = sz; I.mode = m; I.addr = -1;
        if (ty == ADD) { if (A.e - A.p < sz) return fail(r, "ADD data"); T.append(d, A.p, sz); A.p += sz; }
        else if (ty == RUN) { int c; if (!A.byte(&c)) return fail(r, "RUN data"); T.append(sz, (char)c); }
        else {
          int64_t here = (int64_t)seg.size() + (int64_t)T.size(), a; uint64_t v; int c;
          if (m >= 2 + nn) { if (!C.byte(&c)) return fail(r, "address"); a = cache.same_[(m - 2 - nn) * 256 + c]; }
          else { if (!C.varint(&v, I32)) return fail(r, "address");
            a = m == 0 ? (int64_t)v : m == 1 ? here - (int64_t)v : cache.near_[m - 2] + (int64_t)v; }
          if (a < 0 || a >= here) return fail(r, "address out of range");
          cache.update(a); I.addr = a;
          for (uint64_t q = 0; q < sz; ++q) { uint64_t x = a + q; T.push_back(x < seg.size() ? seg[x] : T[x - seg.size()]); }
        }
        W.insts.push_back(I);
      }
      if (T.size() == tl && ri.p != ri.e) return fail(r, "excess instructions");
    }
    if (!inter && (ra.p != ra.e || rc.p != rc.e)) return fail(r, "excess data or addresses");
    if (W.has_sum && adler(T) != W.sum) return fail(r, "checksum");
    r.out += T; total += tl; p = wend;
    W.end = p; W.out_end = r.out.size(); r.windows.push_back(W); r.boundaries.push_back(p);
  }
}
inline Result decode(const str& dict, const str& d, const Opts& o = Opts()) { return decode(dict, d, 0, o, -1); }
}  // namespace ref
#endif
