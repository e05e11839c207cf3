// Thin helpers over the library's public API.
#ifndef VERIF_LIB_H
#define VERIF_LIB_H
#include "drv.h"
#include "google/vcencoder.h"
#include "google/vcdecoder.h"
#include "google/output_string.h"
#include "google/format_extension_flags.h"
namespace lib {
using namespace open_vcdiff;
// an output sink that refuses anything but appending
struct Sink : OutputStringInterface {
  str s; bool cleared; Sink() : cleared(false) {}
  OutputStringInterface& append(const char* p, size_t n) { s.append(p, n); return *this; }
  void clear() { cleared = true; s.clear(); }
  void push_back(char c) { s.push_back(c); }
  void ReserveAdditionalBytes(size_t n) { if (n < (1u << 26)) s.reserve(s.size() + n); }
  size_t size() const { return s.size(); }
};
// exact-size heap copies so that any over-read of a buffer is caught
struct Buf { char* p; size_t n; explicit Buf(const str& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } private: Buf(const Buf&); };
struct Out { bool ok; str s; };
inline Out decode_once(const str& dict, const str& delta) {
  Buf d(dict); VCDiffDecoder dec; Out o; o.ok = dec.Decode(d.p, d.n, delta, &o.s); return o;
}
struct DecOpts { long max_file, max_window; bool allow; DecOpts() : max_file(-1), max_window(-1), allow(true) {} };
inline void setup(VCDiffStreamingDecoder& v, const DecOpts& q) {
  v.SetAllowVcdTarget(q.allow);
  if (q.max_file >= 0) v.SetMaximumTargetFileSize(q.max_file);
  if (q.max_window >= 0) v.SetMaximumTargetWindowSize(q.max_window);
}
inline Out decode_stream(VCDiffStreamingDecoder& v, const str& dict, const str& delta, const std::vector<size_t>& cuts, std::vector<str>* after = 0) {
  Buf d(dict); Sink s; Out o; o.ok = true; size_t p = 0;
  v.StartDecoding(d.p, d.n);
  for (size_t i = 0; i < cuts.size() && o.ok; ++i) {
    Buf c(delta.substr(p, cuts[i])); p += cuts[i];
    o.ok = v.DecodeChunkToInterface(c.p, c.n, &s);
    if (after) after->push_back(s.s);
  }
  if (o.ok) o.ok = v.FinishDecoding();
  else { bool f = v.FinishDecoding(); if (f) o.ok = true; }     // Finish after a failed chunk must fail too
  if (s.cleared) o.ok = false;
  o.s = s.s; return o;
}
inline Out decode_stream(const str& dict, const str& delta, const std::vector<size_t>& cuts, const DecOpts& q = DecOpts(), std::vector<str>* after = 0) {
  VCDiffStreamingDecoder v; setup(v, q); return decode_stream(v, dict, delta, cuts, after);
}
inline Out encode_stream(const HashedDictionary& hd, const str& target, const std::vector<size_t>& cuts, int flags, bool match, std::vector<size_t>* ends = 0) {
  VCDiffStreamingEncoder e(&hd, flags, match); Sink s; Out o; size_t p = 0;
  o.ok = e.StartEncodingToInterface(&s); if (ends) ends->push_back(s.s.size());
  for (size_t i = 0; i < cuts.size() && o.ok; ++i) { Buf c(target.substr(p, cuts[i])); p += cuts[i]; o.ok = e.EncodeChunkToInterface(c.p, c.n, &s); if (ends) ends->push_back(s.s.size()); }
  if (o.ok) o.ok = e.FinishEncodingToInterface(&s);
  o.s = s.s; return o;
}
// Known finding (pinned by the repository's own death tests): a debug build deliberately exits on a header whose
// custom cache sizes are out of range.  Inputs of exactly that shape are left out.
inline bool known_debug_exit(const str& d) {
  if (d.size() < 6 || d.compare(0, 3, "\xD6\xC3\xC4") != 0 || (d[3] != 0 && d[3] != 'S') || (d[4] & 1) || !(d[4] & 2)) return false;
  ref::Rd h(d, 5, d.size()); uint64_t n = 0, s = 0;
  return h.varint(&n, ref::I32) && h.varint(&s, ref::I32) && (n > 255 || s > 255 || n + s > 254);
}
inline std::vector<size_t> whole(size_t n) { return std::vector<size_t>(1, n); }
inline std::vector<size_t> bytes(size_t n) { return std::vector<size_t>(n ? n : 1, n ? 1 : 0); }
inline void random_inputs(Ctx& x, str* dict, str* target, int alpha = -1, size_t capd = 5000, size_t capt = 6000) {
  Rng& r = x.r; int a = alpha < 0 ? (int)r.below(3) : alpha;
  *dict = gen::some_bytes(r, gen::some_size(r, capd), a);
  *target = gen::target_from(r, *dict, gen::some_size(r, capt), a);
}
// now and then, sizes at which the length of a base-128 integer changes (2^7, 2^14, 2^21)
inline void boundary_inputs(Ctx& x, str* dict, str* target) {
  Rng& r = x.r; int k = r.below(20) == 0 ? 21 : r.below(2) ? 14 : 7; size_t n = ((size_t)1 << k) + r.range(0, 24) - 12;
  if (r.below(3) == 0) n = ((size_t)1 << k);
  str* a = r.below(3) ? target : dict; str* b = a == target ? dict : target;
  *a = gen::some_bytes(r, n, r.below(3)); *b = r.below(2) ? gen::some_bytes(r, gen::some_size(r, 300), 0) : str("x");
}
inline gen::DeltaOpts random_delta_opts(Rng& r, bool perturb) {
  gen::DeltaOpts o; o.ext = r.chance(2, 3); o.custom = r.chance(1, 3); o.allow_target = true; o.perturb = perturb; o.max_windows = r.range(1, 3); o.max_target = r.chance(1, 10) ? 20000 : 400; o.alpha = r.below(3); return o;
}
inline str random_dict(Rng& r) { return gen::some_bytes(r, gen::some_size(r, 3000), r.below(3)); }
}  // namespace lib
#endif
