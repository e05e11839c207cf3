// C04 bounded stand-in / replay: every two-chunk split and random splits against one-shot decoding
#include "lib.h"
using namespace lib;
static bool one(Ctx& x, const str& dict, const str& delta, const std::vector<size_t>& c, const DecOpts& q, const Out& whole_, const str& full, const char* what) {
  std::vector<str> after; Out o = decode_stream(dict, delta, c, q, &after);
  std::ostringstream cs; for (size_t i = 0; i < c.size() && i < 20; ++i) cs << c[i] << " ";
  CHECK(o.ok == whole_.ok, what << ": verdict " << o.ok << " but one-shot verdict " << whole_.ok << ", chunks " << cs.str());
  if (o.ok) CHECK(o.s == whole_.s, what << ": output differs from one-shot output, chunks " << cs.str());
  for (size_t i = 0; i < after.size(); ++i)
    CHECK(after[i].size() <= full.size() ? full.compare(0, after[i].size(), after[i]) == 0 : after[i].compare(0, full.size(), full) == 0, what << ": output after chunk " << i << " is not a prefix, chunks " << cs.str());
  return true;
}
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict = random_dict(r); gen::DeltaOpts o = random_delta_opts(r, r.chance(2, 3));
  o.max_target = 120; if (r.chance(3, 4)) o.custom = false; if (r.chance(1, 2)) { o.ext = true; o.interleave = 1; }
  gen::DeltaGen g(r, o, dict); str delta = g.make(); if (known_debug_exit(delta)) return true;
  DecOpts q; q.allow = r.chance(2, 3);
  x.input("dictionary", dict); x.input("delta", delta); x.input("allow target", q.allow);
  Out w = decode_stream(dict, delta, whole(delta.size()), q);
  // the longest output any prefix of the delta can produce: byte-at-a-time run
  std::vector<str> after; decode_stream(dict, delta, bytes(delta.size()), q, &after);
  str full = w.ok ? w.s : (after.empty() ? str() : after.back());
  if (!one(x, dict, delta, bytes(delta.size()), q, w, full, "byte at a time")) return false;
  size_t lim = delta.size() <= 260 ? delta.size() : 0;
  for (size_t k = 0; k <= lim; ++k) { std::vector<size_t> c; c.push_back(k); c.push_back(delta.size() - k); if (!one(x, dict, delta, c, q, w, full, "two chunks")) return false; }
  for (int k = 0; k < 6; ++k) if (!one(x, dict, delta, gen::cuts(r, delta.size()), q, w, full, "random chunks")) return false;
  return true;
}
DRIVER("C04", prop)
