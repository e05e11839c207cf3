// C13 bounded stand-in / replay: reported matches against brute force
#include "lib.h"
#include "blockhash.h"
#include "rolling_hash.h"
using namespace lib;
static size_t common(const char* a, size_t an, const char* b, size_t bn) { size_t i = 0; while (i < an && i < bn && a[i] == b[i]) ++i; return i; }
static bool prop(Ctx& x) {
  Rng& r = x.r; const int B = BlockHash::kBlockSize; static bool once = (RollingHash<BlockHash::kBlockSize>::Init(), true); (void)once;
  int alpha = r.below(3); str src = gen::some_bytes(r, gen::some_size(r, 2000), alpha), tgt = gen::target_from(r, src, gen::some_size(r, 2000), alpha);
  bool self = r.chance(1, 2); if (self) src = tgt;                // target hash: the source is the target itself
  int off = self ? r.below(100000) : 0; x.input("source", src); x.input("target", tgt); x.input("target hash", self);
  if ((int)tgt.size() < B) return true;
  Buf S(src), Tb(tgt); const char* sp = self ? Tb.p : S.p; BlockHash* owned = 0; const BlockHash* bh; size_t added = 0;
  if (self) { owned = BlockHash::CreateTargetHash(Tb.p, Tb.n, off); bh = owned; CHECK(bh, "CreateTargetHash"); }
  else { bh = BlockHash::CreateDictionaryHash(S.p, S.n); CHECK(bh, "CreateDictionaryHash"); added = S.n / B; }
  size_t cand = 0, start = 0; RollingHash<BlockHash::kBlockSize> hasher; int calls = 0; bool ok = true; std::ostringstream why;
  BlockHash::Match* keep = 0;
  while (cand + B <= tgt.size() && ok && ++calls < 500) {
    if (self) {
      size_t upto = cand;                                          // blocks wholly before the candidate, added by mixed methods
      if (r.chance(1, 3) && upto > added * B && upto <= Tb.n && (added == 0 || upto > (added - 1) * B)) { owned->AddAllBlocksThroughIndex((int)upto); size_t lim = upto > Tb.n - B ? Tb.n - B + 1 : upto; size_t nb = (lim + B - 1) / B; if (nb > added) added = nb; }
      else while (added * B + B <= upto && added < Tb.n / B && r.chance(2, 3)) { owned->AddOneIndexHash((int)(added * B), hasher.Hash(Tb.p + added * B)); ++added; }
    }
    BlockHash::Match m; size_t min_before = 0;
    uint32_t h = hasher.Hash(Tb.p + cand);
    bh->FindBestMatch(h, Tb.p + cand, Tb.p + start, Tb.n - start, &m);
    // brute force over indexed blocks equal to the candidate block
    size_t best = 0; int equal = 0, samehash = 0; size_t ts = Tb.n - start, to = cand - start;
    for (size_t b = 0; b < added; ++b) {
      if (b * B + B > src.size()) break;
      if (memcmp(sp + b * B, Tb.p + cand, B)) continue;
      ++equal; size_t so = b * B, l = 0; while (l < so && l < to && sp[so - l - 1] == Tb.p[cand - l - 1]) ++l;
      size_t rr = common(sp + so + B, src.size() - so - B, Tb.p + cand + B, Tb.n - cand - B); best = std::max(best, l + B + rr);
    }
    (void)samehash; (void)min_before;
    if (m.size() == 0) { if (equal && added <= 16) ok = false, why << "no match reported although block data occurs in the source"; }
    else {
      long so = m.source_offset() - off, tofs = m.target_offset();
      if (so < 0 || so + (long)m.size() > (long)src.size() || tofs < 0 || tofs + m.size() > ts) ok = false, why << "match outside its buffers: source " << so << " target " << tofs << " size " << m.size();
      else if (memcmp(sp + so, Tb.p + start + tofs, m.size())) ok = false, why << "reported match is not equal data";
      else if ((int)m.size() < B || tofs > (long)to || tofs + m.size() < to + B) ok = false, why << "match does not cover the candidate block";
      else if (self && so >= (long)(start + tofs)) ok = false, why << "target match does not precede the data it describes";
      else {
        if (so > 0 && tofs > 0 && sp[so - 1] == Tb.p[start + tofs - 1]) ok = false, why << "match could be extended to the left";
        if (so + m.size() < src.size() && tofs + m.size() < ts && sp[so + m.size()] == Tb.p[start + tofs + m.size()]) ok = false, why << "match could be extended to the right";
        if (added <= 16 && m.size() != best) ok = false, why << "best match has size " << best << ", reported " << m.size();
      }
      BlockHash::Match m2; m2.ReplaceIfBetterMatch(m.size(), 1, 2); bh->FindBestMatch(h, Tb.p + cand, Tb.p + start, Tb.n - start, &m2);
      if (m2.source_offset() != 1 || m2.size() != m.size()) ok = false, why << "an equally long match replaced the previous best";
    }
    if (!ok) { why << " (candidate at " << cand << ", window start " << start << ", blocks indexed " << added << ")"; break; }
    if (m.size() >= 32 && r.chance(2, 3)) { start = start + m.target_offset() + m.size(); cand = start; } else ++cand;
  }
  (void)keep; delete bh; if (!ok) return x.fail(why.str());
  return true;
}
DRIVER("C13", prop)
