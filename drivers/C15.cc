// C15 bounded stand-in / replay: JSON output parsed by an independent strict parser and replayed
#include "lib.h"
#include "google/jsonwriter.h"
using namespace lib;
struct J { const str& s; size_t p; str why; explicit J(const str& x) : s(x), p(0) {}
  bool bad(const char* w) { why = w; return false; }
  bool string(str* o) { if (p >= s.size() || s[p] != '"') return bad("string"); ++p;
    while (p < s.size() && s[p] != '"') { unsigned char c = s[p]; if (c < 32) return bad("raw control character in string"); if (c >= 128) return bad("raw non-ASCII byte in string");
      if (c != '\\') { o->push_back(c); ++p; continue; }
      if (++p >= s.size()) return bad("escape"); char k = s[p++];
      switch (k) { case '"': case '\\': case '/': o->push_back(k); break; case 'b': o->push_back('\b'); break; case 'f': o->push_back('\f'); break; case 'n': o->push_back('\n'); break; case 'r': o->push_back('\r'); break; case 't': o->push_back('\t'); break;
        case 'u': { if (p + 4 > s.size()) return bad("unicode escape"); int v = 0; for (int i = 0; i < 4; ++i) { char h = s[p++]; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) return bad("hex digit"); v = v * 16 + d; } if (v > 255) return bad("escape above one byte"); o->push_back((char)v); break; }
        default: return bad("unknown escape"); } }
    if (p >= s.size()) return bad("unterminated string"); ++p; return true; }
  bool number(uint64_t* v) { size_t b = p; *v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') *v = *v * 10 + (s[p++] - '0'); if (p == b || (s[b] == '0' && p > b + 1)) return bad("number"); return true; }
};
static bool replay(const str& dict, const str& js, str* out, str* why) {
  J j(js); str world = dict; *why = "";
  if (js.empty() || js[0] != '[') { *why = "does not start with ["; return false; } j.p = 1;
  bool first = true;
  while (true) {
    if (j.p < js.size() && js[j.p] == ']' && first) { ++j.p; break; }
    if (!first) { if (j.p >= js.size()) { *why = "array not closed"; return false; } if (js[j.p] == ']') { ++j.p; break; } if (js[j.p] != ',') { *why = "missing comma"; return false; } ++j.p; }
    first = false;
    if (j.p < js.size() && js[j.p] == '"') { str t; if (!j.string(&t)) { *why = j.why; return false; } world += t; }
    else { uint64_t o, l; if (!j.number(&o)) { *why = j.why; return false; } if (j.p >= js.size() || js[j.p] != ',') { *why = "copy offset without length"; return false; } ++j.p; if (!j.number(&l)) { *why = j.why; return false; }
      if (o >= world.size() && l) { *why = "copy offset beyond the data"; return false; } for (uint64_t k = 0; k < l; ++k) world.push_back(world[o + k]); }
  }
  if (j.p != js.size()) { *why = "trailing characters"; return false; }
  *out = world.substr(dict.size()); return true;
}
static bool prop(Ctx& x) {
  Rng& r = x.r; str dict, target; random_inputs(x, &dict, &target, r.chance(1, 2) ? 3 : 2); bool match = r.chance(1, 2); int flags = VCD_FORMAT_JSON | (r.chance(1, 4) ? VCD_FORMAT_CHECKSUM : 0) | (r.chance(1, 4) ? VCD_FORMAT_INTERLEAVED : 0);
  x.input("dictionary", dict); x.input("target", target); x.input("target matches", match);
  HashedDictionary hd(dict.data(), dict.size()); CHECK(hd.Init(), "Init"); VCDiffStreamingEncoder enc(&hd, flags, match);
  for (int round = 0; round < 3; ++round) {                   // the same encoder again, also with an empty target in between
    str t = round == 1 && r.chance(1, 2) ? str() : target; std::vector<size_t> c = gen::cuts(r, t.size()); if (c.size() > 60) c = whole(t.size());
    Sink s; size_t p = 0; CHECK(enc.StartEncodingToInterface(&s), "StartEncoding failed");
    for (size_t i = 0; i < c.size(); ++i) { Buf b(t.substr(p, c[i])); p += c[i]; CHECK(enc.EncodeChunkToInterface(b.p, b.n, &s), "EncodeChunk failed"); }
    CHECK(enc.FinishEncodingToInterface(&s), "FinishEncoding failed"); x.input("json", s.s);
    if (t.empty()) { CHECK(s.s.empty() || s.s == "[]", "empty target gave " << s.s); continue; }
    str out, why; CHECK(replay(dict, s.s, &out, &why), "round " << round << ": output is not the expected JSON: " << why); CHECK(out == t, "round " << round << ": JSON describes another target");
  }
  { // non-ASCII data is refused
    str bad = target.substr(0, 50) + (char)r.range(128, 255) + target.substr(0, 10); Sink s; VCDiffStreamingEncoder e2(&hd, VCD_FORMAT_JSON, match); CHECK(e2.StartEncodingToInterface(&s) && !e2.EncodeChunkToInterface(bad.data(), bad.size(), &s), "non-ASCII target accepted");
    HashedDictionary h2(bad.data(), bad.size()); CHECK(h2.Init(), "Init"); VCDiffStreamingEncoder e3(&h2, VCD_FORMAT_JSON, match); Sink s3; CHECK(!e3.StartEncodingToInterface(&s3), "non-ASCII dictionary accepted"); }
  { // the writer itself
    JSONCodeTableWriter w; Sink s; CHECK(w.Init(dict.size()), "writer Init"); str T; int n = r.range(1, 20);
    for (int i = 0; i < n; ++i) { size_t sz = r.range(1, 30);
      switch (r.below(3)) { case 0: { str a = gen::some_bytes(r, sz, 3); w.Add(a.data(), a.size()); T += a; break; } case 1: { char c = gen::some_char(r, 3); w.Run(sz, (unsigned char)c); T.append(sz, c); break; }
        default: if (!dict.empty()) { size_t o = r.below(dict.size()), l = std::min(sz, dict.size() - o); w.Copy((int32_t)o, l); T.append(dict, o, l); } } if (r.chance(1, 6) && i) w.Output(&s); }
    w.Output(&s); w.FinishEncoding(&s); x.input("writer json", s.s); str out, why; CHECK(replay(dict, s.s, &out, &why) && out == T, "writer output wrong: " << why); }
  return true;
}
DRIVER("C15", prop)
