// C16 decoders
#include "js.h"
#include "ref.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#ifndef TIER
#define TIER 0
#endif
typedef std::vector<std::string> Toks;
static bool sameToks(const Toks &a, const Toks &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & sameStr(a[i], b[i]);
  return r;
}
static std::string symTok(int lo, int hi, const std::vector<uint32_t> &al) {
  int n = choose("len", lo, hi);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)symPick("t", al));
  return s;
}
static bool startsWith(const std::string &s, const std::string &p) {
  if (s.size() < p.size()) return false;
  bool r = true;
  for (size_t i = 0; i < p.size(); i++) r = r & (s[i] == p[i]);
  return r;
}
static std::string refCleanup(std::string s) {
  static const char *sub[][2] = {{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}};
  for (auto &p : sub) s = refReplace(s, p[0], p[1]);
  return s;
}
static Toks refWordPiece(const Toks &t, const std::string &prefix, bool cleanup) {
  Toks r;
  for (size_t i = 0; i < t.size(); i++) {
    std::string x = t[i];
    if (i) x = startsWith(x, prefix) ? x.substr(prefix.size()) : " " + x;
    r.push_back(cleanup ? refCleanup(x) : x);
  }
  return r;
}
static void wordPiece(const Toks &t, const std::string &prefix, bool cleanup) {
  Toks r;
  noThrow("WordPiece decoding threw", [&] { r = WordPieceDecoder(prefix, cleanup).decode_chain(t); });
  obs(r);
  CHECK(sameToks(r, refWordPiece(t, prefix, cleanup)), "WordPiece decoding gives a different text");
}
ENTRY(c16_wordpiece) {
  static const char *pre[] = {"##", "#", ""};
  int p = choose("prefix", 0, 2);
  bool cl = choose("cleanup", 0, 1);
  Toks t;
  int n = choose("tokens", 0, 2);
  for (int i = 0; i < n; i++) t.push_back(i == 0 ? symTok(0, 2, {'#', 'a'}) : symTok(0, TIER ? 4 : 3, {'#', 'a', '.', ' ', '\''}));
  wordPiece(t, pre[p], cl);
  REACH("wordpiece");
}
ENTRY(c16_wordpiece_punct) {  // every single-character token after a word
  std::string s(1, (char)symInt("c", 1, 127));
  wordPiece({"a", s, "##" + s, "b" + s}, "##", true);
  REACH("punct");
}
ENTRY(c16_wordpiece_cleanup) {
  static const char *w[] = {"do", "not", "n't", "'m", "'s", "'ve", "'re", "'", " ", ".", "do not", "?", "!", ","};
  std::string x;
  int n = choose("words", 1, TIER ? 3 : 2);
  for (int i = 0; i < n; i++) x += (choose("space", 0, 1) ? " " : "") + std::string(w[choose("word", 0, 13)]);
  wordPiece({"a", x}, "##", true);
  REACH("cleanup");
}
ENTRY(c16_replace) {
  static const char *pat[] = {"a", "ab", "aa", "\xE2\x96\x81", ""};
  static const char *con[] = {"", "x", "ab", "aa"};
  int p = choose("pattern", 0, 4), c = choose("content", 0, 3);
  Toks t, want;
  int n = choose("tokens", 0, 2);
  for (int i = 0; i < n; i++) t.push_back(symTok(0, i == 0 ? (TIER ? 6 : 4) : 2, p == 3 ? std::vector<uint32_t>{0xE2, 0x96, 0x81, 'a'} : std::vector<uint32_t>{'a', 'b', 'c'}));
  for (auto &x : t) want.push_back(pat[p][0] ? refReplace(x, pat[p], con[c]) : x);
  Toks r;
  noThrow("Replace decoding threw", [&] { r = ReplaceDecoder(pat[p], con[c]).decode_chain(t); });
  obs(r);
  CHECK(sameToks(r, want), "Replace decoding gives different tokens");
  REACH("replace");
}
ENTRY(c16_fuse) {
  Toks t;
  std::string all;
  int n = choose("tokens", 0, 3);
  for (int i = 0; i < n; i++) {
    std::string s;
    int l = choose("len", 0, 2);
    for (int k = 0; k < l; k++) s.push_back((char)symInt("b", 0, 255));
    t.push_back(s);
    all += s;
  }
  Toks r;
  noThrow("Fuse decoding threw", [&] { r = FuseDecoder().decode_chain(t); });
  obs(r);
  CHECK(r.size() == 1 && sameStr(r[0], all), "Fuse does not join the tokens");
  REACH("fuse");
}
ENTRY(c16_strip) {
  static const char *con[] = {" ", "ab", "a"};
  int c = choose("content", 0, 2), a = choose("start", 0, 2), b = choose("stop", 0, 2);
  std::string s = symTok(0, TIER ? 6 : 5, c == 0 ? std::vector<uint32_t>{' ', 'x'} : std::vector<uint32_t>{'a', 'b'}), k = con[c], w = s;
  for (int i = 0; i < a && startsWith(w, k); i++) w = w.substr(k.size());
  for (int i = 0; i < b && w.size() >= k.size() && sameStr(w.substr(w.size() - k.size()), k); i++) w.resize(w.size() - k.size());
  Toks r;
  noThrow("Strip decoding threw", [&] { r = StripDecoder(k, a, b).decode_chain({s, "x"}); });
  obs(r);
  CHECK(sameToks(r, {w, "x"}), "Strip decoding gives different tokens");
  REACH("strip");
}
static int hexv(uint32_t c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : -1; }
static Toks refFallback(const Toks &t) {
  Toks r;
  std::string run;
  auto flush = [&] {
    Text cps;
    if (run.empty()) return;
    if (refDecode(run, cps)) r.push_back(run);
    else for (size_t i = 0; i < run.size(); i++) r.push_back("\xEF\xBF\xBD");
    run.clear();
  };
  for (auto &x : t) {
    bool is = x.size() == 6 && startsWith(x, "<0x") && x[5] == '>';
    int h = is ? hexv((unsigned char)x[3]) : -1, l = is ? hexv((unsigned char)x[4]) : -1;
    if (h >= 0 && l >= 0) { run.push_back((char)(h * 16 + l)); continue; }
    flush();
    r.push_back(x);
  }
  flush();
  return r;
}
static void fallback(const Toks &t) {
  Toks r;
  noThrow("ByteFallback decoding threw", [&] { r = ByteFallbackDecoder().decode_chain(t); });
  obs(r);
  CHECK(sameToks(r, refFallback(t)), "ByteFallback decoding gives different tokens");
}
ENTRY(c16_bytefallback) {
  Toks t;
  int n = choose("tokens", 0, TIER ? 4 : 3);
  for (int i = 0; i < n; i++) {
    if (choose("plain", 0, 1)) { t.push_back("a"); continue; }
    std::string s = "<0x00>";
    s[3] = (TIER ? "048BCDEF9f" : "48BCEFf8")[(int)__sym_int("hi", 0, TIER ? 9 : 6)];
    s[4] = (TIER ? "02Af" : "0f")[(int)__sym_int("lo", 0, TIER ? 3 : 1)];
    t.push_back(s);
  }
  fallback(t);
  REACH("fallback");
}
ENTRY(c16_bytefallback_form) {  // any two characters between <0x and >, and near misses
  std::string s = "<0x00>";
  s[3] = (char)symInt("h", 32, 126);
  s[4] = (char)symInt("l", 32, 126);
  int k = choose("shape", 0, 4);
  if (k == 1) s = s.substr(0, 5);
  if (k == 2) s += ">";
  if (k == 3) s[0] = (char)symInt("open", 32, 126);
  if (k == 4) s[5] = (char)symInt("close", 32, 126);
  fallback({s});
  REACH("form");
}
ENTRY(c16_sequence) {
  static const char *cfg[] = {"{\"type\":\"Replace\",\"pattern\":{\"String\":\"_\"},\"content\":\" \"}", "{\"type\":\"ByteFallback\"}", "{\"type\":\"Fuse\"}",
                              "{\"type\":\"Strip\",\"content\":\" \",\"start\":1,\"stop\":0}", "{\"type\":\"WordPiece\",\"prefix\":\"#\",\"cleanup\":true}", "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":true,\"use_regex\":true}", "{\"type\":\"CTC\"}"};
  int n = choose("members", 0, TIER ? 3 : 2);
  std::string js = "{\"type\":\"Sequence\",\"decoders\":[";
  std::vector<int> mem;
  for (int i = 0; i < n; i++) {
    mem.push_back(choose("member", 0, 6));
    js += (i ? "," : "") + std::string(cfg[mem[i]]);
  }
  js += "]}";
  static const char *tk[] = {"_a", "#.", "<0x41>", " ", "\xC4\xA0" "b"};
  Toks t, r, w;
  int m = choose("tokens", 0, 2);
  for (int i = 0; i < m; i++) t.push_back(tk[choose("tok", 0, 4)]);
  w = t;
  auto seq = fromJson(js, with_decoder);
  CHECK(seq != nullptr, "no sequence was built");
  if (!seq) return;
  noThrow("a decoder sequence threw", [&] { r = seq->decode_chain(t); });
  obs(r);
  for (int x : mem) {
    auto d = fromJson(cfg[x], with_decoder);
    CHECK((d == nullptr) == (x == 6), "a member was not built as configured");
    if (d) w = d->decode_chain(w);
  }
  CHECK(sameToks(r, w), "a sequence differs from its members in order");
  REACH("sequence");
}
// every decoder built from JSON behaves as its fields say
ENTRY(c16_json) {
  int k = choose("type", 0, 3);
  Toks t = {"a", "##b", "_c_", "  d ."}, w, r;
  std::string js;
  if (k == 0) {
    bool cl = choose("cleanup", 0, 1);
    js = std::string("{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":") + (cl ? "true" : "false") + "}";
    w = refWordPiece(t, "##", cl);
  } else if (k == 1) {
    js = "{\"type\":\"Replace\",\"pattern\":{\"String\":\"_\"},\"content\":\"x\"}";
    for (auto &x : t) w.push_back(refReplace(x, "_", "x"));
  } else if (k == 2) {
    int a = choose("start", 0, 2), b = choose("stop", 0, 1);
    js = "{\"type\":\"Strip\",\"content\":\" \",\"start\":" + std::to_string(a) + ",\"stop\":" + std::to_string(b) + "}";
    w = t;
    w[3] = w[3].substr(a);
    (void)b;
  } else {
    js = "{\"type\":\"ByteFallback\"}";
    w = t;
  }
  auto d = fromJson(js, with_decoder);
  CHECK(d != nullptr, "no decoder was built");
  if (!d) return;
  noThrow("decoding threw", [&] { r = d->decode_chain(t); });
  CHECK(sameToks(r, w), "a decoder built from JSON does not follow its fields");
  REACH("json");
}
ENTRY(c16_long) {  // many tokens, long tokens
  static const int N[] = {17, 130, 260};
  int k = choose("decoder", 0, 5), n = N[choose("n", 0, 2)];
  char c = (char)symPick("c", {'#', 'a', '.', ' '});
  Toks t, w, r;
  for (int i = 0; i < n; i++) t.push_back(std::string(i % 7 == 3 ? 40 : 1, "#a. '"[i * 5 / 3 % 5]) + "#_a");
  t[n / 2] += c;
  std::string big;
  for (int i = 0; i < n; i++) big += i % 3 == 1 ? " " : i % 5 == 2 ? "n't" : "do";
  t.push_back(big + c);
  REACH("long");
  if (k == 0) { wordPiece(t, "#", true); return; }
  if (k == 1) { wordPiece(t, "##", false); return; }
  noThrow("decoding threw", [&] {
    if (k == 2) {
      r = ReplaceDecoder("_", "xyz").decode_chain(t);
      for (auto &x : t) w.push_back(refReplace(x, "_", "xyz"));
    }
    if (k == 3) {
      r = FuseDecoder().decode_chain(t);
      w.emplace_back();
      for (auto &x : t) w[0] += x;
    }
    if (k == 4) {
      std::string s((size_t)n, ' ');
      r = StripDecoder(" ", n - 1, n / 2).decode_chain({s + c + s, s + "x"});
      w = {(c == ' ' ? "" : " " + std::string(1, c)) + std::string((size_t)(n - n / 2 + (c == ' ' ? 2 : 0)), ' '), " x"};
    }
    if (k == 5) {
      Toks b;
      for (int i = 0; i < n; i++) b.push_back(i % 60 == 59 ? std::string(1, c) : i % 2 ? "<0xA9>" : "<0xC3>");
      r = ByteFallbackDecoder().decode_chain(b);
      w = refFallback(b);
    }
  });
  obs(r);
  CHECK(sameToks(r, w), "decoding gives different tokens");
}
