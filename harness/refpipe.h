// Reference definition of a whole pipeline, and the tokenizer configurations it describes.
#pragma once
#include "enc.h"
#include "js.h"
#include "refadd.h"
#include "refmodel.h"
#include "refpre.h"
#include "tokenizers/tokenizer.h"
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
  return o + "\"";
}
static std::string jbool(bool b) { return b ? "true" : "false"; }
static std::string jvocab(const Entries &e) {
  std::string o = "{";
  for (auto &p : e) o += (o.size() > 1 ? "," : "") + jstr(p.first) + ":" + std::to_string(p.second);
  return o + "}";
}
struct Config {
  std::string trunc = "null", pad = "null", added = "null", norm = "null", pre = "null", model = "null", post = "null", dec = "null";
  std::string json() const {
    return "{\"version\":\"1.0\",\"truncation\":" + trunc + ",\"padding\":" + pad + ",\"added_tokens\":" + added + ",\"normalizer\":" + norm + ",\"pre_tokenizer\":" + pre + ",\"post_processor\":" + post + ",\"decoder\":" + dec + ",\"model\":" + model + "}";
  }
};
static std::string jadded(const ATokens &ts) {
  std::string o = "[";
  for (auto &k : ts)
    o += (o.size() > 1 ? "," : "") + std::string("{\"id\":") + std::to_string(k.id) + ",\"content\":" + jstr(toU8(k.content)) + ",\"single_word\":" + jbool(k.single) + ",\"lstrip\":" + jbool(k.lstrip) + ",\"rstrip\":" + jbool(k.rstrip) + ",\"normalized\":" + jbool(k.norm) + ",\"special\":" + jbool(k.special) + "}";
  return o + "]";
}
enum { NOPRE, BERTPRE, BYTES, BYTESRX, BYTESPFX, WSPRE };
static const char *PREJSON[] = {"null", "{\"type\":\"BertPreTokenizer\"}", "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":false}",
                                "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":true}", "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":true,\"use_regex\":true}",
                                "{\"type\":\"Split\",\"pattern\":{\"Regex\":\"\\\\s+\"},\"behavior\":\"Removed\",\"invert\":false}"};
struct ETok { int id; std::string v; int a, b, word; };
typedef std::vector<ETok> ETokens;
struct Pipe {
  NormFn nf = [](const RT &r) { return r; };
  int pre = NOPRE;
  std::function<Toks(const Text &)> model;
  ATokens added;  // with the ids they get
  bool hasAdded = false;
};
// the tokens of the text, with the part of the original text each stands for
static ETokens refEncode(const Text &t, const Pipe &p) {
  RT text;
  std::vector<XPiece> ps;
  if (p.hasAdded) {
    Extract x = refExtract(t, p.added, p.nf);
    text = x.text;
    ps = x.pieces;
  } else {
    text = p.nf(ident(t));
    ps = {{0, (int)text.size(), -1}};
  }
  if (p.pre == BYTESPFX) {
    RT n;
    for (auto &x : ps) {
      int a = (int)n.size();
      if (x.id < 0 && x.a < x.b && !ws(text[x.a].c)) n.push_back({' ', text[x.a].a, text[x.a].b});
      n.insert(n.end(), text.begin() + x.a, text.begin() + x.b);
      x.a = a;
      x.b = (int)n.size();
    }
    text = n;
  }
  Text chars = textOf(text);
  ETokens out;
  int word = 0;
  for (auto &x : ps) {
    if (x.id >= 0) {
      out.push_back({x.id, sub(chars, x.a, x.b), text[x.a].a, text[x.b - 1].b, word++});
      continue;
    }
    RPieces q = {{x.a, x.b, false}};
    if (p.pre == BERTPRE) q = refBertPre(chars, q);
    if (p.pre == BYTESRX || p.pre == BYTESPFX) q = refSplit(chars, q, gpt2, ISO, false);
    if (p.pre == BYTES && x.a == x.b) q.clear();
    if (p.pre == WSPRE) q = refSplit(chars, q, [](const Text &t, int i, int e) { return runOf(t, i, e, ws); }, REM, false);
    for (auto &y : q) {
      Text w(chars.begin() + y.a, chars.begin() + y.b);
      std::vector<int> of;  // the character of the text behind each character the model sees
      if (p.pre == BYTES || p.pre == BYTESRX || p.pre == BYTESPFX) {
        Text bw;
        for (size_t i = 0; i < w.size(); i++)
          for (unsigned char b : sub(w, (int)i, (int)i + 1)) { bw.push_back(refByteChar(b)); of.push_back(y.a + (int)i); }
        w = bw;
      } else for (int i = y.a; i < y.b; i++) of.push_back(i);
      for (auto &k : p.model(w)) out.push_back({k.id, k.v, k.a < k.b ? text[of[k.a]].a : 0, k.a < k.b ? text[of[k.b - 1]].b : 0, word});
      word++;
    }
  }
  return out;
}
