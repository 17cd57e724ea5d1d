// Several threads on one tokenizer: C23
#include "h_tok.cpp"
// ---------------------------------------------------------------- C23
#include "thr.h"
static void operation(Tokenizer &k, int op, const std::wstring &t, int id, Encoding &e, std::string &d) {
  if (op) d = k.decode({id, 15, 999}, op == 2);
  else e = k.encode(t, true);
}
// two operations on one tokenizer in two threads, after some history
static void concurrent(bool interleaved, int len, const std::vector<uint32_t> &al) {
  historyConfig(choose("config", 0, 4));
  noThrow("an operation threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer k("", js), fresh("", js), fresh2("", js);
    if (choose("warm", 0, 1)) k.encode(toW(symText("n", 1, len, al)), true);
    int op1 = choose("first", 0, interleaved ? 0 : 2), op2 = choose("second", 0, interleaved ? 1 : op1);
    std::wstring t1 = toW(op1 ? Text() : symText("n", interleaved ? 1 : 0, len, al)), t2 = toW(op2 ? Text() : symText("n", 1, len, al));
    int i1 = op1 ? symInt("id", 0, 6) : 0, i2 = op2 ? symInt("id", 0, 6) : 0;
    Encoding e1, e2, w1, w2;
    std::string d1, d2, v1, v2;
    auto first = [&] { operation(k, op1, t1, i1, e1, d1); };
    auto second = [&] { operation(k, op2, t2, i2, e2, d2); };
    if (interleaved) atLock(first, second);
    else twoThreads(first, second);
    operation(fresh, op1, t1, i1, w1, v1);
    operation(fresh2, op2, t2, i2, w2, v2);
    obsEnc(w1);
    obsEnc(w2);
    obs(v1);
    obs(v2);
    CHECK(sameAll(e1, w1) && sameStr(d1, v1), "an operation gives another result when another thread uses the tokenizer");
    CHECK(sameAll(e2, w2) && sameStr(d2, v2), "an operation gives another result when another thread uses the tokenizer");
    REACH("two operations");
  });
}
ENTRY(c23_race) { concurrent(false, TIER ? 3 : 2, {'a', 'b', ' '}); }
ENTRY(c23_race_wide) { concurrent(false, TIER ? 2 : 1, {'a', 0xE9, 0x1F620}); }
ENTRY(c23_interleaved) { concurrent(true, 2, TIER ? std::vector<uint32_t>{'a', 'b', ' '} : std::vector<uint32_t>{'a', 'b'}); }
ENTRY(c23_instances) {  // two tokenizers of one process, each used by one thread
  int i = choose("first", 0, 7), j = TIER ? choose("second", 0, 7) : i ^ choose("second", 0, 3);
  Text a = symText("n", 0, 2, {'a', ' ', 0xE9}), b = symText("n", 0, 2, {'a', ' ', 0xE9});
  noThrow("encoding threw", [&] {
    instanceConfig(i);
    Tokenizer x("", g_cfg.json());
    ETokens w = refEncode(a, g_pipe);
    instanceConfig(j);
    Tokenizer y("", g_cfg.json());
    Encoding e, f;
    std::string d, g;
    twoThreads([&] { e = x.encode(toW(a), true); d = x.decode({1, 2}, true); }, [&] { f = y.encode(toW(b), true); g = y.decode({1, 2}, true); });
    same(e, w);
    same(f, refEncode(b, g_pipe));
  });
}
