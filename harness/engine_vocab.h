// The vocabulary the engine-level checks type with.
#ifndef ENGINE_VOCAB_H_
#define ENGINE_VOCAB_H_
#include "engine_model.h"
// Syllables 0..3 and the keys that type them (Standard layout).
static const char* kTyped[] = {"18 ", "q83", "a8 ", "z84"};
static const char* kSyl[] = {"ㄅㄚ", "ㄆㄚˇ", "ㄇㄚ", "ㄈㄚˋ"};
static std::vector<Ev> typed(size_t s) {
  std::vector<Ev> r;
  for (const char* p = kTyped[s]; *p; ++p) r.push_back(*p == ' ' ? SPACE : charKey(*p));
  return r;
}
// Scores are distinct, below -8 (nothing is learned) and tie-free.
static Vocab editorVocab() {
  Vocab v;
  std::string A = kSyl[0], B = kSyl[1], C = kSyl[2], D = kSyl[3];
  v.add(A, "八", -9.01);
  v.add(A, "巴", -9.52);
  v.add(B, "爬", -9.13);
  v.add(B, "𠀋", -9.77);
  v.add(C, "媽", -9.29);
  v.add(D, "法", -9.41);
  v.add(D, "髮", -10.03);
  v.add(A + "-" + B, "巴爬", -14.07);
  v.add(A + "-" + B, "霸怕", -15.31);
  v.add(B + "-" + C, "趴", -15.61);            // fewer characters than syllables
  v.add(C + "-" + A, "𡃁𡃂", -16.83);          // 4-byte characters
  v.add(A + "-" + B + "-" + C, "甲乙丙", -23.9);
  v.add(B + "-" + D, "丁戊己", -17.3);         // more characters than syllables
  v.add("_punctuation_<", "，", -8.11);
  v.add("_punctuation_Standard_>", "。", -8.13);
  return v;
}
#endif
