// What simulated threads do with the library (threads_body.cc is instrumented
// like the library itself).
#pragma once
#include <stdint.h>

#include <string>
#include <vector>

namespace sim {

struct TDoc {
  int api;  // 0 createFrom JWKS, 1 createFrom PEM, 2 createFromPem
  std::string text, kid, alg;
};
struct TInput {
  bool cold = false;
  std::vector<TDoc> docs;
  std::vector<std::string> toks;
  std::vector<std::vector<std::string>> auds;
  uint64_t now = 0;
};
struct TOp {
  int t, kind;
  uint64_t a, b, c;
};
constexpr int kKinds = 14;
constexpr int kPublish = 10, kCurrent = 9;

struct Body;
struct BodyThread;
Body* body_new(const TInput* in);
std::string body_shared_digest(Body*);
BodyThread* body_thread_new();
void body_thread_free(BodyThread*);
std::string body_op(Body*, BodyThread*, const TOp&, int* version);
std::string body_verdict(Body*, uint64_t tok, uint64_t doc);
int body_doc_count(Body*);
uint64_t body_tok(Body*, uint64_t i);
const char* body_kind_name(int kind);

}  // namespace sim
