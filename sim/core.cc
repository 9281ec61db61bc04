#include "core.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

namespace sim {

Run* g_run = nullptr;

std::string hex(const std::string& s) {
  static const char d[] = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}

static std::string vstrf(const char* fmt, va_list ap) {
  char buf[512];
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < (int)sizeof buf) {
    va_end(ap2);
    return std::string(buf, n < 0 ? 0 : n);
  }
  std::string s(n + 1, 0);
  vsnprintf(&s[0], n + 1, fmt, ap2);
  va_end(ap2);
  s.resize(n);
  return s;
}
std::string strf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vstrf(fmt, ap);
  va_end(ap);
  return s;
}

uint64_t hash_str(const std::string& s, uint64_t h) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 0x100000001b3ull;
  }
  return h;
}

std::string Plan::text() const {
  std::string s = "world " + world + "\nprofile " + profile + "\nseed " + std::to_string(seed) + "\n";
  for (const Op& o : ops) {
    s += o.k;
    for (int64_t v : o.a) {
      s += ' ';
      s += std::to_string(v);
    }
    s += '\n';
  }
  return s;
}

Plan Plan::parse(const std::string& text) {
  Plan p;
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) e = text.size();
    std::string line = text.substr(i, e - i);
    i = e + 1;
    if (line.empty() || line[0] == '#') continue;
    size_t sp = line.find(' ');
    std::string k = line.substr(0, sp);
    std::string rest = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (k == "world") {
      p.world = rest;
    } else if (k == "profile") {
      p.profile = rest;
    } else if (k == "seed") {
      p.seed = strtoull(rest.c_str(), nullptr, 10);
    } else {
      Op o;
      o.k = k;
      const char* c = rest.c_str();
      while (*c) {
        char* end;
        o.a.push_back(strtoll(c, &end, 10));
        if (end == c) break;
        c = end;
        while (*c == ' ') c++;
      }
      p.ops.push_back(std::move(o));
    }
  }
  return p;
}

void Run::log(const std::string& s) {
  sh->hash = hash_str(s + "\n", sh->hash);
  sh->events = sh->events + 1;
  if (verbose) {
    std::string l = s + "\n";
    if (write(1, l.data(), l.size()) < 0) {
    }
  }
}
void Run::logf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vstrf(fmt, ap);
  va_end(ap);
  log(s);
}

static void put(Shared* sh, const std::string& line) {
  uint32_t n = sh->textlen;
  if (n + line.size() + 1 >= kSharedText) return;
  memcpy(sh->text + n, line.data(), line.size());
  sh->textlen = n + line.size();
}

void Run::violate(const std::string& props, const std::string& cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string msg = vstrf(fmt, ap);
  va_end(ap);
  for (char& c : msg)
    if (c == '\n' || (unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
  if (msg.size() > 1500) msg.resize(1500);
  log("VIOLATION " + props + " " + cls + " " + msg);
  bool mine = target.empty() || (" " + props + " ").find(" " + target + " ") != std::string::npos;
  if (sh->nviol < 50 || mine) {
    put(sh, "V " + props + "|" + cls + "|" + std::to_string((long)sh->op) + "|" + msg + "\n");
    sh->nviol = sh->nviol + 1;
  }
  if (mine) hit_ = true;
}

void Run::flush() {
  uint32_t n = 0;
  for (uint64_t s : states)
    if (n < kMaxStates) sh->states[n++] = s;
  sh->nstates = n;
  for (auto& kv : stats) put(sh, "S " + kv.first + " " + std::to_string(kv.second) + "\n");
}

}  // namespace sim
