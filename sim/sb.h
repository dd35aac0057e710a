/* A StringBuilder beside its model: a list of byte strings. */
#pragma once
#include "engine.h"
#include "platform.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>

namespace sb {
using namespace sim;
typedef std::vector<std::string> Frags;

inline std::string flat(const Frags& f) {  std::string s;  for (auto& x : f) s += x;  return s;  }
inline std::string show(const std::string& s) {  return hex((const uint8_t*) s.data(), s.size(), 40);  }

struct Sb {
  StringBuilder* s = nullptr;
  Frags f;
  Sb() {  s = new StringBuilder();  }
  ~Sb() {  delete s;  }
  Sb(const Sb&) = delete;
  Sb& operator=(const Sb&) = delete;
  std::string text() const {  return flat(f);  }
  void squash() {  if (f.size() > 1) f = Frags{text()};  }
  Frags actual() {
    Frags a;
    int n = s->count();
    for (int i = 0; i < n; i++) {
      int len = -1;
      uint8_t* p = s->position(i, &len);
      a.push_back(std::string((const char*) p, len > 0 ? len : 0));
    }
    return a;
  }
};

// The object is compared with the model, through several of its faces.
inline void agree(Ctx& c, const char* what, int who, Sb& x) {
  if (c.failed()) return;
  Frags a = x.actual();
  std::string e = x.text();
  if (flat(a) != e) {  c.fail("content", "after %s, buffer %d holds [%s] rather than [%s]", what, who, show(flat(a)).c_str(), show(e).c_str());  return;  }
  if (a != x.f) {  c.fail("fragments", "after %s, buffer %d has %u fragments rather than %u, or cut elsewhere", what, who, (unsigned) a.size(), (unsigned) x.f.size());  return;  }
  if (x.s->length() != (int) e.size()) {  c.fail("length", "after %s, buffer %d says it holds %d of %u bytes", what, who, x.s->length(), (unsigned) e.size());  return;  }
  if (x.s->isEmpty() != e.empty()) {  c.fail("length", "after %s, isEmpty() of %u bytes is %d", what, (unsigned) e.size(), (int) x.s->isEmpty());  return;  }
  for (size_t i = 0; i < x.f.size(); i++) {
    const char* p = x.s->position((int) i);
    if (p[x.f[i].size()] != 0) {  c.fail("terminator", "after %s, fragment %u of buffer %d is not terminated: it reads [%s]", what, (unsigned) i, who, show(std::string(p, x.f[i].size() + 1)).c_str());  return;  }
  }
}
}
