// second translation unit of the emptiness monitor
#include <utility>
#include <embedded/function.h>
#include "fn_empty.h"
void tu2_make(FI& f, int kind) {
  switch (kind) {
  case 0: f = FI(); break;
  case 1: f = nullptr; break;
  case 2: f = [](int x) { return x + 1; }; break;
  case 3: f = static_cast<int (Host::*)(int)>(nullptr) == nullptr ? FI() : FI([](int x) { return x; }); break;
  default: { FI t([](int x) { return x + 1; }); FI u(std::move(t)); f = std::move(t); } break;
  }
}
bool tu2_full(FI const& f) { return static_cast<bool>(f); }
FI tu2_move(FI& f) { return FI(std::move(f)); }
int tu2_call(FI& f, int x) { return f(x); }
