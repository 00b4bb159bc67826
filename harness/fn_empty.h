#pragma once
#include <embedded/function.h>
using FI = embedded::function<int(int), 32>;
struct Host { int get(int x) { return x + 1; } };
void tu2_make(FI& f, int kind);
bool tu2_full(FI const& f);
FI tu2_move(FI& f);
int tu2_call(FI& f, int x);
