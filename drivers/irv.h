// extern hooks the verifier interprets (never linked)
#pragma once
#include <cstddef>
extern "C" {
void irv_ensure(int tag, ...);
void irv_havoc(void *p);
void irv_stop();
long irv_long(int tag);
double irv_double(int tag);
}
