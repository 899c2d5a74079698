// Environment of diff/ref.cpp when it is built on its own.
#include <cstdint>
#include "vc.h"
long long sim_time;
uint32_t vc_last_oracle_timer; uint32_t vc_oracle_pushes;
void push_oracle_timer(uint32_t v) { vc_last_oracle_timer = v; vc_oracle_pushes++; }
