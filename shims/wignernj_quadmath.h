#pragma once
#include <quadmath.h>
extern "C++" __float128 gaunt_q(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3);
