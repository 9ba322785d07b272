// Offline stand-in for libwignernj: only the entry points HelFEM calls.
#pragma once
namespace wignernj {
template <typename T> T gaunt(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3);
}
