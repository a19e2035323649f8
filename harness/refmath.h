// Independent executable model of the library's fixed-point rounding and
// saturation rules, on wide integers.
#pragma once
#include <cstdint>
#include <cmath>
typedef __int128 i128;

#ifdef ROUND_MODE_CONVERGENT
constexpr bool kConvergent = true;
#else
constexpr bool kConvergent = false;
#endif
#ifdef FULL_ACCU
constexpr bool kFullAccu = true;
#else
constexpr bool kFullAccu = false;
#endif

namespace rm {
inline i128 satw(i128 x, int w) {
    i128 hi = ((i128)1 << (w - 1)) - 1, lo = -((i128)1 << (w - 1));
    return x > hi ? hi : x < lo ? lo : x;
}
inline i128 fl(i128 x, int s) { return s > 120 ? (x < 0 ? -1 : 0) : x >> s; }  // floor division
// shift left inside a w-bit container, saturating
inline i128 shl(i128 x, int s, int w) {
    if (x == 0) return 0;
    if (s > w - 1) return x > 0 ? satw((i128)1 << 100, w) : satw(-((i128)1 << 100), w);
    return satw(x << s, w);
}
// rounding right shift of a value held in a w-bit container (negative: left shift)
inline i128 rshr(i128 x, int s, int w) {
    if (s < 0) return shl(x, -s, w);
    if (s == 0) return x;
    if (s > w - 1) return 0;
    if (kConvergent) {
        i128 q = x >> s, rem = x - (q << s), half = (i128)1 << (s - 1);
        if (rem > half || (rem == half && (q & 1))) q = satw(q + 1, w);
        return q;
    }
    return satw(x + ((i128)1 << (s - 1)), w) >> s;
}
// plain arithmetic (flooring) right shift in a container
inline i128 sra(i128 x, int s, int w) {
    if (s < 0) return shl(x, -s, w);
    if (s > w - 1) return x < 0 ? -1 : 0;
    return x >> s;
}
inline i128 cast(i128 x, int s, int w_in, int w_out) { return satw(rshr(x, s, w_in), w_out); }
// number of redundant sign bits
inline int norm(int64_t x, int w) {
    if (x == 0) return w - 1;
    int n = 0;
    int64_t hi = x < 0 ? -1 : 0;
    while ((x >> n) != hi) n++;
    return w - 1 - n;
}
}  // namespace rm
