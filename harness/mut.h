// Every mutating operation of the public interface, by number.
#pragma once
#include "vh.h"
constexpr uint32_t NMUT = 37;
// o: another number, i: a 64-bit integer, txt: a numeral, bin: bytes
struct Args { BigInteger o; int64_t i; const char * txt; unsigned char bin[5]; };
inline bool isDiv(uint32_t op) { return op == 3 || op == 4; }
inline BigInteger mutate(BigInteger & b, uint32_t op, Args & g) {
    BigInteger ret;
    switch (op) {
    case 0: b += g.o; break;
    case 1: b -= g.o; break;
    case 2: b *= g.o; break;
    case 3: b /= g.o; break;
    case 4: b %= g.o; break;
    case 5: b &= g.o; break;
    case 6: b |= g.o; break;
    case 7: b ^= g.o; break;
    case 8: b += g.i; break;
    case 9: b -= g.i; break;
    case 10: b *= -7; break;
    case 11: b /= -7; break;
    case 12: b %= -7; break;
    case 13: b &= g.i; break;
    case 14: b |= g.i; break;
    case 15: b ^= g.i; break;
    case 16: b <<= 5; break;
    case 17: b <<= 32; break;
    case 18: b <<= 69; break;
    case 19: b >>= 5; break;
    case 20: b >>= 32; break;
    case 21: b >>= 37; break;
    case 22: ++b; break;
    case 23: --b; break;
    case 24: ret = b++; break;
    case 25: ret = b--; break;
    case 26: b.negate(); break;
    case 27: b.abs(); break;
    case 28: b.notSelf(); break;
    case 29: b.notBits(); break;
    case 30: b = g.i; break;
    case 31: b.assign(g.i); break;
    case 32: b.assign(g.txt, 16); break;
    case 33: b.fromBinary(g.bin, 5); break;
    case 34: b = g.o; break;
    case 35: { BigInteger t(g.o); b = std::move(t); break; }
    default: { BigInteger t(g.o); std::swap(b, t); t += 1; break; }
    }
    return ret;
}
