// Stand-in: any well-mixing hash does; only equality/determinism matter.
#ifndef SHIM_CITY_H_
#define SHIM_CITY_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
namespace third_party_cityhash {
typedef std::pair<uint64_t, uint64_t> uint128;
inline uint64_t ShimMix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27;
  x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x;
}
inline uint64_t CityHash64WithSeed(const char* d, size_t n, uint64_t seed) {
  uint64_t h = ShimMix(seed + 0x9e3779b97f4a7c15ULL + n);
  while (n >= 8) { uint64_t w; __builtin_memcpy(&w, d, 8); h = ShimMix(h ^ w) + 0x9e3779b97f4a7c15ULL; d += 8; n -= 8; }
  uint64_t w = 0; if (n) __builtin_memcpy(&w, d, n);
  return ShimMix(h ^ w);
}
inline uint128 CityHash128WithSeed(const char* d, size_t n, uint128 seed) {
  uint64_t a = CityHash64WithSeed(d, n, seed.first ^ ShimMix(seed.second));
  uint64_t b = CityHash64WithSeed(d, n, ShimMix(a) + seed.second * 3 + seed.first);
  return {a, b};
}
}
#endif
