/* Synthetic generators shared by the two harnesses: the value of draw number c
 * (from 0) after seeding with s is Mix(s,c) reduced to [min,max]; the Python
 * side (vf/synth.py) computes the same function. */
#include <stdint.h>
static inline uint32_t vf_mix(uint32_t s, uint32_t c)
{
  uint32_t x = s * 0x9E3779B9u + c * 0x85EBCA6Bu + 0x7F4A7C15u;
  x ^= x >> 16; x *= 0x7FEB352Du; x ^= x >> 15; x *= 0x846CA68Bu; x ^= x >> 16;
  return x;
}
static inline uint32_t vf_value(uint32_t min, uint32_t max, uint32_t mode, uint32_t s, uint32_t c)
{
  uint64_t span = (uint64_t)max - min + 1;
  switch (mode) {
    case 1: return (uint32_t)(min + c % span);            /* counter          */
    case 2: return max;                                   /* stuck at max     */
    case 3: return min;                                   /* stuck at min     */
    case 4: return (c & 1) ? max : min;                   /* alternating      */
    case 5: return (uint32_t)(min + (vf_mix(s, c / 7)) % span); /* repeats    */
    default: return (uint32_t)(min + vf_mix(s, c) % span);
  }
}
