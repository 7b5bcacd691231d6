#ifndef VERIF_HOOK_HPP
#define VERIF_HOOK_HPP
#include <cstddef>
#include <cstdint>

// State of the collector hook declared by src/kernel/collector.cpp under MEEVAX_VERIF.
struct verif_gc
{
  static inline std::uint64_t requests = 0;   // allocation requests seen
  static inline std::uint64_t forced = 0;     // collections we forced
  static inline std::uint64_t period = 0;     // 0: never; N: every Nth request
  static inline std::uint64_t rng = 0;        // != 0: force with probability 1/period
  static inline std::uint64_t budget = ~0ull; // stop forcing after that many
  static inline std::uint64_t bytes = 0;
};

extern "C" inline auto meevax_verif_request(std::size_t n) noexcept -> bool
{
  ++verif_gc::requests;
  verif_gc::bytes += n;

  if (verif_gc::period == 0 or verif_gc::budget == 0)
  {
    return false;
  }

  bool now;

  if (verif_gc::rng)
  {
    auto & x = verif_gc::rng; // xorshift64
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    now = (x >> 11) % verif_gc::period == 0;
  }
  else
  {
    now = verif_gc::requests % verif_gc::period == 0;
  }

  if (now)
  {
    ++verif_gc::forced;
    --verif_gc::budget;
  }

  return now;
}

// An inline function is only emitted where it is used: force it.
extern "C" { [[gnu::used]] inline auto (*verif_hook_anchor)(std::size_t) noexcept -> bool = &meevax_verif_request; }
#endif
