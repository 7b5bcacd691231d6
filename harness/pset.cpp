/*
   pset <seed> <operations per session> <sessions>

   Random histories of the collector's address set against std::set. Every
   answer is compared as it is given. Prints one JSON line of counters, or
   "FAIL <what>" and exits 1.
*/
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <meevax/memory/pointer_set.hpp>

#include <verif_hook.hpp>

using namespace meevax;

struct alignas(8) cell { void * p; };

struct alignas(16) wide { void * p[2]; };

static std::uint64_t operations = 0, traversed = 0, emptied = 0, sessions_run = 0, lower_bounds = 0, backward = 0, swaps = 0, inserted = 0, erased = 0, largest = 0;

static std::unordered_set<std::uint64_t> states;

static std::deque<std::string> recent;

static char const* kind = "";

static std::uint64_t the_seed = 0;

static auto note(char const* what, std::uintptr_t x = 0) -> void
{
  ++operations;
  char buffer[96];
  std::snprintf(buffer, sizeof buffer, "%s %#lx", what, x);
  recent.emplace_back(buffer);

  if (40 < recent.size())
  {
    recent.pop_front();
  }
}

[[noreturn]] static auto fail(std::string const& why) -> void
{
  std::printf("FAIL set=%s seed=%lu %s; last operations:", kind, the_seed, why.c_str());

  for (auto const& each : recent)
  {
    std::printf(" [%s]", each.c_str());
  }

  std::printf("\n");
  std::fflush(stdout);
  std::_Exit(1);
}

template <typename T, std::size_t... Es>
struct session
{
  using set = pointer_set<T, Es...>;

  static constexpr std::size_t bits = (Es + ...); // of the canonical address

  static constexpr std::uintptr_t align = std::uintptr_t(1) << compressible_bitwidth_of<T>;

  static constexpr std::uintptr_t limit = std::uintptr_t(1) << bits;

  std::mt19937_64 r;

  std::unique_ptr<set> s = std::make_unique<set>(), other = std::make_unique<set>();

  std::set<std::uintptr_t> m, n;

  std::vector<std::uintptr_t> centers;

  explicit session(std::uint64_t seed)
    : r { seed }
  {
    static constexpr std::size_t es[] = { Es... };

    auto leaf = std::uintptr_t(1) << es[sizeof...(Es) - 1];
    auto mid = leaf << es[sizeof...(Es) - 2];

    auto add = [&](std::uintptr_t x) { centers.push_back(x & (limit - 1) & ~(align - 1)); };

    add(0);
    add(limit - align);

    for (auto k = 0; k < 5; ++k)
    {
      auto base = r() & (limit - 1);

      switch (r() % 7)
      {
      case 0: add(base); break;
      case 1: add(base / (64 * align) * (64 * align)); break;            // word
      case 2: add(base / (leaf * align) * (leaf * align)); break;        // leaf page, whatever the shift is
      case 3: add(base / leaf * leaf); break;
      case 4: add(base / mid * mid); break;
      case 5: add(base / (mid * align) * (mid * align)); break;
      case 6: add(limit - 1 - base % (leaf * 4)); break;
      }
    }

    centers.resize(1 + r() % centers.size());
    std::shuffle(centers.begin(), centers.end(), r);
  }

  auto address() -> std::uintptr_t
  {
    auto c = centers[r() % centers.size()];

    std::int64_t d;

    switch (r() % 6)
    {
    case 0: d = 0; break;
    case 1: d = std::int64_t(r() % 5) - 2; break;
    case 2: d = std::int64_t(r() % 160) - 80; break;
    case 3: d = (std::int64_t(r() % 9) - 4) * 64 + std::int64_t(r() % 3) - 1; break;
    case 4: d = (std::int64_t(r() % 5) - 2) * 65536 + std::int64_t(r() % 3) - 1; break;
    default: d = std::int64_t(r() % 4000) - 2000; break;
    }

    return (c + std::uintptr_t(d) * align) & (limit - 1) & ~(align - 1);
  }

  static auto pointer(std::uintptr_t x) { return reinterpret_cast<T>(x); }

  auto insert(std::uintptr_t x) -> void
  {
    note("insert", x);
    s->insert(pointer(x));
    m.insert(x);
    ++inserted;
  }

  auto erase(std::uintptr_t x) -> void
  {
    note("erase", x);
    s->erase(pointer(x));
    m.erase(x);
    ++erased;
    emptied += m.empty();
  }

  template <typename I>
  auto equal(I const& i, std::set<std::uintptr_t>::const_iterator const& j, char const* what) -> void
  {
    if (static_cast<bool>(i) != (j != m.end()))
    {
      fail(std::string(what) + (i ? ": valid iterator at the end of the set" : ": end reached before the end of the set"));
    }

    if (i and reinterpret_cast<std::uintptr_t>(*i) != *j)
    {
      char buffer[128];
      std::snprintf(buffer, sizeof buffer, ": got %#lx expected %#lx", reinterpret_cast<std::uintptr_t>(*i), *j);
      fail(what + std::string(buffer));
    }
  }

  auto bound(std::uintptr_t x) -> void
  {
    note("lower_bound", x);
    ++lower_bounds;

    auto i = s->lower_bound(pointer(x));
    auto j = m.lower_bound(x);
    equal(i, j, "lower_bound");

    if (i != s->lower_bound(pointer(x)) or not (i == s->lower_bound(pointer(x))))
    {
      fail("equal iterators compare different");
    }

    if ((i == s->end()) != (j == m.end()) or (i != s->end()) != (j != m.end()))
    {
      fail("comparison of an iterator with the end");
    }

    // what is_root does: the element at or after, then the one before
    auto p = i;

    if (j == m.begin())
    {
      --p;

      if (p)
      {
        fail("an element before the first");
      }
    }
    else
    {
      --p;
      equal(p, std::prev(j), "element before the lower bound");
      ++p;
      equal(p, j, "element after the element before the lower bound");
    }
    ++backward;

    for (auto k = r() % 5; k--;)
    {
      if (j == m.end())
      {
        break;
      }

      ++i, ++j;
      note("++");
      equal(i, j, "successor");

      if (r() % 3 == 0)
      {
        auto b = i;
        --b;
        equal(b, std::prev(j), "predecessor of the successor");
      }
    }
  }

  auto range(std::uintptr_t a, std::uintptr_t b) -> void // what mark does
  {
    if (b < a)
    {
      std::swap(a, b);
    }

    note("range from", a);
    note("range to", b);

    auto j = m.lower_bound(a);
    auto e = s->lower_bound(pointer(b));
    auto k = std::size_t(0);

    for (auto i = s->lower_bound(pointer(a)); i != e; ++i, ++j)
    {
      if (j == m.end() or *j >= b or reinterpret_cast<std::uintptr_t>(*i) != *j)
      {
        fail("traversal of a range");
      }

      if (m.size() < ++k)
      {
        fail("traversal of a range does not end");
      }
    }

    traversed += k;

    if (j != m.lower_bound(b))
    {
      fail("traversal of a range misses elements");
    }
  }

  auto whole() -> void
  {
    note("traverse");

    auto j = m.begin();

    for (auto x : *s)
    {
      if (j == m.end())
      {
        fail("traversal visits too many elements");
      }

      if (reinterpret_cast<std::uintptr_t>(x) != *j)
      {
        fail("traversal visits a wrong element");
      }

      ++j;
      ++traversed;
    }

    if (j != m.end())
    {
      fail("traversal misses elements");
    }

    // and backwards, from an end reached by incrementing, and from end()
    auto i = s->end();

    for (auto k = m.rbegin(); k != m.rend(); ++k)
    {
      --i;

      if (not i or reinterpret_cast<std::uintptr_t>(*i) != *k)
      {
        fail("backward traversal");
      }

      ++traversed;
    }

    if (--i)
    {
      fail("backward traversal goes past the beginning");
    }

    if (not m.empty())
    {
      auto l = s->lower_bound(pointer(*m.rbegin()));
      ++l;

      if (l)
      {
        fail("an element after the last");
      }

      --l;

      if (not l or reinterpret_cast<std::uintptr_t>(*l) != *m.rbegin())
      {
        fail("decrement of an iterator that reached the end");
      }
    }

    std::uint64_t h = 1469598103934665603u;

    for (auto x : m)
    {
      h = (h ^ x) * 1099511628211u;
    }

    states.insert(h);
  }

  auto sizes() -> void
  {
    if (s->size() != m.size() or s->empty() != m.empty())
    {
      fail("size " + std::to_string(s->size()) + " expected " + std::to_string(m.size()));
    }

    if ((s->begin() == s->end()) != m.empty())
    {
      fail("begin and end");
    }

    largest = std::max<std::uint64_t>(largest, m.size());
  }

  auto run(std::size_t count) -> void
  {
    ++sessions_run;
    auto target = std::size_t(1) << (r() % 11);

    for (std::size_t k = 0; k < count; ++k)
    {
      auto x = address();

      switch (r() % 16)
      {
      case 0: case 1: case 2: case 3: case 4:
        if (m.size() < target * 2)
        {
          if (not m.contains(x)) insert(x);
          break;
        }
        [[fallthrough]];

      case 5: case 6: case 7: // removal, of something near x
        if (auto j = m.lower_bound(x); j != m.end() or (j = m.begin()) != m.end()) erase(*j);
        break;

      case 8: case 9:
        note("contains", x);
        if (s->contains(pointer(x)) != m.contains(x)) fail("contains");
        break;

      case 10: case 11: case 12:
        bound(x);
        break;

      case 13:
        range(x, r() % 2 ? address() : (x + (r() % 12) * 8) & (limit - 1) & ~(align - 1));
        break;

      case 14:
        if (r() % 8 == 0) whole();
        break;

      case 15:
        switch (r() % 24)
        {
        case 0: // what collect does: move some elements to a fresh set, drop the rest, swap
          {
            note("collect");
            other = std::make_unique<set>();
            n.clear();

            for (auto a : m)
            {
              if (r() % 2)
              {
                other->insert(pointer(a));
                s->erase(pointer(a));
                n.insert(a);
              }
            }

            for (auto a : n)
            {
              m.erase(a);
            }

            whole();
            sizes();
            s->swap(*other);
            std::swap(m, n);
            ++swaps;
            whole();
          }
          break;

        case 1: // what clear does: erase each element while it is visited
          note("clear");

          for (auto a : *s)
          {
            s->erase(a);

            if (not m.erase(reinterpret_cast<std::uintptr_t>(a)))
            {
              fail("clearing visits a wrong element");
            }
          }

          if (not m.empty())
          {
            fail("clearing misses elements");
          }

          ++emptied;
          break;

        case 2: // dense run
          for (auto c = r() % 300; c--; x = (x + align) & (limit - 1))
          {
            if (not m.contains(x)) insert(x);
          }
          break;

        case 3:
          target = std::size_t(1) << (r() % 11);
          break;

        default:
          break;
        }
        break;
      }

      sizes();
    }

    whole();
  }
};

template <typename T, std::size_t... Es>
auto run(char const* name, std::uint64_t seed, std::size_t count, std::size_t times) -> void
{
  kind = name;

  for (std::size_t k = 0; k < times; ++k)
  {
    the_seed = seed + k * 1000003;
    recent.clear();
    auto s = std::make_unique<session<T, Es...>>(the_seed);
    s->run(count);
  }
}

auto main(int argc, char const* const* argv) -> int
{
  auto seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  auto count = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 2000;
  auto times = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 4;

  run<cell const*, 15, 16, 16>("cell*,15,16,16", seed, count, times);
  run<wide const*, 15, 16, 16>("wide*,15,16,16", seed + 1, count, times);
  run<char const*, 15, 16, 16>("char*,15,16,16", seed + 2, count, times);
  run<cell const*, 9, 6, 6>("cell*,9,6,6", seed + 3, count * 4, times * 4);
  run<cell const*, 10, 7, 6>("cell*,10,7,6", seed + 4, count * 4, times * 4);
  run<char const*, 7, 6, 7>("char*,7,6,7", seed + 5, count * 4, times * 4);
  run<cell const*, 9, 6, 6, 6>("cell*,9,6,6,6", seed + 6, count * 4, times * 4);

  std::printf("{\"operations\": %lu, \"traversed\": %lu, \"emptied\": %lu, \"sessions\": %lu, \"lower_bounds\": %lu, \"backward\": %lu, \"swaps\": %lu, \"inserted\": %lu, \"erased\": %lu, \"largest\": %lu, \"states\": %lu}\n",
              operations, traversed, emptied, sessions_run, lower_bounds, backward, swaps, inserted, erased, largest, states.size());
  return 0;
}
