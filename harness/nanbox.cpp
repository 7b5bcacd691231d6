/*
   nanbox <seed> <random values per kind> [full]

   Every kind of immediate value is stored in every kind of slot (fresh,
   copied, assigned over a value of every other kind, pair, vector, closure
   of the host) and read back. Prints one JSON line, or "FAIL ..." and exits 1.
*/
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <unordered_map>
#include <vector>

#include <meevax/kernel/environment.hpp>
#include <meevax/kernel/vector.hpp>

#include <verif_hook.hpp>

using namespace meevax;

static std::uint64_t checked = 0, slots = 0, compared = 0;

static std::unordered_map<std::string, std::uint64_t> per_kind;

[[noreturn]] static auto fail(std::string const& what, std::string const& value) -> void
{
  std::printf("FAIL %s: %s\n", what.c_str(), value.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}

template <typename T> auto describe(T const& x) -> std::string
{
  char b[64];
  unsigned char raw[sizeof(T)];
  std::memcpy(raw, &x, sizeof(T));
  std::string s = typeid(T).name();
  s += " ";

  for (auto k = sizeof(T); k--;)
  {
    std::snprintf(b, sizeof b, "%02x", raw[k]);
    s += b;
  }

  return s;
}

template <typename T> auto bits(T const& x) -> std::uint64_t
{
  std::uint64_t y = 0;
  std::memcpy(&y, &x, sizeof(T));
  return y;
}

template <> auto bits(character const& x) -> std::uint64_t { return x.codepoint; }

/*
   An identity of the stored value: its kind and its bits.
*/
template <typename T>
auto verify(let const& o, T const& x, char const* where) -> void
{
  ++slots;

  auto bad = [&](char const* what) { fail(std::string(what) + " (" + where + ")", describe(x)); };

  if constexpr (not std::is_same_v<T, character>) // characters live on the heap
  {
    if (o) bad("an immediate value is taken for a pointer");

    if (o.get() != nullptr) bad("an immediate value has an address");
  }

  if (o.type() != typeid(T)) bad("type()");

  if (o.is<bool         >() != std::is_same_v<T, bool         >) bad("is<bool>");
  if (o.is<small_integer>() != std::is_same_v<T, small_integer>) bad("is<small_integer>");
  if (o.is<float        >() != std::is_same_v<T, float        >) bad("is<float>");
  if (o.is<double       >() != std::is_same_v<T, double       >) bad("is<double>");
  if (o.is<character    >() != std::is_same_v<T, character    >) bad("is<character>");
  if (o.is<instruction  >() != std::is_same_v<T, instruction  >) bad("is<instruction>");
  if (o.is<null         >() != std::is_same_v<T, null         >) bad("is<null>");
  if (o.is<pair         >()) bad("is<pair>");
  if (not std::is_same_v<T, character> and o.is_also<pair>()) bad("is_also<pair>");

  if constexpr (std::is_same_v<T, double>)
  {
    if (std::isnan(x) ? not std::isnan(o.as<double>()) : bits(o.as<double>()) != bits(x)) bad("a flonum changed");
  }
  else if constexpr (not std::is_same_v<T, null>)
  {
    if (auto const y = o.as<T>(); bits<T>(y) != bits<T>(x)) bad("a value changed");
  }
}

static std::vector<object> others;

template <typename T>
auto check(T const& x) -> void
{
  ++checked;
  ++per_kind[typeid(T).name()];

  let const o = [&]() -> object
  {
    if constexpr (std::is_same_v<T, null>)
    {
      return object(nullptr);
    }
    else
    {
      return make<T>(x);
    }
  }();

  verify(o, x, "fresh");

  let const copy = o;
  verify(copy, x, "copy");

  if (copy != o or not (copy == o) or not copy.eqv(o) or not o.eqv(copy))
  {
    if constexpr (not std::is_same_v<T, double>) fail("a copy differs from the original", describe(x));
    else if (not std::isnan(x)) fail("a copy differs from the original", describe(x));
  }

  for (auto const& each : others)
  {
    let slot = each;
    slot = o;
    verify(slot, x, "assignment");
    slot = each;

    if (slot != each) fail("assignment over an immediate value", describe(x));

    auto distinct = each.type() != typeid(T);

    if (not distinct)
    {
      if constexpr (std::is_same_v<T, double>) distinct = bits(each.as<double>()) != bits(x) and not (std::isnan(x) and std::isnan(each.as<double>()));
      else if constexpr (not std::is_same_v<T, null>) distinct = bits<T>(each.as<T>()) != bits<T>(x);
    }

    ++compared;

    if (distinct and (each == o or not (each != o))) fail("distinct values are identical", describe(x));
  }
}

/*
   Slots on the heap; fewer of them because they allocate.
*/
template <typename T>
auto heap(T const& x) -> void
{
  let const o = [&]() -> object { if constexpr (std::is_same_v<T, null>) return object(nullptr); else return make<T>(x); }();

  static let p = cons(unit, unit);
  static let v = make<heterogeneous_vector>();

  car(p) = o;
  verify(car(p), x, "car");
  cdr(p) = car(p);
  verify(cdr(p), x, "cdr");

  let const q = cons(o, o, o);
  verify(car(q), x, "list");
  verify(cadr(q), x, "list");
  verify(cddr(q), x, "list");

  auto & objects = v.as<heterogeneous_vector>().objects;
  objects.push_back(o);
  verify(objects.back(), x, "vector");

  if (64 < objects.size()) objects.clear();
}

auto main(int argc, char const* const* argv) -> int
{
  auto seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  auto count = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 10000;
  auto full = argc > 3;

  std::mt19937_64 r { seed };

  others = { make<bool>(true), make<bool>(false), make<small_integer>(0), make<small_integer>(-1), make<small_integer>(1), make<double>(0.0), make<double>(-0.0), make<double>(1.0), make<float>(0.0f), make<character>('a'),
             make<character>(0), make<character>(1), make<instruction>(instruction::secd_call), make<instruction>(instruction::secd_cons), object(nullptr), cons(make<small_integer>(1), unit), make<double>(std::bit_cast<double>(1ull)), make<double>(-std::numeric_limits<double>::infinity()) };

  auto both = [&](auto x) { check(x); heap(x); };

  both(true);
  both(false);
  both(nullptr);

  for (auto k = 0; k <= static_cast<int>(instruction::secd_tail_select); ++k)
  {
    both(static_cast<instruction>(k));
  }

  for (auto c = 0; c <= 0x10FFFF; ++c)
  {
    if (full or c % 16 == int(seed % 16) or c < 0x300) { check(character(c)); if (c % 7 == 0) heap(character(c)); }
  }

  auto integer = [&](std::int64_t n) { if (std::numeric_limits<std::int32_t>::min() <= n and n <= std::numeric_limits<std::int32_t>::max()) both(small_integer(n)); };

  for (auto k = 0; k < 32; ++k)
  {
    for (auto d = -2; d <= 2; ++d)
    {
      integer((std::int64_t(1) << k) + d);
      integer(-(std::int64_t(1) << k) + d);
    }
  }

  for (std::uint64_t k = 0; k < count; ++k)
  {
    both(small_integer(std::uint32_t(r())));
  }

  if (full)
  {
    others.resize(4);

    for (auto n = std::int64_t(std::numeric_limits<std::int32_t>::min()); n <= std::numeric_limits<std::int32_t>::max(); n += 1)
    {
      check(small_integer(n));
    }
  }

  // flonums: every exponent with characteristic fractions, both signs
  for (std::uint64_t e = 0; e < 2048; ++e)
  {
    for (auto f : { 0ull, 1ull, 0xFFFFFFFFFFFFFull, 0x8000000000000ull, 0x7FFFFFFFFFFFFull, 0x9000000000000ull, 0xE000000000000ull, 0xF000000000000ull, 0x00000FFFFFFFFull, 0xFFFFF00000000ull, (unsigned long long)(r() & 0xFFFFFFFFFFFFF) })
    {
      for (auto s : { 0ull, 1ull })
      {
        check(std::bit_cast<double>(std::uint64_t(s << 63 | e << 52 | f)));
      }
    }
  }

  for (std::uint64_t k = 0; k < count; ++k)
  {
    both(std::bit_cast<double>(r()));
    both(std::bit_cast<double>(r() | 0x7FF0000000000000ull)); // infinities and NaN of all payloads
    both(static_cast<double>(std::int64_t(r()) >> (r() % 64)));
    auto f = std::bit_cast<float>(std::uint32_t(r()));
    both(f);
  }

  // pairwise: distinct values are never identical
  auto sample = std::vector<object>();

  for (auto k = 0; k < 300; ++k)
  {
    std::uint32_t payload = k < 40 ? k : std::uint32_t(r());
    sample.push_back(make<small_integer>(small_integer(payload)));
    
    sample.push_back(make<float>(std::bit_cast<float>(payload & 0x7F7FFFFF)));
    sample.push_back(make<double>(std::bit_cast<double>(std::uint64_t(payload))));
    if (k < 2) sample.push_back(make<bool>(k));
    if (k < 23) sample.push_back(make<instruction>(static_cast<instruction>(k)));
  }

  sample.push_back(object(nullptr));

  auto identity = [](object const& x) -> std::pair<std::string, std::uint64_t>
  {
    return { x.type().name(), x.is<small_integer>() ? bits(x.as<small_integer>()) : x.is<float>() ? bits(x.as<float>()) : x.is<double>() ? bits(x.as<double>())
           : x.is<bool>() ? bits(x.as<bool>()) : x.is<instruction>() ? bits(x.as<instruction>()) : 0 };
  };

  std::vector<std::pair<std::string, std::uint64_t>> ids;

  for (auto const& x : sample) ids.push_back(identity(x));

  for (std::size_t i = 0; i < sample.size(); ++i)
  {
    for (std::size_t j = 0; j < i; ++j)
    {
      ++compared;

      if ((sample[i] == sample[j]) != (ids[i] == ids[j]))
      {
        fail("identity of immediate values", ids[i].first + " " + std::to_string(ids[i].second) + " and " + ids[j].first + " " + std::to_string(ids[j].second));
      }
    }
  }

  std::printf("{\"checked\": %lu, \"slots\": %lu, \"compared\": %lu", checked, slots, compared);

  for (auto const& [k, n] : per_kind) std::printf(", \"kind %s\": %lu", k.c_str(), n);

  std::printf("}\n");
  std::fflush(stdout);
  std::_Exit(0);
}
