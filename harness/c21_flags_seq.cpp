// C21: Flags on all values of eight flags, and all histories of a wider set.
#include "seq.h"
#include <cstdint>
#include <initializer_list>
#include <new>
#include <sharemind/AtomicFlags.h>
#include <sharemind/Flags.h>

namespace {
enum class E : std::uint8_t { a = 1 };
enum class W : std::uint32_t { a = 1 };
template <typename T, typename U> void algebra(U const v, U const m) {
    using F = sharemind::Flags<T>;
    U const inv = U(~m), all = U(~U(0));
    { F f(v); F const c(v);
      SEQ_CHECK(c.load() == v && U(c) == v, "load");
      SEQ_CHECK((f & m).load() == U(v & m) && (f | m).load() == U(v | m) && (f ^ m).load() == U(v ^ m), "& | ^ of %u, %u", unsigned(v), unsigned(m));
      SEQ_CHECK(c.hasAnyOf(m) == ((v & m) != 0), "hasAnyOf(%u) of %u", unsigned(m), unsigned(v));
      SEQ_CHECK(c.hasAllOf(m) == (U(v & m) == m), "hasAllOf(%u) of %u", unsigned(m), unsigned(v));
      SEQ_CHECK(c.hasNoneOf(m) == ((v & m) == 0), "hasNoneOf(%u) of %u", unsigned(m), unsigned(v));
      SEQ_CHECK(f.load() == v, "changed by a query"); }
    auto is = [&](F & f, F & r, U w, char const * n) { SEQ_CHECK(&r == &f && f.load() == w, "%s: %u, %u gives %u", n, unsigned(v), unsigned(m), unsigned(f.load())); };
    { F f(v); is(f, f = m, m, "="); }
    { F f(v); is(f, f &= m, U(v & m), "&="); }
    { F f(v); is(f, f |= m, U(v | m), "|="); }
    { F f(v); is(f, f ^= m, U(v ^ m), "^="); }
    { F f(v); is(f, f.store(m), m, "store"); }
    { F f(v); is(f, f.setFlags(m), U(v | m), "setFlags"); }
    { F f(v); is(f, f.unsetFlags(m), U(v & inv), "unsetFlags"); }
    { F f(v); is(f, f.toggleFlags(m), U(v ^ m), "toggleFlags"); }
    { F f(v); is(f, f.setFlags(), all, "setFlags()"); }
    { F f(v); is(f, f.unsetFlags(), U(0), "unsetFlags()"); }
    { F f(v); is(f, f.toggleFlags(), U(~v), "toggleFlags()"); }
    { F f(v); F o = f.exchange(m); SEQ_CHECK(o.load() == v && f.load() == m, "exchange"); }
    { sharemind::AtomicFlags<T> f(v);
      auto at = [&](F r, U old, U now, char const * n) { SEQ_CHECK(r.load() == old && f.load().load() == now, "atomic %s of %u, %u returns %u, leaves %u", n, unsigned(v), unsigned(m), unsigned(r.load()), unsigned(f.load().load())); };
      at(f.load(), v, v, "load");
      at(f.fetchSetFlags(m), v, U(v | m), "fetchSetFlags"); f.store(v);
      at(f.fetchUnsetFlags(m), v, U(v & inv), "fetchUnsetFlags"); f.store(v);
      at(f.fetchToggleFlags(m), v, U(v ^ m), "fetchToggleFlags"); f.store(v);
      at(f.exchange(m), v, m, "exchange"); f.store(v);
      at(f.fetchSetFlags(), v, all, "fetchSetFlags()"); f.store(v);
      at(f.fetchUnsetFlags(), v, U(0), "fetchUnsetFlags()"); f.store(v);
      f.setFlags(); at(v, v, all, "setFlags()"); f.unsetFlags(); at(v, v, U(0), "unsetFlags()"); f.store(v);
      SEQ_CHECK(f.hasAnyOf(m) == ((v & m) != 0) && f.hasAllOf(m) == (U(v & m) == m) && f.hasNoneOf(m) == ((v & m) == 0), "atomic queries of %u, %u", unsigned(v), unsigned(m));
      for (U const of : {m, inv, U(v | m), all, U(0)}) for (U const want : {U(v & of), of, U(0), U(m & of)}) SEQ_CHECK(f.has(want, of) == (U(v & of) == want), "%u has %u of %u: %d", unsigned(v), unsigned(want), unsigned(of), int(f.has(want, of)));
      for (int k = 0; k < 8; ++k) for (U x : {v, m}) {
          f.store(v); U e = x; F g = x; bool r; U seen;
          auto const so = std::memory_order_acq_rel; auto const fo = std::memory_order_relaxed;
          switch (k) {
          case 0: r = f.compareExchangeStrong(e, inv); seen = e; break;
          case 1: r = f.compareExchangeStrong(g, inv); seen = g; break;
          case 2: r = f.compareExchangeStrong(e, inv, so, fo); seen = e; break;
          case 3: r = f.compareExchangeStrong(g, inv, so, fo); seen = g; break;
          case 4: r = f.compareExchangeWeak(e, inv); seen = e; break;
          case 5: r = f.compareExchangeWeak(g, inv); seen = g; break;
          case 6: r = f.compareExchangeWeak(e, inv, so, fo); seen = e; break;
          default: r = f.compareExchangeWeak(g, inv, so, fo); seen = g; break;
          }
          SEQ_CHECK(r == (x == v) && seen == v && f.load().load() == (r ? inv : v), "compare exchange %d", k);
      } }
    seq::count(20);
}
} // namespace
SEQ_TEST(all_byte_values, 0, 0) { int const v = seq::choose(256); for (int m = 0; m < 256; ++m) algebra<std::uint8_t>(std::uint8_t(v), std::uint8_t(m)); seq::state(v); }
SEQ_TEST(all_enum_values, 0, 0) { int const v = seq::choose(256); for (int m = 0; m < 256; ++m) algebra<E>(std::uint8_t(v), std::uint8_t(m)); seq::state(v); }
SEQ_TEST(wide_values, 0, 0) {
    static std::uint32_t const vs[] = {0, 1, 0x80000000u, 0xffffffffu, 0x7fffffffu, 0x00010000u, 0xaaaaaaaau, 0x12345678u};
    std::uint32_t const v = vs[seq::choose(8)];
    for (auto m : vs) { algebra<W>(v, m); algebra<std::uint64_t>(std::uint64_t(v) << 32 | (m >> 3), std::uint64_t(m) << 32 | v); algebra<std::uint16_t>(std::uint16_t(v), std::uint16_t(m)); }
}
