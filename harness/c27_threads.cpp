// C27: numbers used by several threads at a time.
#include "threads.h"
#include <sstream>
#include <string>
#include <sharemind/uint_t.h>
using namespace sharemind;
namespace {
template <typename T> std::string show(T const & x, bool hex) { std::ostringstream o; if (hex) o << std::hex; o << x; return o.str(); }
template <typename X, typename B> void numbers(unsigned i, unsigned bits) {
    unsigned const v = i * 37u + 5u; X const x(static_cast<B>(v)); X const big = x << std::uint64_t(bits / 2); mc::point();
    auto const d = divMod(big, X(static_cast<B>(7u))); X const back = d.quot * X(static_cast<B>(7u)) + d.rem; mc::point();
    MC_CHECK(back == big && (big >> std::uint64_t(bits / 2)) == x && big - x + x == big && (d.rem < X(static_cast<B>(7u))), "arithmetic of %u bits", bits);
    std::ostringstream h; h << std::hex << v; MC_CHECK(show(x, false) == std::to_string(v) && show(x, true) == h.str(), "%u is printed as %s and %s", v, show(x, false).c_str(), show(x, true).c_str());
    X n(x); ++n; n[3] = true; n |= x; n ^= x; MC_CHECK((n & x) == X(static_cast<B>(0u)), "bits");
}
}
MC_SCENARIO(one_block, 2, 4, 0) { both([](int i) { numbers<uint_t<64u, std::uint64_t>, std::uint64_t>(unsigned(i), 64u); }); }
MC_SCENARIO(many_blocks, 2, 4, 0) { both([](int i) { numbers<uint_t<72u, std::uint8_t>, std::uint8_t>(unsigned(i), 72u); }); }
MC_SCENARIO(long_numbers, 1, 2, 0) { both([](int i) { uint_t<2048u, std::uint64_t> x(std::uint64_t(i + 5)); MC_CHECK(show(x, false) == std::to_string(i + 5), "%d is printed as %s", i + 5, show(x, false).c_str()); }); }
