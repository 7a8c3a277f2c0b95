// C28: numbers used by several threads at a time.
#include "threads.h"
#include <sstream>
#include <string>
#include <sharemind/uint128_t.h>
using namespace sharemind;
MC_SCENARIO(numbers, 2, 4, 0) {
    both([](int i) {
        uint128_t const x(std::uint64_t(i + 1), std::uint64_t(i) * 0x1234567u); uint128_t const by(10u + unsigned(i)); uint128_t const q = x / by; mc::point(); uint128_t const r = x % by;
        MC_CHECK(q * by + r == x && ((x << 5u) >> 5u) == x, "arithmetic");
        std::ostringstream a, b, c; uint128_t const s(std::uint64_t(i) * 1000003u + 17u); a << s; b << std::hex << s; c << std::hex << std::uint64_t(i) * 1000003u + 17u; MC_CHECK(a.str() == std::to_string(std::uint64_t(i) * 1000003u + 17u) && b.str() == c.str(), "printed as %s and %s", a.str().c_str(), b.str().c_str());
    });
}
