// C41: byte order conversions for all 8 and 16 bit values and for all combinations of interesting bytes of wider ones.
#include "seq.h"
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <sharemind/EndianMacros.h>

namespace {
using namespace sharemind;
template <typename ST, typename T> void strong(T const v, unsigned char const * le, unsigned char const * be) {
    auto is = [&](T const r, unsigned char const * w, char const * what) { SEQ_CHECK(std::memcmp(&r, w, sizeof r) == 0, "%s of a %zu bit strong type", what, sizeof(T) * 8); };
    is(hostToLittleEndian(ST(v)).get(), le, "little endian"); is(hostToBigEndian(ST(v)).get(), be, "big endian"); is(hostToSharemindNetOrder(ST(v)).get(), le, "network order");
    T in; std::memcpy(&in, be, sizeof in); SEQ_CHECK(bigEndianToHost(ST(in)).get() == v, "reading a big endian strong type"); std::memcpy(&in, le, sizeof in); SEQ_CHECK(littleEndianToHost(ST(in)).get() == v && sharemindNetToHostOrder(ST(in)).get() == v, "reading a little endian strong type");
}
template <typename T> void one(T const v) {
    using U = typename std::make_unsigned<T>::type; using ST = StrongType<T, struct EndianTag, StrongTypeBasicComparable>;
    unsigned char le[sizeof(T)], be[sizeof(T)], b[sizeof(T)]; for (std::size_t i = 0; i < sizeof(T); ++i) le[i] = be[sizeof(T) - 1 - i] = static_cast<unsigned char>(static_cast<std::uint64_t>(U(v)) >> 8 * i);
    auto is = [&](T const r, unsigned char const * w, char const * what) { static_assert(sizeof(r) == sizeof(b), ""); std::memcpy(b, &r, sizeof b); SEQ_CHECK(std::memcmp(b, w, sizeof b) == 0, "%s of the %zu bit %s %llx", what, sizeof(T) * 8, std::is_signed<T>::value ? "signed" : "unsigned", static_cast<unsigned long long>(U(v))); };
    is(hostToLittleEndian(v), le, "little endian"); is(hostToBigEndian(v), be, "big endian"); is(hostToSharemindNetOrder(v), le, "network order");
    T in; std::memcpy(&in, le, sizeof in); SEQ_CHECK(littleEndianToHost(in) == v && sharemindNetToHostOrder(in) == v, "reading little endian bytes"); std::memcpy(&in, be, sizeof in); SEQ_CHECK(bigEndianToHost(in) == v, "reading big endian bytes");
    is(hostToLittleEndian(ST(v)).get(), le, "strong little endian"); is(hostToBigEndian(ST(v)).get(), be, "strong big endian"); is(hostToSharemindNetOrder(ST(v)).get(), le, "strong network order");
    SEQ_CHECK(bigEndianToHost(ST(in)) == ST(v), "strong reading big endian"); std::memcpy(&in, le, sizeof in); SEQ_CHECK(littleEndianToHost(ST(in)) == ST(v) && sharemindNetToHostOrder(ST(in)) == ST(v), "strong reading little endian");
    strong<ST>(v, le, be); strong<StrongType<T, struct EndianTag2>>(v, le, be); strong<StrongType<T, struct EndianTag3, StrongTypeEqualityComparable, StrongTypeLessThanComparable, StrongTypePreIncrementable, StrongTypePreDecrementable>>(v, le, be);
    static_assert(std::is_same<decltype(hostToLittleEndian(v)), T>::value && std::is_same<decltype(bigEndianToHost(v)), T>::value && std::is_same<decltype(hostToBigEndian(ST(v))), ST>::value, "");
}
template <typename U> void both(U v) { one(v); one(static_cast<typename std::make_signed<U>::type>(v)); seq::count(2); }
unsigned char const bytes[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0x5a};
} // namespace
SEQ_TEST(small, 0, 0) { int const h = seq::choose(256); both(std::uint8_t(h)); for (int l = 0; l < 256; ++l) { both(std::uint16_t(h << 8 | l)); for (int s = 0; s < 32; s += 8) both(std::uint32_t(h) << s ^ std::uint32_t(l) << (s + 8) % 32); for (int s = 0; s < 64; s += 8) for (int t = 0; t < 64; t += 8) both(std::uint64_t(h) << s ^ std::uint64_t(l) << t); } }
SEQ_TEST(wide, 0, 0) { std::uint64_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | bytes[seq::choose(6)]; both(std::uint32_t(v)); for (int n = 0; n < 6 * 6 * 6 * 6; ++n) { std::uint64_t w = v; for (int i = 0, m = n; i < 4; ++i, m /= 6) w = w << 8 | bytes[m % 6]; both(w); } }
