// C42: texts near the accepted ones, and values which differ in single bytes.
#include "seq.h"
#include <boost/lexical_cast.hpp>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <sharemind/Uuid.h>

namespace {
using sharemind::Uuid;
std::string text(Uuid const & u) { std::string r; char b[3]; for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) r += '-'; std::snprintf(b, sizeof b, "%02x", u.data[i]); r += b; } return r; }
Uuid base(int k) { Uuid u; for (int i = 0; i < 16; ++i) u.data[i] = static_cast<std::uint8_t>(k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x10 + i * 13 : 0xf0 - i * 7); return u; }
int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* The documented form: hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh */
bool parse(std::string const & s, Uuid & u) {
    if (s.size() != 36) return false;
    std::size_t n = 0; for (std::size_t i = 0; i < 36; ++i) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return false; } else { int const h = hex(static_cast<unsigned char>(s[i])); if (h < 0) return false; auto & b = u.data[n / 2]; b = static_cast<std::uint8_t>(n % 2 ? b | h : h << 4); ++n; } }
    return true;
}
void read(std::string const & s) {
    Uuid w, u; bool const ok = parse(s, w); bool got = true;
    try { u = sharemind::uuidFromString(s); } catch (boost::bad_lexical_cast const &) { got = false; }
    SEQ_CHECK(ok == got, "\"%s\" is %s", s.c_str(), got ? "accepted" : "rejected"); if (ok) { SEQ_CHECK(u == w && sharemind::uuidToString(u) == text(w), "\"%s\" is read wrong", s.c_str()); } seq::count(1);
}
void pair(Uuid const & a, Uuid const & b) {
    int const c = std::memcmp(a.data, b.data, 16); std::hash<Uuid> const h{};
    SEQ_CHECK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "%s and %s compare wrong", text(a).c_str(), text(b).c_str());
    SEQ_CHECK((c != 0) || h(a) == h(b), "hash"); SEQ_CHECK((sharemind::uuidToString(a) == sharemind::uuidToString(b)) == (c == 0), "texts"); seq::count(1);
}
} // namespace
SEQ_TEST(values, 0, 0) {
    Uuid u = base(seq::choose(4)), orig = u; int const i = seq::choose(16); int collisions = 0;
    for (int v = 0; v < 256; ++v) { u.data[i] = static_cast<std::uint8_t>(v); std::string const t = text(u); SEQ_CHECK(sharemind::uuidToString(u) == t, "%s is printed as %s", t.c_str(), sharemind::uuidToString(u).c_str()); read(t); pair(u, orig); pair(orig, u);
        if (v != orig.data[i] && std::hash<Uuid>()(u) == std::hash<Uuid>()(orig)) ++collisions; }
    SEQ_CHECK(collisions < 128, "byte %d does not affect the hash", i);
    std::unordered_map<Uuid, int> m; for (int v = 0; v < 256; ++v) { u.data[i] = static_cast<std::uint8_t>(v); m[u] = v; } SEQ_CHECK(m.size() == 256, "as keys"); for (int v = 0; v < 256; ++v) { u.data[i] = static_cast<std::uint8_t>(v); SEQ_CHECK(m.at(u) == v, "as keys"); }
}
SEQ_TEST(texts, 0, 0) {
    std::string const s = text(base(seq::choose(4))); int const p = seq::choose(37);
    switch (seq::choose(5)) {
    case 0: if (p < 36) for (int c = 0; c < 256; ++c) { std::string t(s); t[static_cast<std::size_t>(p)] = char(c); read(t); } break;
    case 1: for (int c = 0; c < 256; ++c) { std::string t(s); t.insert(t.begin() + p, char(c)); read(t); } break;
    case 2: if (p < 36) { std::string t(s); t.erase(static_cast<std::size_t>(p), 1); read(t); } read(s.substr(0, static_cast<std::size_t>(p))); read(s.substr(static_cast<std::size_t>(p))); break;
    case 3: for (std::size_t q = 0; q < 36; ++q) { std::string t(s); if (p < 36) std::swap(t[static_cast<std::size_t>(p)], t[q]); read(t); } break;
    case 4: { std::string t(s); for (int i = p; i < 36; ++i) t[static_cast<std::size_t>(i)] = static_cast<char>(std::toupper(static_cast<unsigned char>(t[static_cast<std::size_t>(i)]))); read(t); t = "{" + s + "}"; read(t); t = s + s; read(t); t.clear(); for (char c : s) if (c != '-') t += c; read(t); break; }
    }
}
SEQ_TEST(names, 0, 0) {
    std::string s; int const n = seq::choose(4); for (int i = 0; i < n; ++i) s += char('a' + seq::choose(3));
    Uuid const a = sharemind::generateSharemindNameUuid(s), b = sharemind::generateSharemindNameUuid(s.c_str()); boost::uuids::name_generator g(sharemind::sharemindNamespaceUuid); Uuid const c = g(s), d = sharemind::SharemindUuidGenerator()(s);
    SEQ_CHECK(a == c && b == c && d == c, "the UUID of \"%s\"", s.c_str()); SEQ_CHECK(a.version() == Uuid::version_name_based_sha1 && a.variant() == Uuid::variant_rfc_4122, "version of the UUID of \"%s\"", s.c_str());
    static char const ns[] = "Sharemind~(^_^)~"; (void)ns; SEQ_CHECK(sharemind::generateSharemindNameUuid(s + "x") != a, "names share a UUID"); SEQ_CHECK(sharemind::uuidToString(sharemind::sharemindNamespaceUuid) == "53686172-656d-696e-647e-285e5f5e297e", "the namespace");
    seq::count(1);
}
