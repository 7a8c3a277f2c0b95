// C39: all short sequences of fields; every truncation and corrupted length of each; every allocation failing or succeeding.
// LIBS: -Wl,--wrap=realloc
#include "seq.h"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/NetworkMessage.h>

extern "C" void * __real_realloc(void *, std::size_t);
extern "C" void * __wrap_realloc(void * p, std::size_t n) { return seq::allocFault() ? nullptr : __real_realloc(p, n); }
namespace {
using namespace sharemind; using Out = OutgoingNetworkMessage; using In = IncomingNetworkMessage; using Sz = std::size_t;
struct Pod { std::uint16_t a, b; char c[3]; }; struct Custom { int v; };
enum Kind { BOOL, U8, I32, U64, POD, STR, SIZE16, SIZE64, ARR16, BYTES, N };
struct Field { Kind k; std::string bytes; std::uint64_t num; std::string str; };
std::string raw(void const * p, Sz n) { return std::string(static_cast<char const *>(p), n); }
std::string le(std::uint64_t v, int n) { std::string r; for (int i = 0; i < n; ++i) r += char(v >> (8 * i)); return r; }
std::string text(int k) { static std::string const t[] = { "", "a", std::string("\0x", 2), "a string which does not fit into the object" }; return t[k]; }

/* Writes one chosen value; the expected bytes are returned. */
Field write(Out & m) {
    Field f; f.k = Kind(seq::choose(N)); f.num = 0;
    switch (f.k) {
    case BOOL: { bool b = seq::flip(); f.num = b; f.bytes = le(b, 1); if (seq::flip()) m.write(b); else m.write(bool(b)); break; }
    case U8: { std::uint8_t v = static_cast<std::uint8_t>(0xfe); f.num = v; f.bytes = raw(&v, 1); m.write(v); break; }
    case I32: { std::int32_t const v = -77777; f.bytes = raw(&v, 4); m.write(v); break; }
    case U64: { std::uint64_t v = 0x0123456789abcdefu; f.bytes = raw(&v, 8); m.write(std::move(v)); break; }
    case POD: { Pod p; std::memset(&p, 0x41, sizeof p); f.bytes = raw(&p, sizeof p); m.write(p); break; }
    case STR: { std::string s = text(seq::choose(4)); f.str = s; f.bytes = le(s.size(), 8) + s; int const how = seq::choose(6);
        switch (how) { case 0: m.write(static_cast<std::string const &>(s)); break; case 1: { std::string t(s); m.write(t); SEQ_CHECK(t == s, "the written string changed"); break; } case 2: m.write(std::string(s)); break; case 3: m.write(s.c_str(), s.size()); break; case 4: m.writeSizeAndArray(s.data(), s.size()); break; case 5: if (s.find('\0') != s.npos) { m.write(s.data(), s.size()); } else { std::string t(s); if (seq::flip()) m.write(&t[0]); else m.write(t.c_str()); } break; } break; }
    case SIZE16: { std::uint16_t v = static_cast<std::uint16_t>(seq::flip() ? 0x1234 : 7); f.num = v; f.bytes = le(v, 2); if (seq::flip()) m.writeSize<std::uint16_t>(v); else m.writeSize<std::uint16_t>(std::uint16_t(v)); break; }
    case SIZE64: { std::uint64_t v = seq::flip() ? 0x100000001u : 200u; f.num = v; f.bytes = le(v, 8); m.writeSize(v); break; }
    case ARR16: { std::uint16_t const a[3] = { 1, 0xabcd, 3 }; Sz const n = Sz(seq::choose(4)); f.num = n; f.bytes = le(n, 2) + raw(a, 2 * n); m.writeSizeAndArray<std::uint16_t>(a, static_cast<std::uint16_t>(n)); break; }
    case BYTES: { std::string s = text(seq::choose(3)); f.str = s; f.bytes = s; int const how = seq::choose(5); if (how == 0) m.writeBytes(s.data(), s.size()); else if (how == 1) m.writeArray(s.data(), s.size()); else { In in(s.data(), s.size()); NetworkMessage const & c = in; if (how == 2) m.write(c); else if (how == 3) m.write(in); else { Out o; o.writeBytes(s.data(), s.size()); m.write(o); } } break; }
    case N: break;
    }
    return f;
}
struct Wide {}; struct Bad {};
/* Reads one value; true if that succeeded. Exceptions pass through. */
bool read(In & m, Field const & f, bool check) {
    switch (f.k) {
    case BOOL: { bool b = !f.num; if (!m.read(b)) return false; if (check) SEQ_CHECK(b == !!f.num, "boolean"); return true; }
    case U8: { std::uint8_t v = 0; if (!m.read(v)) return false; if (check) SEQ_CHECK(v == f.num, "byte"); return true; }
    case I32: { std::int32_t v = 0; if (!m.read(v)) return false; if (check) SEQ_CHECK(v == -77777, "integer"); return true; }
    case U64: { std::uint64_t v = 0; if (!m.read(v)) return false; if (check) SEQ_CHECK(v == 0x0123456789abcdefu, "integer"); return true; }
    case POD: { Pod p; if (!m.read(p)) return false; if (check) SEQ_CHECK(raw(&p, sizeof p) == f.bytes, "structure"); return true; }
    case STR: { std::string s("old contents, which are to be replaced"); if (!m.read(s)) return false; if (check) SEQ_CHECK(s == f.str, "string"); return true; }
    case SIZE16: { std::uint32_t v = 0; if (!m.readSize<std::uint16_t>(v)) return false; if (check) SEQ_CHECK(v == f.num, "size"); return true; }
    case SIZE64: { Sz v = 0; if (!m.readSize(v)) return false; if (check) SEQ_CHECK(v == f.num, "size"); return true; }
    case ARR16: { Sz const at = m.getOffset(); (void)at; std::uint16_t n = 0; if (!m.readSize<std::uint16_t>(n)) return false; Sz const mid = m.getOffset(); std::vector<std::uint16_t> a(n); if (!m.readArray(a.data(), static_cast<Sz>(n))) { SEQ_CHECK(m.getOffset() == mid, "a failed read of an array moved the position"); return false; } if (check) SEQ_CHECK(raw(a.data(), 2u * n) == f.bytes.substr(2), "array"); return true; }
    case BYTES: { std::unique_ptr<char[]> b(new char[f.str.size()]); if (!m.readBytes(b.get(), f.str.size())) return false; if (check) SEQ_CHECK(raw(b.get(), f.str.size()) == f.str, "bytes"); return true; }
    case N: break;
    }
    return false;
}
void position(In & m, std::unique_ptr<char[]> const & mem, Sz size, Sz at, char const * when) {
    SEQ_CHECK(m.getOffset() == at && m.getRemainingSize() == size - at && m.getPtr() == mem.get() + at && m.getSize() == size && m.getData() == mem.get(), "%s: position %zu instead of %zu of %zu", when, m.getOffset(), at, size); seq::count(1);
}
/* Reads all fields of the first len bytes. */
void readAll(std::vector<Field> const & fs, std::string const & all, Sz len, int faults) {
    std::unique_ptr<char[]> mem(new char[len]); std::memcpy(mem.get(), all.data(), len); bool const null = !len && faults == 2; In m(null ? nullptr : mem.get(), len); Sz at = 0; if (null) mem.reset();
    for (auto const & f : fs) {
        bool const ok = len - at >= f.bytes.size(); bool got = false, bad = false; int const before = seq::faultsFired();
        if (faults == 1 && f.k == STR) { std::string s; seq::armAllocFaults(1); try { got = m.read(s); } catch (std::bad_alloc const &) { bad = true; } seq::disarmAllocFaults(); SEQ_CHECK(!bad || seq::faultsFired() > before, "bad_alloc"); if (bad) { position(m, mem, len, at, "after running out of memory"); got = read(m, f, true); } else if (got) SEQ_CHECK(s == f.str, "string"); }
        else got = read(m, f, true);
        SEQ_CHECK(got == ok, "a read of %zu bytes with %zu left %s", f.bytes.size(), len - at, got ? "succeeds" : "fails"); if (!ok) { if (f.k != ARR16 || len - at < 2) position(m, mem, len, at, "after a failed read"); return; } at += f.bytes.size(); position(m, mem, len, at, "after a read");
    }
    if (len == all.size()) { char c; SEQ_CHECK(!m.readBytes(&c, 1) && !m.readBytes(&c, std::numeric_limits<Sz>::max()) && !m.readBytes(&c, std::numeric_limits<Sz>::max() - at) && !(at && m.readBytes(&c, Sz(0) - at)) && m.readBytes(&c, 0) && !m.read(c), "reads beyond the end succeed"); position(m, mem, len, at, "at the end"); }
    for (Sz p = 0; p < len; ++p) { SEQ_CHECK(m.seek(p), "position %zu of %zu can't be sought", p, len); position(m, mem, len, p, "after seeking"); } Sz const last = m.getOffset(); SEQ_CHECK(!m.seek(len) && !m.seek(len + 1) && !m.seek(std::numeric_limits<Sz>::max()), "a position beyond the end can be sought"); position(m, mem, len, last, "after a failed seek");
}
} // namespace
SEQ_TEST(sequences, 2, 3) {
    Out m; std::string all; std::vector<Field> fs; int const n = seq::depth();
    for (int i = 0; i < n; ++i) { Field f = write(m); seq::op("field %d of %zu bytes", int(f.k), f.bytes.size()); all += f.bytes; fs.push_back(f); SEQ_CHECK(m.getSize() == all.size() && m.size == all.size() && m.getOffset() == all.size() && m.getRemainingSize() == 0, "the message has %zu bytes instead of %zu", m.getSize(), all.size()); if (!all.empty()) SEQ_CHECK(!std::memcmp(m.getData(), all.data(), all.size()) && m.data == m.getData(), "the message has wrong contents"); }
    std::uint64_t h = 0; for (char c : all) h = seq::mix(h, static_cast<unsigned char>(c)); seq::state(h);
    m.rewind(); SEQ_CHECK(m.getOffset() == 0 && m.getPtr() == m.getData() && m.getRemainingSize() == all.size(), "rewound");
    for (Sz len = 0; len <= all.size(); ++len) readAll(fs, all, len, 0);
    readAll(fs, all, 0, 2); readAll(fs, all, all.size(), 1);
    In c(m.getData(), m.getSize()); Sz const k = Sz(seq::choose(2)); if (k < fs.size() && all.size()) SEQ_CHECK(read(c, fs[0], true), "the message itself can't be read");
}
SEQ_TEST(out_of_memory, 2, 3) {
    Out m; std::string all; int left = 1; text(0); /* Initialized */
    for (int i = 0; i < seq::depth(); ++i) {
        int const before = seq::faultsFired(); Field f; bool ok = true; seq::armAllocFaults(left); try { f = write(m); } catch (std::bad_alloc const &) { ok = false; } seq::disarmAllocFaults(); SEQ_CHECK(ok || seq::faultsFired() > before, "bad_alloc"); left -= seq::faultsFired() - before;
        if (ok) all += f.bytes; SEQ_CHECK(m.getSize() == all.size() && m.getOffset() == all.size() && (all.empty() || !std::memcmp(m.getData(), all.data(), all.size())), "the message changed in a failed write"); seq::count(1);
    }
}
/* Every value of one byte of the encoded field. */
SEQ_TEST(corrupted, 0, 0) {
    Out m; Field f = write(m); std::string const all = f.bytes + "tail"; if (f.bytes.empty()) return; Sz const i = Sz(seq::choose(int(f.bytes.size())));
    for (int c = 0; c < 256; ++c) {
        std::string b(all); b[i] = char(c); std::unique_ptr<char[]> mem(new char[b.size()]); std::memcpy(mem.get(), b.data(), b.size()); In r(mem.get(), b.size());
        auto le64 = [&](int n) { std::uint64_t v = 0; for (int j = 0; j < n; ++j) v |= std::uint64_t(static_cast<unsigned char>(b[Sz(j)])) << (8 * j); return v; };
        bool ok = true; Sz want = f.bytes.size(); if (f.k == BOOL) ok = c < 2; if (f.k == STR) { std::uint64_t n = le64(8); ok = n <= b.size() - 8; want = Sz(8 + n); } if (f.k == ARR16) { std::uint64_t n = le64(2); ok = 2 * n <= b.size() - 2; want = Sz(2 + 2 * n); }
        bool const got = read(r, f, false); SEQ_CHECK(got == ok, "reading a damaged field %s", got ? "succeeds" : "fails"); if (ok) position(r, mem, b.size(), want, "after a read"); else if (f.k != ARR16) position(r, mem, b.size(), 0, "after a failed read");
        if (f.k == STR && ok) { In q(mem.get(), b.size()); std::string s; SEQ_CHECK(q.read(s) && s == b.substr(8, want - 8), "string"); }
    }
}
/* Sizes which don't fit the requested type. */
SEQ_TEST(sizes, 0, 0) {
    static std::uint64_t const vs[] = { 0, 1, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0xfffffffful, 0x100000000ul, 0x7ffffffffffffffful, 0x8000000000000000ul, 0xfffffffffffffffful, 0x100000000000000ul };
    std::uint64_t const v = vs[seq::choose(17)]; Sz const pre = Sz(seq::choose(2)), cut = Sz(seq::choose(9)); std::string s = std::string(pre, 'p') + le(v, 8); s.resize(s.size() - cut); std::unique_ptr<char[]> mem(new char[s.size()]); std::memcpy(mem.get(), s.data(), s.size()); bool const full = !cut;
    auto attempt = [&](auto t, int how) {
        using T = decltype(t); In m(mem.get(), s.size()); char p; if (pre && s.size()) { SEQ_CHECK(m.read(p), "read"); } Sz const at = m.getOffset(); T x = 99; bool got = false, threw = false; bool const fits = v <= std::numeric_limits<T>::max();
        try { got = how == 0 ? m.readSize(x) : how == 1 ? m.readSize<std::uint64_t, Bad>(x) : m.readSize(x, Custom{5}); } catch (std::bad_array_new_length const &) { threw = true; SEQ_CHECK(how == 0, "exception type"); } catch (Bad const &) { threw = true; SEQ_CHECK(how == 1, "exception type"); } catch (Custom const & c) { threw = true; SEQ_CHECK(how == 2 && c.v == 5, "exception type"); }
        SEQ_CHECK(threw == (full && !fits) && got == (full && fits), "size %llu as a %zu-byte integer", (unsigned long long)v, sizeof(T)); if (got) SEQ_CHECK(x == v, "size"); position(m, mem, s.size(), at + (got ? 8 : 0), threw ? "after a size which does not fit" : "after reading a size");
    };
    int const how = seq::choose(3); attempt(std::uint8_t(), how); attempt(std::uint16_t(), how); attempt(std::uint32_t(), how); attempt(std::uint64_t(), how);
}
SEQ_TEST(arrays, 0, 0) {
    Sz const len = Sz(seq::choose(14)), off = Sz(seq::choose(3)); if (off > len) return; std::unique_ptr<char[]> mem(new char[len]); for (Sz i = 0; i < len; ++i) mem[i] = char(i + 1);
    auto attempt = [&](auto t, std::uint64_t n, auto st) {
        using T = decltype(t); In m(mem.get(), len); std::string skip(off, 0); SEQ_CHECK(m.readBytes(&skip[0], off), "skip"); Sz const fit = (len - off) / sizeof(T); bool const ok = n <= fit; std::unique_ptr<T[]> a(new T[ok ? n : 1]); bool const got = m.readArray(a.get(), static_cast<decltype(st)>(n)); SEQ_CHECK(got == ok, "%llu elements of %zu bytes from %zu bytes", (unsigned long long)n, sizeof(T), len - off); position(m, mem, len, off + (ok ? sizeof(T) * n : 0), "after reading an array"); if (ok && n) SEQ_CHECK(!std::memcmp(a.get(), mem.get() + off, sizeof(T) * n), "array contents");
    };
    for (std::uint64_t n = 0; n < 16; ++n) { attempt(char(), n, Sz()); attempt(std::uint16_t(), n, std::uint32_t()); attempt(std::uint64_t(), n, Sz()); attempt(std::uint32_t(), n, std::uint8_t()); }
    static std::uint64_t const big[] = { 0xfffffffffffffffful, 0x8000000000000000ul, 0x4000000000000000ul, 0x2000000000000000ul, 0x2000000000000001ul, 0x7ffffffffffffffful, 0x100000000ul }; for (auto n : big) { attempt(std::uint16_t(), n, Sz()); attempt(std::uint64_t(), n, Sz()); attempt(std::uint32_t(), n, Sz()); attempt(char(), n, Sz()); }
    attempt(std::uint64_t(), 0xffffffffu, std::uint32_t()); attempt(std::uint32_t(), 0x40000000u, std::uint32_t()); attempt(std::uint16_t(), 0x80000000u, std::uint32_t());
}
SEQ_TEST(too_long, 0, 0) {
    Out m; m.write('x'); char const * d = reinterpret_cast<char const *>(m.getData()); (void)d; static Sz const n[] = { std::numeric_limits<Sz>::max(), std::numeric_limits<Sz>::max() - 1, std::numeric_limits<Sz>::max() / 2 + 1, std::numeric_limits<Sz>::max() / 8, std::numeric_limits<Sz>::max() / 8 + 1, std::numeric_limits<Sz>::max() - 8 }; Sz const k = n[seq::choose(6)]; std::uint64_t const v = 3; bool e = false;
    try { switch (seq::choose(4)) { case 0: m.writeArray(&v, k); break; case 1: m.writeSizeAndArray(&v, k); break; case 2: m.writeBytes(&v, k); break; case 3: m.write(reinterpret_cast<char const *>(&v), k); break; } } catch (NetworkMessage::MessageLengthError const &) { e = true; } catch (std::bad_alloc const &) { e = true; } SEQ_CHECK(e, "an impossible amount was written"); SEQ_CHECK(m.getSize() == 1 && m.getOffset() == 1 && *static_cast<char const *>(m.getData()) == 'x', "the message changed in a failed write"); seq::count(1);
}
SEQ_TEST(stream, 4, 6) {
    static std::string const src[] = { "", "12 ab\n\nx", std::string("\0\xff" "1\n", 4), "7" }; std::string const & s = src[seq::choose(4)]; std::unique_ptr<char[]> mem(new char[s.size()]); std::memcpy(mem.get(), s.data(), s.size()); InputMemoryStream a(mem.get(), s.size()); std::istringstream b(s); std::istream & as = a;
    for (int i = 0; i < seq::depth(); ++i) {
        switch (seq::choose(9)) {
        case 0: { int x = as.get(), y = b.get(); SEQ_CHECK(x == y, "get"); break; } case 1: { int x = as.peek(), y = b.peek(); SEQ_CHECK(x == y, "peek"); break; } case 2: { char x[4] = "...", y[4] = "..."; as.read(x, 3); b.read(y, 3); SEQ_CHECK(!std::memcmp(x, y, 4) && as.gcount() == b.gcount(), "read"); break; } case 3: { std::string x, y; std::getline(as, x); std::getline(b, y); SEQ_CHECK(x == y, "getline"); break; }
        case 4: { int x = -1, y = -1; as >> x; b >> y; SEQ_CHECK(x == y, "number"); break; } case 5: { std::string x, y; as >> x; b >> y; SEQ_CHECK(x == y, "word"); break; } case 6: as.unget(); b.unget(); break; case 7: as.clear(); b.clear(); break; case 8: as.ignore(2); b.ignore(2); break;
        }
        SEQ_CHECK(as.rdstate() == b.rdstate() && as.gcount() == b.gcount(), "stream state %d instead of %d", int(as.rdstate()), int(b.rdstate())); seq::count(1);
    }
    SEQ_CHECK(!std::memcmp(mem.get(), s.data(), s.size()), "the source changed");
}
SEQ_TEST(wide_stream, 0, 0) { std::wstring const s(L"12 ab"); BasicInputMemoryStream<wchar_t> a(s.data(), s.size()); int x = 0; std::wstring w; a >> x >> w; SEQ_CHECK(x == 12 && w == L"ab" && a.eof(), "wide stream"); seq::count(1); }
/* Lengths at which counters and chunks could wrap around. */
SEQ_TEST(large, 0, 0) {
    static Sz const ns[] = { 15, 16, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 8193, 32768, 65535, 65536, 65537, 100003, 300000 }; Sz const n = ns[seq::choose(18)]; int const how = seq::choose(6);
    std::string s(n, 0); for (Sz i = 0; i < n; ++i) s[i] = char(i * 31 + (i >> 8) * 7 + 1); std::vector<std::uint32_t> a(n); for (Sz i = 0; i < n; ++i) a[i] = std::uint32_t(i * 2654435761u);
    Out m; std::string all("x"); m.write('x');
    switch (how) { case 0: m.write(s); all += le(n, 8) + s; break; case 1: m.write(s.data(), n); all += le(n, 8) + s; break; case 2: m.writeBytes(s.data(), n); all += s; break; case 3: m.writeArray(a.data(), n); all += raw(a.data(), 4 * n); break; case 4: m.writeSizeAndArray<std::uint32_t>(a.data(), static_cast<std::uint32_t>(n)); all += le(n, 4) + raw(a.data(), 4 * n); break; case 5: { Out o; o.writeBytes(s.data(), n); m.write(o); all += s; break; } }
    SEQ_CHECK(m.getSize() == all.size() && m.getOffset() == all.size() && !std::memcmp(m.getData(), all.data(), all.size()), "a message of %zu bytes was written wrongly", all.size()); m.write('y'); all += 'y'; SEQ_CHECK(m.getSize() == all.size() && !std::memcmp(m.getData(), all.data(), all.size()), "a message of %zu bytes changed", all.size());
    for (Sz cut = 0; cut < 3; ++cut) {
        Sz const len = all.size() - cut; std::unique_ptr<char[]> mem(new char[len]); std::memcpy(mem.get(), all.data(), len); In r(mem.get(), len); char c = 0; SEQ_CHECK(r.read(c) && c == 'x', "byte"); Sz const body = all.size() - 2; bool ok = cut < 2, got = false;
        switch (how) {
        case 0: case 1: { std::string t("old"); got = r.read(t); if (got) SEQ_CHECK(t == s, "a string of %zu bytes", n); break; }
        case 2: case 5: { std::string t(n, 0); got = r.readBytes(&t[0], n); if (got) SEQ_CHECK(t == s, "%zu bytes", n); break; }
        case 3: { std::vector<std::uint32_t> b(n); got = r.readArray(b.data(), n); if (got) SEQ_CHECK(b == a, "an array of %zu elements", n); break; }
        case 4: { std::vector<std::uint32_t> b(n); std::uint32_t k = 0; SEQ_CHECK(r.readSize<std::uint32_t>(k) && k == n, "size"); got = r.readArray(b.data(), k); if (got) SEQ_CHECK(b == a, "an array of %zu elements", n); break; }
        }
        SEQ_CHECK(got == ok, "%zu of %zu bytes: the read %s", len, all.size(), got ? "succeeds" : "fails"); position(r, mem, len, ok ? body + 1 : how == 4 ? 5 : 1, "after reading"); if (cut == 0) SEQ_CHECK(r.read(c) && c == 'y' && r.getRemainingSize() == 0, "the byte which follows"); SEQ_CHECK(r.seek(len - 1) && r.read(c) && c == all[len - 1] && !r.seek(len), "the last byte");
    }
    InputMemoryStream in(s.data(), n); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); SEQ_CHECK(t == s, "a stream of %zu bytes gives %zu", n, t.size()); InputMemoryStream in2(s.data(), n); std::string u(n + 1, 0); in2.read(&u[0], std::streamsize(n + 1)); SEQ_CHECK(Sz(in2.gcount()) == n && in2.eof() && u.substr(0, n) == s, "a stream of %zu bytes", n); seq::count(n);
}
