// C27: uint_t: every operation on a lattice of operands (all operands for small widths), for several block types, next to exact arithmetic.
#include "seq.h"
#include <algorithm>
#include <cstdint>
#include <iomanip>
#include <ios>
#include <map>
#include <sstream>
#include <streambuf>
#include <string>
#include <type_traits>
#include <vector>
#include <sharemind/uint_t.h>

namespace {
using sharemind::uint_t; using sharemind::uint128_t;
using U128 = unsigned __int128;

struct Big { // exact 1056 bit arithmetic, 33 limbs
    enum { L = 33 }; std::uint32_t d[L] = {};
    Big() {} Big(std::uint64_t v) { d[0] = std::uint32_t(v); d[1] = std::uint32_t(v >> 32); }
    explicit operator std::uint64_t() const { return d[0] | (std::uint64_t(d[1]) << 32); }
    explicit operator std::uint32_t() const { return d[0]; } explicit operator std::uint16_t() const { return std::uint16_t(d[0]); } explicit operator std::uint8_t() const { return std::uint8_t(d[0]); }
    explicit operator U128() const { U128 r = 0; for (int i = 4; i--;) r = (r << 32) | d[i]; return r; }
    __attribute__((noinline)) static int cmp(Big const & a, Big const & b) { for (int i = L; i--;) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
    __attribute__((noinline)) static Big add(Big const & a, Big const & b) { Big r; std::uint64_t c = 0; for (int i = 0; i < L; ++i) { c += std::uint64_t(a.d[i]) + b.d[i]; r.d[i] = std::uint32_t(c); c >>= 32; } return r; }
    __attribute__((noinline)) static Big sub(Big const & a, Big const & b) { Big r; std::uint64_t c = 1; for (int i = 0; i < L; ++i) { c += std::uint64_t(a.d[i]) + std::uint32_t(~b.d[i]); r.d[i] = std::uint32_t(c); c >>= 32; } return r; }
    __attribute__((noinline)) static Big mul(Big const & a, Big const & b) { Big r; for (int i = 0; i < L; ++i) { if (!a.d[i]) continue; std::uint64_t c = 0; for (int j = 0; i + j < L; ++j) { c += std::uint64_t(a.d[i]) * b.d[j] + r.d[i + j]; r.d[i + j] = std::uint32_t(c); c >>= 32; } } return r; }
    __attribute__((noinline)) static Big shl(Big const & a, unsigned s) { Big r; for (int i = L; i--;) { int const k = i - int(s / 32); std::uint64_t v = 0; if (k >= 0) v = std::uint64_t(a.d[k]) << 32; if (k >= 1) v |= a.d[k - 1]; r.d[i] = std::uint32_t(v >> (32 - s % 32)); } return r; }
    __attribute__((noinline)) static Big shr(Big const & a, unsigned s) { Big r; for (int i = 0; i < L; ++i) { int const k = i + int(s / 32); std::uint64_t v = 0; if (k < L) v = a.d[k]; if (k + 1 < L) v |= std::uint64_t(a.d[k + 1]) << 32; r.d[i] = std::uint32_t(v >> (s % 32)); } return r; }
    __attribute__((noinline)) static void div(Big const & a, Big const & b, Big & q, Big & r) { Big qq, rr; int top = L * 32 - 1; while (top >= 0 && !((a.d[top / 32] >> (top % 32)) & 1)) --top; for (int i = top; i >= 0; --i) { rr = shl(rr, 1); rr.d[0] |= (a.d[i / 32] >> (i % 32)) & 1; if (cmp(rr, b) >= 0) { rr = sub(rr, b); qq.d[i / 32] |= 1u << (i % 32); } } q = qq; r = rr; }
    friend Big operator+(Big const & a, Big const & b) { return add(a, b); } friend Big operator-(Big const & a, Big const & b) { return sub(a, b); } friend Big operator*(Big const & a, Big const & b) { return mul(a, b); }
    friend Big operator/(Big const & a, Big const & b) { Big q, r; div(a, b, q, r); return q; } friend Big operator%(Big const & a, Big const & b) { Big q, r; div(a, b, q, r); return r; }
    friend Big operator&(Big a, Big const & b) { for (int i = 0; i < L; ++i) a.d[i] &= b.d[i]; return a; } friend Big operator|(Big a, Big const & b) { for (int i = 0; i < L; ++i) a.d[i] |= b.d[i]; return a; } friend Big operator^(Big a, Big const & b) { for (int i = 0; i < L; ++i) a.d[i] ^= b.d[i]; return a; }
    friend Big operator<<(Big const & a, unsigned s) { return shl(a, s); } friend Big operator>>(Big const & a, unsigned s) { return shr(a, s); }
    Big & operator<<=(unsigned s) { return *this = shl(*this, s); } Big & operator>>=(unsigned s) { return *this = shr(*this, s); } Big & operator|=(Big const & b) { return *this = *this | b; } Big & operator/=(Big const & b) { return *this = *this / b; }
    friend bool operator==(Big const & a, Big const & b) { return !cmp(a, b); } friend bool operator!=(Big const & a, Big const & b) { return cmp(a, b); } friend bool operator<(Big const & a, Big const & b) { return cmp(a, b) < 0; } friend bool operator<=(Big const & a, Big const & b) { return cmp(a, b) <= 0; } friend bool operator>(Big const & a, Big const & b) { return cmp(a, b) > 0; } friend bool operator>=(Big const & a, Big const & b) { return cmp(a, b) >= 0; }
};

char const lowerDigits[] = "0123456789abcdef", upperDigits[] = "0123456789ABCDEF";
std::string text(Big v, unsigned base, bool up) { char const * const t = up ? upperDigits : lowerDigits; if (v == 0) return "0"; std::string s; while (v != 0) { unsigned c = 0; for (int i = Big::L; i--;) { std::uint64_t const x = (std::uint64_t(c) << 32) | v.d[i]; v.d[i] = std::uint32_t(x / base); c = unsigned(x % base); } s.insert(s.begin(), t[c]); } return s; }
std::string hex(Big const & v) { return text(v, 16, false); }
std::string hex(U128 v) { Big b; for (int i = 0; i < 4; ++i) { b.d[i] = std::uint32_t(v); v >>= 32; } return hex(b); }
using Words = std::vector<std::uint32_t>;
Words toWords(Big const & v) { return Words(v.d, v.d + Big::L); }
Words toWords(U128 v) { Words w; for (int i = 0; i < 4; ++i) { w.push_back(std::uint32_t(v)); v >>= 32; } return w; }
void ref(Words const & w, Big & v) { v = Big(); std::copy(w.begin(), w.begin() + std::min<std::size_t>(w.size(), Big::L), v.d); }
void ref(Words const & w, U128 & v) { v = 0; for (std::size_t i = 4; i--;) v = (v << 32) | (i < w.size() ? w[i] : 0); }
enum { ADD, SUB, MUL, AND, OR, XOR, SHLW, SHRW, DIVQ, DIVR, QUOT, REM, binOps }; // each also as compound assignment, where there is one
enum { NOT, NEG, INC, INCV, POSTINC, POSTINCV, DEC, DECV, POSTDEC, POSTDECV, SHL, SHR, SHLA, SHRA, SHLI, SHRI, SETB, RESETB, FLIPB, XORB, XORB0, ORB, ORB0, ANDB, ANDB0, SUBB, SUBB0, BITBIT, BITBIT2, COPY, MOVE, ASSIGN, MOVEASSIGN, SELF, SELFMOVE, ADDSELF, SUBSELF, MULSELF, PLUSINT, INTPLUS, INTMINUS, CLEARUNUSED, unOps };
char const * const binNames[] = {"+", "-", "*", "&", "|", "^", "<<", ">>", "divMod().quot", "divMod().rem", "/", "%"};
char const * const unNames[] = {"~", "negation", "++", "++ (value)", "post++", "post++ (value)", "--", "-- (value)", "post--", "post-- (value)", "<<", ">>", "<<=", ">>=", "<< int", ">> int", "bit = 1", "bit = 0", "flip", "bit ^= 1", "bit ^= 0", "bit |= 1", "bit |= 0", "bit &= 0", "bit &= 1", "bit -= 1", "bit -= 0", "bit = bit", "bit = const bit", "copy", "move", "assignment", "move assignment", "self-assignment", "self-move", "+= itself", "-= itself", "*= itself", "+ int", "int +", "0 -", "clear_unused_bits"};
struct Ops {
    unsigned N, bb;
    Words (*bin)(int op, bool compound, Words const & a, Words const & b);
    Words (*un)(int op, unsigned s, Words const & a);
    unsigned (*rel)(Words const & a, Words const & b);
    unsigned (*byZero)(Words const & a);
    unsigned (*bits)(unsigned s, Words const & a); // bits read in different ways
    void (*print)(std::ostream & o, Words const & a);
};
template <unsigned N, typename B> struct T {
    using X = uint_t<N, B>;
    static X real(Words const & w) { X r; for (std::size_t i = 0; i < r.num_of_blocks; ++i) { std::uint64_t x = 0; std::size_t const bit = i * 8 * sizeof(B), k = bit / 32; x = k < w.size() ? w[k] : 0; if (k + 1 < w.size()) x |= std::uint64_t(w[k + 1]) << 32; r.block(i) = B(x >> (bit % 32)); } return r; }
    static Words words(X const & x) { Words w((X::num_of_blocks * 8 * sizeof(B) + 63) / 32, 0); for (std::size_t i = 0; i < X::num_of_blocks; ++i) { std::size_t const bit = i * 8 * sizeof(B), k = bit / 32; std::uint64_t const v = std::uint64_t(x.block(i)) << (bit % 32); w[k] |= std::uint32_t(v); if (sizeof(B) == 8) w[k + 1] |= std::uint32_t(v >> 32); } return w; }
    static Words bin(int op, bool c, Words const & aw, Words const & bw) {
        X x(real(aw)); X const y(real(bw));
        if (!c) switch (op) { case ADD: return words(x + y); case SUB: return words(x - y); case MUL: return words(x * y); case AND: return words(x & y); case OR: return words(x | y); case XOR: return words(x ^ y); case SHLW: return words(x << y); case SHRW: return words(x >> y);
            case DIVQ: return words(divMod(x, y).quot); case DIVR: return words(divMod(x, y).rem); case QUOT: return words(x / y); default: return words(x % y); }
        X * r = &x;
        switch (op) { case ADD: r = &(x += y); break; case SUB: r = &(x -= y); break; case MUL: r = &(x *= y); break; case AND: r = &(x &= y); break; case OR: r = &(x |= y); break; case XOR: r = &(x ^= y); break; case SHLW: r = &(x <<= y); break; case SHRW: r = &(x >>= y); break; case QUOT: r = &(x /= y); break; case REM: r = &(x %= y); break; default: break; }
        if (r != &x) seq::fail("%s= doesn't return the object", binNames[op]);
        return words(x);
    }
    static Words un(int op, unsigned s, Words const & aw) {
        X x(real(aw)); X const c(x); std::uint64_t const l = s;
        switch (op) {
        case NOT: return words(~x); case NEG: return words(-x); case INC: ++x; break; case INCV: return words(++x); case POSTINC: x++; break; case POSTINCV: return words(x++); case DEC: --x; break; case DECV: return words(--x); case POSTDEC: x--; break; case POSTDECV: return words(x--);
        case SHL: return words(x << l); case SHR: return words(x >> l); case SHLA: x <<= l; break; case SHRA: x >>= l; break; case SHLI: return words(x << int(s)); case SHRI: return words(x >> int(s));
        case SETB: x[s] = true; break; case RESETB: x[s] = false; break; case FLIPB: x[s].flip(); break; case XORB: x[s] ^= true; break; case XORB0: x[s] ^= false; break; case ORB: x[s] |= true; break; case ORB0: x[s] |= false; break; case ANDB: x[s] &= false; break; case ANDB0: x[s] &= true; break; case SUBB: x[s] -= true; break; case SUBB0: x[s] -= false; break; case BITBIT: x[s] = x[0]; break; case BITBIT2: x[0] = c[s]; break;
        case COPY: return words(X(c)); case MOVE: { X y(static_cast<X &&>(x)); return words(y); } case ASSIGN: { X y; y = c; return words(y); } case MOVEASSIGN: { X y(~X()); y = static_cast<X &&>(x); return words(y); } case SELF: x = c; x = x; break; case SELFMOVE: x = static_cast<X &&>(x); break;
        case ADDSELF: x += x; break; case SUBSELF: x -= x; break; case MULSELF: x *= x; break; case PLUSINT: return words(x + 1); case INTPLUS: return words(1u + x); case INTMINUS: return words(0 - x);
        case CLEARUNUSED: x.block(X::num_of_blocks - 1) |= B(~X::last_block_mask); x.clear_unused_bits(); break;
        }
        return words(x);
    }
    static unsigned rel(Words const & aw, Words const & bw) { X const x(real(aw)), y(real(bw)); return unsigned(x == y) | unsigned(x != y) << 1 | unsigned(x < y) << 2 | unsigned(x <= y) << 3 | unsigned(x > y) << 4 | unsigned(x >= y) << 5 | unsigned(!x) << 6 | unsigned(x == 0) << 7 | unsigned(x > 0u) << 8; }
    static unsigned byZero(Words const & aw) {
        X const x(real(aw)), y; unsigned t = 0; try { (void) (x / y); } catch (typename X::division_by_zero_error const &) { ++t; } try { (void) (x % y); } catch (std::runtime_error const &) { ++t; } try { (void) divMod(x, y); } catch (typename X::division_by_zero_error const &) { ++t; }
        X z(x); try { z /= y; } catch (typename X::division_by_zero_error const &) { ++t; } try { z %= y; } catch (typename X::division_by_zero_error const &) { ++t; } if (z == x) ++t;
        return t;
    }
    static unsigned bits(unsigned s, Words const & aw) { X x(real(aw)); X const & c = x; return unsigned(c[s]) | unsigned(bool(x[s])) << 1 | unsigned(!(~x[s])) << 2; }
    static void print(std::ostream & o, Words const & aw) { o << real(aw); }
    static Ops const ops;
    // conversions
    static void is(X const & x, Words const & want, char const * what) { Words g(words(x)); Big a, b; ref(g, a); ref(want, b); b = b & (Big::shl(Big(1), N) - Big(1)); if (a != b) seq::fail("%u bits, %zu bit blocks: %s gives %s instead of %s", N, 8 * sizeof(B), what, hex(a).c_str(), hex(b).c_str()); }
    template <typename V> static void fromAll() { V const f = std::numeric_limits<V>::max(); for (V v : {V(0), V(1), V(2), f, V(f - 1), V(f / 2), V(f / 2 + 1), V(f / 3), V(7)}) { if (v < V(0)) continue; Words const w = toWords(U128(v)); X const x(v); is(x, w, "conversion of an integer"); X y(~X()); y = v; is(y, w, "assigned conversion of an integer"); } }
    template <unsigned N2, typename B2> static void fromOther();
    template <typename V> static void demote(X const & x, Big const & a) { if constexpr (8 * sizeof(V) < N) { V const d = sharemind::demote_integer<V>(x); if (std::uint64_t(d) != (std::uint64_t(a) & std::numeric_limits<V>::max())) seq::fail("%u bits, %zu bit blocks: %s demoted to %zu bits is %llx", N, 8 * sizeof(B), hex(a).c_str(), 8 * sizeof(V), (unsigned long long) d); } }
    static void conversions();
};
template <unsigned N, typename B> Ops const T<N, B>::ops = {N, 8 * sizeof(B), bin, un, rel, byZero, bits, print};

template <typename R> struct Check {
    Ops const & o; R const one; R const top; // 2^N
    Check(Ops const & ops) : o(ops), one(1), top(R(1) << ops.N) {}
    R m(R const & v) const { return v & (top - one); }
    std::vector<R> const & values() const { static std::map<Ops const *, std::vector<R>> m; auto & v = m[&o]; if (v.empty()) v = make(); return v; }
    std::vector<R> make() const {
        std::vector<R> v; unsigned const N = o.N, bb = o.bb; std::size_t const n = (N + bb - 1) / bb;
        if (N <= 8) { for (unsigned i = 0; i < (1u << N); ++i) v.push_back(R(i)); return v; }
        R const f = (R(1) << bb) - one;
        std::vector<R> p{R(0), f, R(1), R(1) << (bb - 1)}; if (n <= 3) p.push_back(f >> 1); if (n <= 2) { p.push_back(f - one); p.push_back((f >> 2) ^ (f >> 5)); p.push_back(R(1) << (bb / 2)); }
        if (seq::thorough() && n <= 2) { p.push_back(f / R(3)); p.push_back((f >> 1) + R(2)); p.push_back(R(3)); p.push_back(f - R(6)); }
        if (seq::thorough() && n == 4) p.push_back(f - one);
        if (n > 4) p.resize(2);
        std::size_t total = 1; for (std::size_t i = 0; i < n && total < 1100; ++i) total *= p.size();
        if (n <= 9) for (std::size_t k = 0; k < total; ++k) { R x(0); std::size_t q = k; for (std::size_t i = 0; i < n; ++i) { x = (x << bb) | p[q % p.size()]; q /= p.size(); } v.push_back(m(x)); }
        for (unsigned i = 0; i < N; i += n > 4 ? (N > 300 ? 71 : 7) : N / 2) { v.push_back(R(1) << i); v.push_back(m((R(1) << i) - one)); v.push_back(m(top - (R(1) << i))); }
        { R x(0); for (unsigned i = 0; i < N; i += 5) x = (x << 5) | R((i * i + 3) % 31); v.push_back(m(x)); v.push_back(m(x) >> 3); v.push_back(m(x) >> (N / 2 + 1)); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }
    void eq(Words const & got, R const & want, char const * what, R const & a, R const & b) const { R g; ref(got, g); if (g != want) seq::fail("%u bits, %u bit blocks: %s with %s and %s is %s instead of %s", o.N, o.bb, what, hex(a).c_str(), hex(b).c_str(), hex(g).c_str(), hex(want).c_str()); }
    void pairs() const {
        auto const & v = values(); R const a = v[std::size_t(seq::choose(int(v.size())))]; Words const aw = toWords(a); std::size_t n = 0;
        for (auto const & b : v) {
            ++n; Words const bw = toWords(b); R q, r; if (b != R(0)) { q = a / b; r = a - q * b; }
            for (int op = 0; op < binOps; ++op) {
                if ((op == SHLW || op == SHRW) && !(b < R(o.N))) continue; // too far
                if (op >= DIVQ && b == R(0)) continue;
                if (op >= QUOT && !(o.N <= 16 || n % 8 == 0)) continue; // slow
                unsigned const s = b < R(o.N) ? static_cast<unsigned>(static_cast<std::uint64_t>(b)) : 0;
                R const want = op == ADD ? m(a + b) : op == SUB ? m(a + top - b) : op == MUL ? m(a * b) : op == AND ? a & b : op == OR ? a | b : op == XOR ? a ^ b : op == SHLW ? m(a << s) : op == SHRW ? a >> s : op == DIVQ || op == QUOT ? q : r;
                eq(o.bin(op, false, aw, bw), want, binNames[op], a, b);
                if (op != DIVQ && op != DIVR) eq(o.bin(op, true, aw, bw), want, (std::string(binNames[op]) + "=").c_str(), a, b);
            }
            unsigned const want = unsigned(a == b) | unsigned(a != b) << 1 | unsigned(a < b) << 2 | unsigned(a <= b) << 3 | unsigned(a > b) << 4 | unsigned(a >= b) << 5 | unsigned(a == R(0)) << 6 | unsigned(a == R(0)) << 7 | unsigned(a != R(0)) << 8, got = o.rel(aw, bw);
            SEQ_CHECK(got == want, "%u bits, %u bit blocks: comparisons (== != < <= > >= ! ==0 >0) of %s and %s are %x instead of %x", o.N, o.bb, hex(a).c_str(), hex(b).c_str(), got, want);
        }
        SEQ_CHECK(o.byZero(aw) == 6, "%u bits, %u bit blocks: division by zero isn't reported", o.N, o.bb);
        seq::count(n);
    }
    void unary() const {
        auto const & v = values(); R const a = v[std::size_t(seq::choose(int(v.size())))]; Words const aw = toWords(a); R const minus = top - one, inc = m(a + one), dec = m(a + minus), neg = m(top - a);
        R const want[] = {a ^ minus, neg, inc, inc, inc, a, dec, dec, dec, a};
        for (int op = NOT; op <= POSTDECV; ++op) eq(o.un(op, 0, aw), want[op], unNames[op], a, a);
        for (int op = COPY; op < unOps; ++op) eq(o.un(op, 0, aw), op == ADDSELF ? m(a + a) : op == SUBSELF ? R(0) : op == MULSELF ? m(a * a) : op == PLUSINT || op == INTPLUS ? inc : op == INTMINUS ? neg : a, unNames[op], a, a);
        for (unsigned s = 0; s < o.N; ++s) {
            bool const bit = ((a >> s) & one) != R(0), low = (a & one) != R(0); R const on = a | (R(1) << s), off = on ^ (R(1) << s), fl = bit ? off : on;
            R const w[] = {m(a << s), a >> s, m(a << s), a >> s, m(a << s), a >> s, on, off, fl, fl, a, on, a, off, a, off, a, low ? on : off, bit ? a | one : ((a | one) ^ one)};
            for (int op = SHL; op <= BITBIT2; ++op) eq(o.un(op, s, aw), w[op - SHL], unNames[op], a, R(s));
            SEQ_CHECK(o.bits(s, aw) == (bit ? 7 : 0), "%u bits, %u bit blocks: bit %u of %s is read as %u", o.N, o.bb, s, hex(a).c_str(), o.bits(s, aw));
        }
        Big big; ref(aw, big);
        for (int k = 0; k < 12; ++k) {
            if (o.N > 300 && k != 7) continue; // slow
            unsigned const base = k % 3 == 0 ? 10 : k % 3 == 1 ? 16 : 8; bool const up = (k / 3) & 1, pos = k / 6;
            std::ostringstream os; os << (base == 10 ? std::dec : base == 16 ? std::hex : std::oct); if (up) os << std::uppercase; if (pos) os << std::showpos;
            os << '<'; o.print(os, aw); os << '>'; std::string t = text(big, base, up); if (pos && big != Big()) t = "+" + t;
            SEQ_CHECK(os.str() == "<" + t + ">", "%u bits, %u bit blocks: %s printed in base %u as %s", o.N, o.bb, hex(a).c_str(), base, os.str().c_str());
        }
        { struct Buf : std::streambuf { int overflow(int) override { throw 5; } std::streamsize xsputn(char const *, std::streamsize) override { throw 5; } } b; std::ostream os(&b); os.exceptions(std::ios::badbit); bool t = false; try { o.print(os, aw); } catch (int) { t = true; } SEQ_CHECK(t, "a failure of the stream is swallowed"); }
        seq::count(o.N);
    }
};
template <unsigned N, typename B> template <unsigned N2, typename B2> void T<N, B>::fromOther() {
    for (auto const & b : Check<Big>(T<N2, B2>::ops).values()) { uint_t<N2, B2> const y(T<N2, B2>::real(toWords(b))); Words const w = toWords(b); X const x(y); is(x, w, "conversion of another uint_t"); X z(~X()); z = y; is(z, w, "assigned conversion of another uint_t"); if constexpr (N < N2) is(sharemind::demote_integer<X>(y), w, "demotion of another uint_t"); }
}
template <unsigned N, typename B> void T<N, B>::conversions() {
    auto const & v = Check<Big>(ops).values();
    switch (seq::choose(4)) {
    case 0: for (auto const & a : v) { X const x(real(toWords(a))); SEQ_CHECK(sharemind::demote_integer<bool>(x) == (a != Big()), "demotion to bool");
            demote<std::uint8_t>(x, a); demote<std::uint16_t>(x, a); demote<std::uint32_t>(x, a); demote<std::uint64_t>(x, a);
            if constexpr (N > 128) { uint128_t const d = sharemind::demote_integer<uint128_t>(x); U128 const w = static_cast<U128>(a); SEQ_CHECK(d.upper() == std::uint64_t(w >> 64) && d.lower() == std::uint64_t(w), "demotion to 128 bits"); } } break;
    case 1: fromAll<bool>(); fromAll<std::uint8_t>(); fromAll<std::uint16_t>(); fromAll<std::uint32_t>(); fromAll<std::uint64_t>(); fromAll<int>(); fromAll<long>(); fromAll<signed char>(); break;
    case 2: fromOther<5, std::uint8_t>(); fromOther<23, std::uint8_t>(); fromOther<40, std::uint16_t>(); fromOther<64, std::uint64_t>(); fromOther<77, std::uint32_t>(); fromOther<128, std::uint64_t>(); fromOther<200, std::uint64_t>(); fromOther<72, std::uint8_t>(); fromOther<150, std::uint16_t>(); break;
    default: { std::uint64_t const h[] = {0, 1, ~0ull, 1ull << 63, 0x123456789abcdef0ull};
        for (auto u : h) for (auto l : h) { Words const w = toWords((U128(u) << 64) | l); uint128_t const y(u, l); X const x(y); is(x, w, "conversion of an uint128_t"); X z(~X()); z = y; is(z, w, "assigned conversion of an uint128_t"); }
        struct G { void operator()(B * b, B * e) const { for (unsigned k = 1; b != e; ++b) *b = B(~B(0) - k++); } } g; Big w; for (std::size_t i = X::num_of_blocks; i--;) { w <<= 8 * sizeof(B); w |= Big(B(~B(0) - (i + 1))); } is(X(g), toWords(w), "a generator"); G const c; is(X(c), toWords(w), "a generator"); is(X(G()), toWords(w), "a generator"); }
    }
    seq::count(v.size());
}
template <typename R> void run(Ops const & o) { if (seq::flip()) Check<R>(o).unary(); else Check<R>(o).pairs(); }
void mult() { // multHiLo
    std::uint64_t const p[] = {0, 1, 2, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0xffffffff00000000, ~0ull, 1ull << 63, 0x7fffffffffffffff, 0x123456789abcdef1, 0x80000001, 0xfffffffe00000001};
    auto const u = p[seq::choose(14)], v = p[seq::choose(14)];
    { auto const r = sharemind::multHiLo<std::uint64_t>(u, v); U128 const w = U128(u) * v; SEQ_CHECK(r.hi == std::uint64_t(w >> 64) && r.lo == std::uint64_t(w), "multHiLo of %llx and %llx", (long long) u, (long long) v); }
    { std::uint32_t const a(u ^ (u >> 32)), b(v ^ (v >> 32)); auto const r = sharemind::multHiLo<std::uint32_t>(a, b); std::uint64_t const w = std::uint64_t(a) * b; SEQ_CHECK(r.hi == w >> 32 && r.lo == std::uint32_t(w), "multHiLo of %x and %x", a, b); }
    { std::uint16_t const a(u >> 48 | u), b(v >> 48 | v); auto const r = sharemind::multHiLo<std::uint16_t>(a, b); std::uint32_t const w = std::uint32_t(a) * b; SEQ_CHECK(r.hi == w >> 16 && r.lo == std::uint16_t(w), "multHiLo of %x and %x", a, b); }
    if (u == 0 && v == 0) for (unsigned a = 0; a < 256; ++a) for (unsigned b = 0; b < 256; ++b) { auto const r = sharemind::multHiLo<std::uint8_t>(std::uint8_t(a), std::uint8_t(b)); SEQ_CHECK(r.hi == (a * b) >> 8 && r.lo == ((a * b) & 255), "multHiLo of %u and %u", a, b); }
}
} // namespace
SEQ_TEST(tiny, 0, 0) { Ops const * const o[] = {&T<1, std::uint8_t>::ops, &T<2, std::uint8_t>::ops, &T<3, std::uint16_t>::ops, &T<4, std::uint8_t>::ops, &T<4, std::uint64_t>::ops, &T<5, std::uint8_t>::ops, &T<7, std::uint8_t>::ops, &T<8, std::uint8_t>::ops}; run<U128>(*o[seq::choose(8)]); }
SEQ_TEST(small, 0, 0) { Ops const * const o[] = {&T<9, std::uint8_t>::ops, &T<16, std::uint8_t>::ops, &T<23, std::uint8_t>::ops, &T<16, std::uint16_t>::ops, &T<32, std::uint16_t>::ops, &T<40, std::uint16_t>::ops}; run<U128>(*o[seq::choose(6)]); }
SEQ_TEST(medium, 0, 0) { Ops const * const o[] = {&T<32, std::uint32_t>::ops, &T<31, std::uint32_t>::ops, &T<64, std::uint32_t>::ops, &T<64, std::uint64_t>::ops, &T<63, std::uint64_t>::ops}; run<U128>(*o[seq::choose(5)]); }
SEQ_TEST(wide, 0, 0) { Ops const * const o[] = {&T<65, std::uint64_t>::ops, &T<77, std::uint32_t>::ops, &T<128, std::uint64_t>::ops}; run<Big>(*o[seq::choose(3)]); }
SEQ_TEST(wider, 0, 0) { Ops const * const o[] = {&T<72, std::uint8_t>::ops, &T<200, std::uint64_t>::ops, &T<770, std::uint64_t>::ops}; run<Big>(*o[seq::choose(3)]); }
SEQ_TEST(conversions, 0, 0) { switch (seq::choose(12)) { case 9: T<72, std::uint8_t>::conversions(); break; case 10: T<150, std::uint8_t>::conversions(); break; case 11: T<150, std::uint16_t>::conversions(); break; case 0: T<1, std::uint8_t>::conversions(); break; case 1: T<5, std::uint8_t>::conversions(); break; case 2: T<23, std::uint8_t>::conversions(); break; case 3: T<40, std::uint16_t>::conversions(); break; case 4: T<64, std::uint64_t>::conversions(); break; case 5: T<64, std::uint32_t>::conversions(); break; case 6: T<77, std::uint32_t>::conversions(); break; case 7: T<128, std::uint64_t>::conversions(); break; default: T<200, std::uint64_t>::conversions(); } }
SEQ_TEST(multiplication, 0, 0) { mult(); }
template <unsigned N, typename B> void longShifts() {
    using U = uint_t<N, B>; int const k = seq::choose(3); Big a; for (unsigned i = 0; i < N; i += 5) a = (a << 5) | Big((i * i + 3) % 31); if (k == 1) a = Big::shl(Big(1), N) - Big(1); if (k == 2) a = Big(1) | (Big(1) << (N - 1)); Big const all = Big::shl(Big(1), N) - Big(1); a = a & all; U const x(T<N, B>::real(toWords(a)));
    for (unsigned s = 0; s < N; ++s) {
        U const n(s); U y(x), z(x); y <<= n; z >>= n; Big const l = (a << s) & all, r = a >> s; auto is = [s](U const & v, Big const & want, char const * what) { Big g; ref(T<N, B>::words(v), g); SEQ_CHECK(g == want, "%u bits, %zu bit blocks: %s by %u", N, 8 * sizeof(B), what, s); };
        is(x << n, l, "<<"); is(x >> n, r, ">>"); is(y, l, "<<="); is(z, r, ">>="); is(x << std::uint64_t(s), l, "<< (64 bit)"); is(x >> std::uint64_t(s), r, ">> (64 bit)"); seq::count(6);
    }
    std::ostringstream o, w; x.dump_blocks(o); for (std::size_t i = 0; i < U::num_of_blocks; ++i) w << hex(Big(std::uint64_t(x.block(i)))) << ' '; w << "\n"; SEQ_CHECK(o.str() == w.str(), "blocks printed as %s instead of %s", o.str().c_str(), w.str().c_str());
}
SEQ_TEST(long_shifts, 0, 0) { switch (seq::choose(4)) { case 0: longShifts<300, std::uint8_t>(); break; case 1: longShifts<520, std::uint16_t>(); break; case 2: longShifts<1000, std::uint64_t>(); break; default: longShifts<257, std::uint32_t>(); } }
