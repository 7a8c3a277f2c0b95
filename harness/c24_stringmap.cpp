// C24: SimpleUnorderedStringMap with every kind of key, on all short strings (also with embedded zeros).
#include "seq.h"
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHashTablePredicate.h>

namespace {
std::vector<std::string> words(int n, std::string const & alphabet) {
    std::vector<std::string> r{""};
    for (std::size_t i = 0, from = 0; int(i) < n; ++i) { auto const to = r.size(); for (; from < to; ++from) for (char c : alphabet) r.push_back(r[from] + c); }
    return r;
}
using Map = sharemind::SimpleUnorderedStringMap<int>;
int at(Map const & m, Map::const_iterator it) { return it == m.end() ? -1 : it->second; }
void agree(Map & m, std::map<std::string, int> const & r, std::vector<std::string> const & all) {
    Map const & c = m;
    SEQ_CHECK(c.size() == r.size(), "size");
    for (auto const & w : all) {
        auto ri = r.find(w); int const e = ri == r.end() ? -1 : ri->second;
        std::string lw(w); std::vector<char> vec(w.begin(), w.end()); std::list<char> const lst(w.begin(), w.end());
        auto is = [&](int v, char const * n) { SEQ_CHECK(v == e, "%s of \"%s\" (%zu characters) gives %d instead of %d", n, w.c_str(), w.size(), v, e); };
        is(at(c, m.find(w)), "find"); is(at(c, c.find(w)), "find const");
        is(at(c, m.find(lw)), "find(lvalue)"); is(at(c, m.find(vec)), "find(vector)"); is(at(c, c.find(vec)), "find(vector) const");
        is(at(c, c.find(lst)), "find(list)"); is(at(c, m.find(lst)), "find(list)");
        is(at(c, c.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(lw))), "find(predicate)");
        is(at(c, m.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(vec))), "find(vector predicate)");
        is(at(c, c.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(lst))), "find(list predicate)");
        bool const has = e >= 0;
        SEQ_CHECK(c.contains(w) == has && c.contains(vec) == has && c.contains(lst) == has, "contains(\"%s\")", w.c_str());
        SEQ_CHECK(c.count(w) == has && c.count(vec) == has && c.count(lst) == has, "count(\"%s\")", w.c_str());
        if (std::strlen(w.c_str()) == w.size()) {
            is(at(c, m.find(w.c_str())), "find(C string)"); is(at(c, c.find(w.c_str())), "find(C string) const");
            is(at(c, c.find(sharemind::getOrCreateTemporaryStringHashTablePredicate(w.c_str()))), "find(C string predicate)");
            SEQ_CHECK(c.contains(w.c_str()) == has && c.count(w.c_str()) == has, "contains(C string \"%s\")", w.c_str());
        }
    }
    std::size_t n = 0; for (auto const & e : c) { auto ri = r.find(e.first); SEQ_CHECK(ri != r.end() && ri->second == e.second, "iterated entry"); ++n; }
    SEQ_CHECK(n == r.size(), "iteration visits %zu of %zu entries", n, r.size());
}
} // namespace
SEQ_TEST(histories, 4, 5) {
    static auto const ws = words(2, std::string("a\0", 2)); // 7 words
    Map m; std::map<std::string, int> r;
    for (int s = 0; s < seq::depth(); ++s) {
        auto const & w = ws[seq::choose(int(ws.size()))];
        std::vector<char> const vec(w.begin(), w.end());
        switch (seq::choose(5)) {
        case 0: { bool ins = m.emplace(w, s).second; SEQ_CHECK(ins == r.emplace(w, s).second, "emplace"); break; }
        case 1: m[w] = s; r[w] = s; break;
        case 2: { auto n = m.erase(w); SEQ_CHECK(n == r.erase(w), "erase"); break; }
        case 3: { auto n = m.erase(vec); SEQ_CHECK(n == r.erase(w), "erase(vector)"); break; }
        case 4: if (std::strlen(w.c_str()) != w.size()) return; else { auto n = m.erase(w.c_str()); SEQ_CHECK(n == r.erase(w), "erase(C string)"); break; }
        }
        if (s + 1 == seq::depth()) agree(m, r, ws);
        std::uint64_t h = 0; for (auto & e : r) h = seq::mix(h, &*ws.begin() - &*std::find(ws.begin(), ws.end(), e.first)); seq::state(h);
    }
}
SEQ_TEST(all_subsets, 0, 0) {
    static auto const ws = words(3, "ab"); Map m; std::map<std::string, int> r; int v = 0;
    for (auto const & w : ws) { ++v; if (seq::flip()) { m[w] = v; r[w] = v; } }
    agree(m, r, ws);
}
