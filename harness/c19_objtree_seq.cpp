// C19: all histories of object trees, with memory exhaustion.
#include "seq.h"
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <vector>
#include <sharemind/ObjectTree.h>

namespace {
struct Child;
struct CheckedMutex {
    bool locked = false;
    void lock() noexcept { SEQ_CHECK(!locked, "deadlock: locked recursively"); locked = true; }
    void unlock() noexcept { SEQ_CHECK(locked, "unlocked without being locked"); locked = false; }
    ~CheckedMutex() { SEQ_CHECK(!locked, "mutex destroyed while locked"); }
};
struct Parent {
    using Node = sharemind::ObjectTree::ParentNode<Parent, Child, CheckedMutex>;
    explicit Parent();
    Node node;
};
Child * byParent[1024]; int nByParent;
struct Child {
    seq::Tracked t;
    sharemind::ObjectTree::ChildNode<Parent::Node, &Parent::node> childNode;
    explicit Child(Parent * p) : childNode(p, this) {}
};
bool deleteThem;
Parent::Parent() : node([](Child * c) { byParent[nByParent++] = c; SEQ_CHECK(!c->childNode.parent(), "child of a destroyed parent still has it"); if (deleteThem) delete c; }) {}
void histories(int depth, bool faults) {
    deleteThem = seq::flip();
    std::unique_ptr<Parent> p[2];
    p[0].reset(new Parent); p[1].reset(new Parent);
    Child * c[3] = {}; int of[3] = {-1, -1, -1};
    for (int s = 0; s < depth; ++s) {
        int const i = seq::choose(3);
        if (!c[i]) {
            int const to = seq::choose(3) - 1;
            seq::op("c%d attached to %d", i, to);
            int const f = seq::faultsFired();
            if (faults) seq::armAllocFaults(1);
            try { c[i] = new Child(to < 0 ? nullptr : p[to].get()); of[i] = to < 0 || !p[to] ? -1 : to; }
            catch (std::bad_alloc const &) { SEQ_CHECK(seq::faultsFired() > f, "bad_alloc"); }
            seq::disarmAllocFaults();
        } else if (seq::flip()) {
            seq::op("c%d destroyed", i);
            delete c[i]; c[i] = nullptr; of[i] = -1;
        } else {
            int const k = of[i] >= 0 ? of[i] : seq::choose(2);
            seq::op("parent %d destroyed", k);
            if (!p[k]) break;
            nByParent = 0;
            std::set<Child *> expect; for (int j = 0; j < 3; ++j) if (c[j] && of[j] == k) expect.insert(c[j]);
            p[k].reset();
            SEQ_CHECK(nByParent == int(expect.size()) && std::set<Child *>(byParent, byParent + nByParent) == expect, "destroyed parent freed %d children, expected %zu", nByParent, expect.size());
            for (int j = 0; j < 3; ++j) if (c[j] && of[j] == k) { of[j] = -1; if (deleteThem) c[j] = nullptr; }
        }
        std::uint64_t h = 0;
        for (int j = 0; j < 3; ++j) { if (c[j]) SEQ_CHECK(c[j]->childNode.parent() == (of[j] < 0 ? nullptr : p[of[j]].get()), "c%d has the wrong parent", j); h = seq::mix(h, std::uint64_t(of[j] + 2 + (c[j] ? 8 : 0))); }
        for (int k = 0; k < 2; ++k) if (p[k]) {
            std::set<Child *> expect; for (int j = 0; j < 3; ++j) if (c[j] && of[j] == k) expect.insert(c[j]);
            SEQ_CHECK(p[k]->node.children() == expect, "parent %d lists the wrong children", k);
            SEQ_CHECK(p[k]->node.numChildren() == expect.size(), "parent %d has the wrong number of children", k);
        }
        seq::state(seq::mix(h, (p[0] ? 1u : 0u) + (p[1] ? 2u : 0u)));
    }
    nByParent = 0;
    for (int j = 0; j < 3; ++j) { if (!c[j]) continue; if (!deleteThem || of[j] < 0) { delete c[j]; of[j] = -1; } }
    p[0].reset(); p[1].reset();
}
} // namespace
SEQ_TEST(histories, 6, 7) { histories(seq::depth(), false); }
SEQ_TEST(out_of_memory, 4, 6) { histories(seq::depth(), true); }
/* Any number of children, any of which go first. */
SEQ_TEST(many_children, 7, 9) {
    deleteThem = true;
    int const n = seq::choose(seq::depth() + 1);
    std::unique_ptr<Parent> p(new Parent);
    Child * c[9] = {};
    for (int i = 0; i < n; ++i) c[i] = new Child(p.get());
    int left = n;
    for (int i = 0; i < n; ++i) if (seq::flip()) { delete c[i]; c[i] = nullptr; --left; SEQ_CHECK(p->node.numChildren() == std::size_t(left) && p->node.children().size() == std::size_t(left), "wrong number of children"); }
    seq::op("%d of %d children left", left, n);
    nByParent = 0;
    p.reset();
    SEQ_CHECK(nByParent == left, "destroyed parent freed %d of %d children", nByParent, left);
}
/* Hundreds of children of two parents, leaving in several orders. */
SEQ_TEST(hundreds_of_children, 0, 0) {
    deleteThem = seq::flip(); static int const ns[] = {17, 64, 129, 300, 700}; int const n = ns[seq::choose(5)], stride = 1 + seq::choose(3), order = seq::choose(3), first = seq::choose(2);
    std::unique_ptr<Parent> p[2] = {std::make_unique<Parent>(), std::make_unique<Parent>()}; std::vector<Child *> c(n); std::set<Child *> of[2], gone;
    for (int i = 0; i < n; ++i) { int const k = i % 3 == 0; c[i] = new Child(p[k].get()); of[k].insert(c[i]); SEQ_CHECK(c[i]->childNode.parent() == p[k].get() && p[k]->node.numChildren() == of[k].size(), "child %d", i); }
    for (int k = 0; k < 2; ++k) SEQ_CHECK(p[k]->node.children() == of[k], "wrong children");
    for (int j = 0; j < n; j += stride) { int const i = order == 0 ? j : order == 1 ? n - 1 - j : int((std::int64_t(j) * 101) % n); if (!c[i]) continue; int const k = i % 3 == 0; SEQ_CHECK(of[k].erase(c[i]) == 1, "model"); delete c[i]; c[i] = nullptr; SEQ_CHECK(p[k]->node.numChildren() == of[k].size() && p[1 - k]->node.numChildren() == of[1 - k].size(), "wrong number of children"); if (j % 16 == 0) SEQ_CHECK(p[k]->node.children() == of[k], "wrong children"); }
    for (int t = 0; t < 2; ++t) { int const k = t ? 1 - first : first; SEQ_CHECK(p[k]->node.children() == of[k], "wrong children"); nByParent = 0; p[k].reset(); SEQ_CHECK(nByParent == int(of[k].size()) && std::set<Child *>(byParent, byParent + nByParent) == of[k], "destroyed parent freed %d of %zu children", nByParent, of[k].size()); }
    if (!deleteThem) for (auto x : c) if (x) { SEQ_CHECK(!x->childNode.parent(), "child has a destroyed parent"); delete x; }
    seq::count(1);
}
