// C19: object trees with several threads creating, destroying and listing children.
#include "mc.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <functional>
#include <thread>
#include <sharemind/ObjectTree.h>

namespace {
struct Child;
struct Parent {
    using Node = sharemind::ObjectTree::ParentNode<Parent, Child, std::mutex>;
    Parent();
    Node node;
};
/* ghost 10+id: children attached or not: 1 being attached, 2 attached, 3 being
   detached, 0 gone; 20+id: times destroyed by the parent */
struct Child {
    int id;
    struct Begin { explicit Begin(int i) { mc::ghostSet(10 + i, 1); } } begin;
    sharemind::ObjectTree::ChildNode<Parent::Node, &Parent::node> childNode;
    Child(Parent * p, int i) : id(i), begin(i), childNode(p, this) { mc::ghostSet(10 + id, 2); }
    ~Child() { mc::ghostSet(10 + id, 3); }
};
Parent::Parent() : node([](Child * c) { mc::ghostSet(20 + c->id, mc::ghostGet(20 + c->id) + 1); delete c; }) {}
std::unique_ptr<Child> make(Parent * p, int id) { return std::unique_ptr<Child>(new Child(p, id)); }
void destroy(std::unique_ptr<Child> & c) { int const id = c->id; c.reset(); mc::ghostSet(10 + id, 0); }

struct View { long a[4]; View() { for (int i = 0; i < 4; ++i) a[i] = mc::ghostGet(10 + i); } };
/* n: number listed. Must be reachable given the states before and after. */
void list(Parent & p, Child * (&byId)[4], int ids) {
    View b;
    auto const s = p.node.children();
    View e;
    std::size_t found = 0;
    for (int i = 0; i < ids; ++i) {
        bool const in = byId[i] && s.count(byId[i]);
        if (in) ++found;
        bool const mayBeIn = b.a[i] != 0 || e.a[i] != 0, mustBeIn = b.a[i] == 2 && e.a[i] == 2;
        MC_CHECK(!in || mayBeIn, "child %d is listed although it is not attached", i);
        MC_CHECK(in || !mustBeIn || !byId[i], "child %d is not listed although it is attached", i);
    }
}
void number(Parent & p, int ids) {
    View b; long const n = long(p.node.numChildren()); View e;
    long lo = 0, hi = 0;
    for (int i = 0; i < ids; ++i) { if (b.a[i] == 2 && e.a[i] == 2) ++lo; if (b.a[i] != 0 || e.a[i] != 0) ++hi; }
    MC_CHECK(lo <= n && n <= hi, "%ld children, but between %ld and %ld are attached", n, lo, hi);
}
} // namespace

MC_SCENARIO(create_destroy, 4, 7, mc::UNLOCKPOINTS) {
    Parent p;
    std::thread a([&] { auto c = make(&p, 0); destroy(c); c = make(&p, 2); destroy(c); });
    std::thread b([&] { auto c = make(&p, 1); MC_CHECK(c->childNode.parent() == &p, "wrong parent"); number(p, 3); destroy(c); });
    number(p, 3);
    number(p, 3);
    a.join(); b.join();
    MC_CHECK(p.node.numChildren() == 0 && p.node.children().empty(), "children left");
}
MC_SCENARIO(listed_exactly, 5, 9, mc::UNLOCKPOINTS) {
    Parent p;
    auto c0 = make(&p, 0), c1 = make(&p, 1);
    Child * byId[4] = {c0.get(), c1.get(), nullptr, nullptr};
    std::thread a([&] { destroy(c0); }), b([&] { destroy(c1); });
    list(p, byId, 2);
    number(p, 2);
    a.join(); b.join();
    MC_CHECK(p.node.numChildren() == 0, "children left");
}
MC_SCENARIO(attached_then_listed, 5, 9, mc::UNLOCKPOINTS) {
    Parent p;
    std::thread a([&] { auto c = make(&p, 0); auto const s = p.node.children(); MC_CHECK(s.count(c.get()), "own child is not listed"); destroy(c); });
    std::thread b([&] { auto c = make(&p, 1); auto const s = p.node.children(); MC_CHECK(s.count(c.get()), "own child is not listed"); destroy(c); });
    std::thread c([&] { number(p, 2); });
    a.join(); b.join(); c.join();
    number(p, 2);
}
/* Children which outlive the threads are destroyed with the parent, once each. */
MC_SCENARIO(parent_destroys_rest, 4, 7, mc::UNLOCKPOINTS) {
    {
        Parent p;
        std::thread a([&] { make(&p, 0).release(); auto c = make(&p, 1); destroy(c); });
        std::thread b([&] { make(&p, 2).release(); });
        auto c = make(&p, 3);
        destroy(c);
        a.join(); b.join();
        MC_CHECK(p.node.numChildren() == 2, "%zu children", p.node.numChildren());
        for (int i = 0; i < 4; ++i) MC_CHECK(mc::ghostGet(20 + i) == 0, "child %d destroyed by its parent too early", i);
    }
    for (int i = 0; i < 4; ++i) MC_CHECK(mc::ghostGet(20 + i) == (i % 2 == 0 ? 1 : 0), "child %d destroyed %ld times by its parent", i, mc::ghostGet(20 + i));
}
/* Two parents don't influence each other. */
MC_SCENARIO(two_parents, 4, 7, mc::UNLOCKPOINTS) {
    Parent p, q;
    std::thread a([&] { auto c = make(&p, 0); auto d = make(&q, 1); MC_CHECK(c->childNode.parent() == &p && d->childNode.parent() == &q, "wrong parent"); MC_CHECK(q.node.children() == std::set<Child *>{d.get()}, "wrong children of q"); destroy(c); destroy(d); });
    std::thread b([&] { auto c = make(&p, 2); auto const s = p.node.children(); MC_CHECK(s.count(c.get()) && s.size() <= 2, "wrong children of p"); destroy(c); });
    MC_CHECK(q.node.numChildren() <= 1, "wrong children of q");
    a.join(); b.join();
    MC_CHECK(p.node.children().empty() && q.node.children().empty(), "children left");
}
