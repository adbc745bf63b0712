// PARTS: 2
#include "suts.hpp"
#include <memory>
namespace vp {
// ---- intrusive lists: three heads, a pool of nodes, rings or null-terminated chains
template <class T, class Link> static void list_run(Ctx &c) {
    typedef dstruct::EmbeddedListNode_<T, Link> Node; const bool dbl = std::is_same<Link, dstruct::DoublyLink_>::value;
    Env e(c); bool ring = c.hdr(1) & 3; const int R = 3, N = 48; size_t peak = 0, dels = 0;
    std::vector<std::unique_ptr<Node>> head(R), node(N); std::vector<int> where(N, -1), val(N, 0); std::vector<std::vector<int>> m(R);
    for (auto &h : head) { h.reset(new Node()); if (ring) Node::init(h.get()); else memset((void *)&h->link, 0, sizeof(Link)); }
    for (int i = 0; i < N; i++) { node[i].reset(new Node()); memset((void *)&node[i]->link, 0xEE, sizeof(Link)); int k; node[i]->data = mk<T>(e, i, k); val[i] = k; }
    auto at = [&](int r, int i) { return i < 0 ? head[r].get() : node[m[r][i]].get(); };
    auto check = [&] {
        for (int r = 0; r < R; r++) {
            Link *h = Node::to_link(head[r].get()); Link *l = h->next; size_t i = 0; Link *stop = ring ? h : nullptr, *last = h;
            for (; l != stop; l = l->next) {
                VP_CHECK(c, i < m[r].size(), "intrusive list: the ring links more than the %zu nodes inserted", m[r].size());
                VP_CHECK(c, l == Node::to_link(node[m[r][i]].get()), "intrusive list: node %zu of %zu is not the one inserted there", i, m[r].size());
                VP_CHECK(c, Node::to_node(l) == node[m[r][i]].get() && Node::to_link(Node::to_node(l)) == l, "intrusive list: conversion between node and link is not lossless");
                if constexpr (std::is_same<Link, dstruct::DoublyLink_>::value) VP_CHECK(c, l->prev == last, "intrusive list: backward link of node %zu does not denote its predecessor", i);
                last = l; i++;
            }
            VP_CHECK(c, i == m[r].size(), "intrusive list: the ring links %zu of %zu nodes", i, m[r].size());
            if constexpr (std::is_same<Link, dstruct::DoublyLink_>::value) if (ring) VP_CHECK(c, h->prev == last, "intrusive list: the head's backward link does not denote the last node");
            if (ring) VP_CHECK(c, Node::empty(head[r].get()) == m[r].empty() && Link::empty(h) == m[r].empty(), "intrusive list: empty() is wrong with %zu nodes", m[r].size());
        }
        for (int i = 0; i < N; i++) VP_CHECK(c, El<T>::key(node[i]->data) == val[i], "intrusive list: the payload of a node changed");
    };
    check();
    for (Op o : c.c->ops) {
        int r = o.b % R, n = (int)m[r].size(); bool raw = o.b & 64;
        auto add = [&](int i, int x) { Node *p = at(r, i), *q = node[x].get(); if (raw) Link::add(&p->link, &q->link); else Node::add(p, q); where[x] = r; m[r].insert(m[r].begin() + (i + 1), x); };
        auto del = [&](int i) { Node *p = at(r, i - 1), *q = at(r, i); int x = m[r][i]; if (raw) Link::del(&p->link, &q->link); else Node::del(p, q); where[x] = -1; m[r].erase(m[r].begin() + i); dels++; };
        int fr = -1; for (int i = 0; i < N; i++) if (where[(i + o.a) % N] < 0) { fr = (i + o.a) % N; break; }
        switch (o.code) {
        case 0: if (fr < 0) continue; c.log("ring %d: insert node %d first", r, fr); add(-1, fr); break;
        case 1: if (fr < 0) continue; c.log("ring %d: insert node %d last", r, fr); add(n - 1, fr); break;
        case 2: if (fr < 0) continue; { int i = (int)((o.b >> 8) % (n + 1)) - 1; c.log("ring %d: insert node %d after position %d", r, fr, i); add(i, fr); } break;
        case 3: if (!n) continue; c.log("ring %d: remove the first of %d", r, n); del(0); break;
        case 4: if (!n) continue; c.log("ring %d: remove the last of %d", r, n); del(n - 1); break;
        case 5: if (!n) continue; { int i = (o.b >> 8) % n; c.log("ring %d: remove position %d of %d", r, i, n); del(i); } break;
        case 6: if (!n) continue; c.log("ring %d: remove all %d", r, n); while (!m[r].empty()) { del((o.a++ & 1) ? 0 : (int)m[r].size() - 1); } break;
        case 7: if (!n) continue; { int i = (o.b >> 8) % n, x = m[r][i]; c.log("ring %d: move position %d to the next ring", r, i); del(i); r = (r + 1) % R; add((int)((o.b >> 12) % (m[r].size() + 1)) - 1, x); } break;
        case 8: { int k, x = o.a % N; node[x]->data = mk<T>(e, o.b, k); val[x] = k; } break;
        }
        c.did(o.code * 77 + o.a); for (auto &x : m) peak = std::max(peak, x.size());
        check();
    }
    (void)dbl; if (peak >= 3 && dels >= 2) c.interesting(ring ? "ring with three nodes and two removals" : "chain with three nodes and two removals");
}
// ---- intrusive trees: arbitrary shapes, rotations anywhere
template <class T> static void tree_run(Ctx &c) {
    typedef dstruct::tree::BinaryTreeLink_ L; typedef dstruct::EBinaryTreeNode<T> Node; Env e(c); const int N = 40; size_t rots = 0, peak = 0;
    std::vector<std::unique_ptr<Node>> nd; std::vector<int> lf(N, -1), rt(N, -1), pa(N, -1), val(N), used; int root = -1;
    for (int i = 0; i < N; i++) { int k; T x = mk<T>(e, i * 31, k); nd.emplace_back(new Node(x)); val[i] = k; }
    auto lk = [&](int i) -> L * { return i < 0 ? nullptr : Node::to_link(nd[i].get()); };
    std::function<int(int)> hgt = [&](int i) -> int { return i < 0 ? 0 : 1 + std::max(hgt(lf[i]), hgt(rt[i])); };
    std::function<void(int, int, std::vector<int> &)> lst = [&](int i, int o, std::vector<int> &v) { if (i < 0) return; if (o == 0) v.push_back(i); lst(lf[i], o, v); if (o == 1) v.push_back(i); lst(rt[i], o, v); if (o == 2) v.push_back(i); };
    auto fill = [&](int i) { std::function<void(int)> f = [&](int j) { if (j < 0) return; used.push_back(j); f(lf[j]); f(rt[j]); }; f(i); };
    static const char *on[3] = {"pre-order", "in-order", "post-order"};
    auto check = [&] {
        used.clear(); fill(root); size_t n = used.size(); peak = std::max(peak, n);
        for (int i : used) {
            L *l = lk(i);
            VP_CHECK(c, l->left == lk(lf[i]) && l->right == lk(rt[i]), "intrusive tree: the children of node %d are not the ones linked", i);
            VP_CHECK(c, l->parent == lk(pa[i]), "intrusive tree: the parent link of node %d is wrong", i);
            VP_CHECK(c, Node::to_node(l) == nd[i].get() && Node::to_link(Node::to_node(l)) == l && Node::data_to_link(&nd[i]->data) == l, "intrusive tree: conversion between node, link and payload is not lossless");
            VP_CHECK(c, El<T>::key(nd[i]->data) == val[i], "intrusive tree: the payload of node %d changed", i);
        }
        for (int s = 0; s < 2; s++) { int r = s == 0 ? root : n ? used[(c.eff * 7) % n] : -1; int h = dstruct::tree::height(lk(r)); VP_CHECK(c, h == hgt(r), "intrusive tree: height() is %d, expected %d", h, hgt(r)); }
        for (int o = 0; o < 3; o++) for (int s = 0; s < 2; s++) {
            int r = s == 0 ? root : n ? used[(c.eff * 5) % n] : -1; std::vector<int> w; lst(r, o, w); std::vector<L *> got;
            auto cb = [&](L *l) { got.push_back(l); VP_CHECK(c, got.size() <= w.size(), "intrusive tree: %s traversal visits more than %zu nodes", on[o], w.size()); };
            if (o == 0) dstruct::tree::preorder_traversal(lk(r), cb); else if (o == 1) dstruct::tree::inorder_traversal(lk(r), cb); else dstruct::tree::postorder_traversal(lk(r), cb);
            VP_CHECK(c, got.size() == w.size(), "intrusive tree: %s traversal visits %zu of %zu nodes", on[o], got.size(), w.size());
            for (size_t i = 0; i < w.size(); i++) VP_CHECK(c, got[i] == lk(w[i]), "intrusive tree: %s traversal visits a wrong node at %zu", on[o], i);
            if (s == 0) for (size_t i = 0; i < w.size(); i++) { L *nx = o == 0 ? dstruct::tree::next_preorder(lk(w[i])) : o == 1 ? dstruct::tree::next_inorder(lk(w[i])) : dstruct::tree::next_postorder(lk(w[i]));
                VP_CHECK(c, nx == (i + 1 < w.size() ? lk(w[i + 1]) : nullptr), "intrusive tree: the %s successor of node %zu of %zu is wrong", on[o], i, w.size()); }
        }
        VP_CHECK(c, !dstruct::tree::next_preorder(nullptr) && !dstruct::tree::next_inorder(nullptr) && !dstruct::tree::next_postorder(nullptr), "intrusive tree: stepping from nowhere arrives somewhere");
    };
    check();
    for (Op o : c.c->ops) {
        size_t n = used.size(); int x = n ? used[o.a % n] : -1; std::vector<int> before; lst(root, 1, before);
        std::vector<char> in(N, 0); for (int i : used) in[i] = 1; int fr = -1; for (int i = 0; i < N; i++) if (!in[(i + o.b) % N]) { fr = (i + o.b) % N; break; }
        auto link = [&](int p, int i, bool left) { lf[i] = rt[i] = -1; lk(i)->left = lk(i)->right = nullptr; pa[i] = p; lk(i)->parent = lk(p); if (p < 0) { root = i; return; } (left ? lf : rt)[p] = i; (left ? lk(p)->left : lk(p)->right) = lk(i); };
        auto rotate = [&](int i, bool left) { int y = left ? rt[i] : lf[i], p = pa[i]; bool pl = p >= 0 && lf[p] == i; L *nr = left ? dstruct::tree::left_rotate(lk(i)) : dstruct::tree::right_rotate(lk(i));
            VP_CHECK(c, nr == lk(y), "intrusive tree: rotation does not return the new root of the subtree"); if (p >= 0) (pl ? lk(p)->left : lk(p)->right) = nr;
            int mid = left ? lf[y] : rt[y]; (left ? rt : lf)[i] = mid; if (mid >= 0) pa[mid] = i; (left ? lf : rt)[y] = i; pa[i] = y; pa[y] = p; if (p < 0) root = y; else (pl ? lf : rt)[p] = y; rots++; };
        switch (o.code) {
        case 0: if (fr < 0) continue; if (x < 0) { link(-1, fr, true); break; } { bool left = o.b & 256; int p = x; while ((left ? lf : rt)[p] >= 0) { p = (left ? lf : rt)[p]; if (o.b & 512) left = !left; } c.log("hang node %d %s of %d", fr, left ? "left" : "right", p); link(p, fr, left); } break;
        case 1: case 2: { bool left = o.code == 1; int p = -1; for (size_t i = 0; i < n; i++) { int y = used[(i + o.a) % n]; if ((left ? rt : lf)[y] >= 0) { p = y; break; } } if (p < 0) continue; c.log("rotate %s at %d", left ? "left" : "right", p); if (pa[p] < 0) c.label("rotation at the root"); else c.label("rotation below the root"); rotate(p, left);
            used.clear(); fill(root); std::vector<int> after; lst(root, 1, after); VP_CHECK(c, after == before, "harness: model rotation"); } break;
        case 3: if (x < 0 || x == root) continue; { int p = pa[x]; c.log("cut the subtree at %d", x); if (lf[p] == x) { lf[p] = -1; lk(p)->left = nullptr; } else { rt[p] = -1; lk(p)->right = nullptr; } } break;
        case 4: if (x < 0) continue; { int r = x; while (rt[r] >= 0 || lf[r] >= 0) { bool left = rt[r] >= 0 && (lf[r] < 0 || (o.b >>= 1) & 1); rotate(r, left); } c.log("sink node %d to a leaf by rotations", x); } break;
        }
        c.did(o.code * 77 + o.a); check();
    }
    if (rots >= 1 && peak >= 4) c.interesting("tree of four or more nodes with a rotation");
}
static Suite S(const char *n, void (*f)(Ctx &), std::vector<int> w, int share = 1) { return Suite{n, f, w, share, false, 150}; }
void define(Property &P) {
    P.id = "C15";
    P.rule = "insertions, removals and moves of nodes on three intrusive singly or doubly linked rings (and null-terminated chains) through node and link interfaces, checked against the order of insertion positions; random binary trees of intrusive nodes with rotations at every position, pruning and growth, checked against an index model for links, heights, stepping and traversals; non-trivial: three nodes and two removals on a ring, or a rotation in a tree of four nodes";
    P.assumptions = {"a node is inserted once and removed with its actual predecessor", "a left (right) rotation is applied to a node with a right (left) child and its result re-hung by the caller"};
    const std::vector<int> lw = {6, 6, 8, 4, 4, 6, 1, 4, 2}, tw = {12, 8, 8, 1, 1};
    ADD0(S("ring<int,double>", list_run<int, dstruct::DoublyLink_>, lw, 2)); ADD0(S("ring<int,single>", list_run<int, dstruct::SinglyLink_>, lw, 2)); ADD0(S("ring<char,single>", list_run<char, dstruct::SinglyLink_>, lw)); ADD0(S("ring<Str,double>", list_run<Str, dstruct::DoublyLink_>, lw)); ADD0(S("ring<Wide,double>", list_run<Wide, dstruct::DoublyLink_>, lw));
    ADD1(S("tree<int>", tree_run<int>, tw, 3)); ADD1(S("tree<char>", tree_run<char>, tw)); ADD1(S("tree<Str>", tree_run<Str>, tw)); ADD1(S("tree<Wide>", tree_run<Wide>, tw));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
