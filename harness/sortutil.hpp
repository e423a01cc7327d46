// Elements, comparators and result checks shared by the sorting and selection harnesses.
#pragma once
#include "util.hpp"
// The key decides the order; the id says which element it is.  A moved-from element loses its id.  The
// operators mislead on purpose: the order is whatever the comparison given to the algorithm says.
template<int KIND> struct ElT {
    int key, id;
    ElT() noexcept : key{-77}, id{-2} {}
    ElT(int k, int i) noexcept : key{k}, id{i} {}
    ElT(const ElT &) = default;
    ElT &operator=(const ElT &) = default;
    ElT(ElT &&o) noexcept : key{o.key}, id{o.id} { o.id = -1; }
    ElT &operator=(ElT &&o) noexcept {
        if(this != &o) {
            key = o.key;
            id = o.id;
            o.id = -1;
        }
        return *this;
    }
    bool operator==(const ElT &) const { return true; }
    bool operator<(const ElT &o) const { return id > o.id; }
    bool operator>(const ElT &o) const { return id < o.id; }
    int operator<=>(const ElT &o) const { return o.id - id; }
};
typedef ElT<0> El;
struct ByKey {
    bool down = false;
    template<int K> int compare(const ElT<K> &a, const ElT<K> &b) const noexcept {
        vx_assert(a.id >= 0 && b.id >= 0, "only elements of the range are compared");
        if(a.key < b.key) return down ? 1 : -1;
        if(b.key < a.key) return down ? -1 : 1;
        return 0;
    }
    template<int K> bool equal(const ElT<K> &a, const ElT<K> &b) const noexcept { return a.key == b.key; }
};
enum { MAXN = 320 };
static int keys[MAXN];
// Is the range a permutation of the elements 0..n-1 with their keys?
template<int K> static bool permutation(const ElT<K> *a, size_t n) {
    bool seen[MAXN] = {};
    for(size_t i = 0; i < n; ++i) {
        if(a[i].id < 0 || (size_t)a[i].id >= n || seen[a[i].id]) return false;
        seen[a[i].id] = true;
    }
    bool same = true;
    for(size_t i = 0; i < n; ++i) same &= a[i].key == keys[a[i].id];
    return same;
}
template<int K> static bool ordered(const ElT<K> *a, size_t n, bool down) {
    bool ok = true;
    for(size_t i = 1; i < n; ++i) ok &= down ? a[i - 1].key >= a[i].key : a[i - 1].key <= a[i].key;
    return ok;
}
template<int K> static bool stable(const ElT<K> *a, size_t n) {
    bool ok = true;
    for(size_t i = 1; i < n; ++i)
        if(a[i - 1].id > a[i].id) ok &= a[i - 1].key != a[i].key;
    return ok;
}
template<int K> struct Arr {
    ElT<K> *a;
    size_t n;
    explicit Arr(size_t n_) : n{n_} {
        a = (ElT<K> *)malloc(n ? n * sizeof(ElT<K>) : 1);
        for(size_t i = 0; i < n; ++i) new(&a[i]) ElT<K>(keys[i], (int)i);
    }
    Arr(const Arr &) = delete;
    ~Arr() { free(a); }
};
static void arbitrary_keys(size_t n) {
    for(size_t i = 0; i < n; ++i) keys[i] = (int)vx_sym("key", 8);
}
// n keys in one of 8 arrangements; key values are multiples of 4
enum { ARRANGEMENTS = 8 };
static int arrangement(int p, size_t i, size_t n) {
    switch(p) {
    case 0: return 4 * (int)i;
    case 1: return 4 * (int)(n - i);
    case 2: return 8;
    case 3: return i % 2 ? 4 : 8;
    case 4: return 4 * (int)(i * 7 % 16);
    case 5: return 4 * (int)(i < n / 2 ? i : n - i);
    case 6: return 4 * (int)(i * 37 % n);
    default: return i == n - 1 ? 0 : 4 * (int)(i + 1);
    }
}
