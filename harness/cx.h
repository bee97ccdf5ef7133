// Literal element and allocator types and drivers for evaluating the operations of the C++20 headers at compile time.
// Every driver runs an operation from every combination of operand states and allocator relations.
#ifndef CX_H
#define CX_H
#include <compare>
#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

namespace cx {

template <class T, unsigned F>
struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<(F & 1) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(F & 2) != 0>;
  using propagate_on_container_swap = std::bool_constant<(F & 4) != 0>;
  using is_always_equal = std::bool_constant<(F & 8) != 0>;
  template <class U> struct rebind { using other = Al<U, F>; };
  int id;
  constexpr Al() requires((F & 64) == 0) : id(0) {}
  constexpr explicit Al(int i) : id(i) {}
  constexpr Al(const Al&) = default;
  constexpr Al& operator=(const Al&) = default;
  template <class U> constexpr Al(const Al<U, F>& o) : id(o.id) {}
  constexpr T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  constexpr Al select_on_container_copy_construction() const { return Al(id); }
  friend constexpr bool operator==(const Al& a, const Al& b) { return (F & 8) != 0 || a.id == b.id; }
};

// with construct and destroy of its own
template <class T, unsigned F>
struct HookAl : Al<T, F> {
  template <class U> struct rebind { using other = HookAl<U, F>; };
  constexpr HookAl() requires((F & 64) == 0) = default;
  constexpr explicit HookAl(int i) : Al<T, F>(i) {}
  template <class U> constexpr HookAl(const HookAl<U, F>& o) : Al<T, F>(o.id) {}
  template <class U, class... As> constexpr void construct(U* p, As&&... as) { std::construct_at(p, std::forward<As>(as)...); }
  template <class U> constexpr void destroy(U* p) { std::destroy_at(p); }
  constexpr HookAl select_on_container_copy_construction() const { return HookAl(this->id); }
};

template <class A> struct alloc {
  static constexpr A make(int i) { return A(i); }
  static constexpr bool is(const A& a, int i) { return a.id == i; }
};
template <class T> struct alloc<std::allocator<T>> {
  static constexpr std::allocator<T> make(int) { return {}; }
  static constexpr bool is(const std::allocator<T>&, int) { return true; }
};

struct V {
  int n;
  constexpr V() : n(1) {}
  constexpr explicit V(int i) : n(i) {}
  constexpr V(int i, int j) : n(i + j) {}
  constexpr V(std::initializer_list<int> l) : n(static_cast<int>(l.size())) {}
  constexpr V(std::initializer_list<int> l, int j) : n(static_cast<int>(l.size()) + j) {}
  constexpr V(const V& o) : n(o.n) {}
  constexpr V(V&& o) noexcept : n(o.n) { o.n = -1; }
  constexpr V& operator=(const V& o) { n = o.n; return *this; }
  constexpr V& operator=(V&& o) noexcept { n = o.n; return *this; }
  constexpr V& operator=(int i) { n = i; return *this; }
  constexpr ~V() {}
  friend constexpr bool operator==(const V& a, const V& b) { return a.n == b.n; }
  friend constexpr auto operator<=>(const V& a, const V& b) { return a.n <=> b.n; }
};
struct VV {      // virtual functions
  int n;
  constexpr VV(int i = 1) : n(i) {}
  constexpr VV(int i, int j) : n(i + j) {}
  constexpr VV(std::initializer_list<int> l) : n(static_cast<int>(l.size())) {}
  constexpr VV(std::initializer_list<int> l, int j) : n(static_cast<int>(l.size()) + j) {}
  constexpr VV(const VV&) = default;
  constexpr VV& operator=(const VV&) = default;
  constexpr virtual ~VV() {}
  constexpr virtual int get() const { return n; }
  friend constexpr bool operator==(const VV& a, const VV& b) { return a.n == b.n; }
  friend constexpr bool operator<(const VV& a, const VV& b) { return a.n < b.n; }
};
struct MO {      // cannot be copied
  int n;
  constexpr explicit MO(int i = 1) : n(i) {}
  constexpr MO(int i, int j) : n(i + j) {}
  constexpr MO(std::initializer_list<int> l) : n(static_cast<int>(l.size())) {}
  constexpr MO(std::initializer_list<int> l, int j) : n(static_cast<int>(l.size()) + j) {}
  constexpr MO(MO&& o) noexcept : n(o.n) { o.n = -1; }
  constexpr MO& operator=(MO&& o) noexcept { n = o.n; return *this; }
  constexpr MO& operator=(int i) { n = i; return *this; }
};
struct Pad { int pad = 9; };
template <class B> struct Der : B {
  int m;
  constexpr Der(int i = 1) : B(i), m(i) {}
  constexpr Der(int i, int j) : B(i, j), m(i) {}
  constexpr Der(std::initializer_list<int> l) : B(l), m(0) {}
  constexpr Der(std::initializer_list<int> l, int j) : B(l, j), m(0) {}
  constexpr Der(const Der& o) : B(o), m(o.m) {}
  constexpr Der(Der&& o) noexcept : B(static_cast<B&&>(o)), m(o.m) {}
  constexpr Der& operator=(const Der&) = default;
  constexpr ~Der() {}
};
template <class B> struct Off : Pad, B {
  constexpr Off(int i = 1) : B(i) {}
  constexpr Off(int i, int j) : B(i, j) {}
  constexpr Off(std::initializer_list<int> l) : B(l) {}
  constexpr Off(std::initializer_list<int> l, int j) : B(l, j) {}
};

constexpr int num(int i) { return i; }
template <class T> constexpr int num(const T& t) { return t.n; }

// ---- states --------------------------------------------------------------------------------
// X: xyz::indirect or xyz::polymorphic of T; D: the type of the owned object
template <class X, class D> struct mk;
}  // namespace cx
template <> struct std::hash<cx::V> { constexpr std::size_t operator()(const cx::V& v) const { return static_cast<std::size_t>(v.n); } };
namespace cx {

#ifdef VX_IP
#define CX_ARG(D) VX_IP
#else
#define CX_ARG(D) VX_IPT(D)
#endif

// a handle with the allocator a, owning a D with the value n, or valueless when n is 0
template <class X, class D>
struct H {
  using A = typename X::allocator_type;
  X x;
  constexpr H(int n, int a) : x(std::allocator_arg, alloc<A>::make(a), CX_ARG(D), n) {
    if (n == 0) drain();
  }
  constexpr void drain() { X t(std::move(x)); }
};
template <class X> constexpr bool shows(const X& x, int n) { return n == 0 ? x.valueless_after_move() : !x.valueless_after_move() && num(*x) == n && num(*x.operator->()) == n; }
template <class X> constexpr bool has(const X& x, int a) { return alloc<typename X::allocator_type>::is(x.get_allocator(), a); }
template <class X> constexpr bool eq(int a, int b) { return alloc<typename X::allocator_type>::make(a) == alloc<typename X::allocator_type>::make(b); }
template <class X> inline constexpr bool dflt = std::is_default_constructible_v<typename X::allocator_type>;
template <class X> using tr = std::allocator_traits<typename X::allocator_type>;

template <class X, class D> constexpr bool ctors() {
  using A = typename X::allocator_type;
  A a = alloc<A>::make(3);
  const int l = 5;
  X v(std::allocator_arg, a, CX_ARG(D), 7), w(std::allocator_arg, a, CX_ARG(D), 7, l);
  X u(std::allocator_arg, a, CX_ARG(D), {1, 2, 3}), t(std::allocator_arg, a, CX_ARG(D), {1, 2, 3}, l), s(std::allocator_arg, a, CX_ARG(D));
  bool ok = shows(v, 7) && shows(w, 12) && shows(u, 3) && shows(t, 8) && shows(s, 1) && has(v, 3) && has(w, 3) && has(u, 3) && has(t, 3) && has(s, 3);
  X d(std::allocator_arg, a);
  ok = ok && shows(d, 1) && has(d, 3);
  if constexpr (dflt<X>) {
    X e, f(CX_ARG(D), 7), g(CX_ARG(D), {1, 2}), h(CX_ARG(D), {1, 2}, l);
    ok = ok && shows(e, 1) && shows(f, 7) && shows(g, 2) && shows(h, 7);
  }
  return ok;
}
template <class X, class D> constexpr bool value_ctors() {
  using A = typename X::allocator_type;
  A a = alloc<A>::make(3);
  X v(std::allocator_arg, a, D(4));
  bool ok = shows(v, 4) && has(v, 3);
  if constexpr (std::is_copy_constructible_v<D>) {
    D d(6);
    const D c(7);
    X w(std::allocator_arg, a, d), u(std::allocator_arg, a, c);
    ok = ok && shows(w, 6) && shows(u, 7);
  }
  if constexpr (dflt<X>) {
    X w(D(8));
    ok = ok && shows(w, 8);
    if constexpr (std::is_copy_constructible_v<D>) {
      const D c(7);
      X u(c);
      ok = ok && shows(u, 7);
    }
  }
  return ok;
}
template <class X, class D> constexpr bool copy_ctor() {
  using A = typename X::allocator_type;
  bool ok = true;
  for (int n : {0, 5})
    for (int b : {1, 2}) {
      H<X, D> h(n, 1);
      X c(h.x), d(std::allocator_arg, alloc<A>::make(b), h.x), e(std::as_const(h.x));
      ok = ok && shows(c, n) && shows(d, n) && shows(e, n) && shows(h.x, n) && has(d, b) && has(c, 1);
    }
  return ok;
}
template <class X, class D> constexpr bool move_ctor() {
  using A = typename X::allocator_type;
  bool ok = true;
  for (int n : {0, 5})
    for (int b : {1, 2}) {
      H<X, D> h(n, 1), g(n, 1);
      X c(std::move(h.x)), d(std::allocator_arg, alloc<A>::make(b), std::move(g.x));
      ok = ok && shows(c, n) && shows(d, n) && h.x.valueless_after_move() && has(d, b) && has(c, 1);
    }
  return ok;
}
template <class X, class D, class E> constexpr bool copy_assign() {
  bool ok = true;
  for (int n : {0, 5})
    for (int m : {0, 6})
      for (int b : {1, 2}) {
        H<X, D> h(n, 1);
        H<X, E> g(m, b);
        X& r = h.x = g.x;
        ok = ok && &r == &h.x && shows(h.x, m) && shows(g.x, m) && (has(h.x, 1) || has(h.x, b));
        r = r;
        r = std::as_const(r);
        ok = ok && shows(h.x, m);
      }
  return ok;
}
template <class X, class D, class E> constexpr bool move_assign() {
  bool ok = true;
  for (int n : {0, 5})
    for (int m : {0, 6})
      for (int b : {1, 2}) {
        H<X, D> h(n, 1);
        H<X, E> g(m, b);
        X& r = h.x = std::move(g.x);
        ok = ok && &r == &h.x && shows(h.x, m) && (has(h.x, 1) || has(h.x, b));
        r = std::move(r);
        ok = ok && shows(h.x, m);
      }
  return ok;
}
template <class X, class D, class E> constexpr bool swaps() {
  bool ok = true;
  for (int n : {0, 5})
    for (int m : {0, 6})
      for (int b : {1, 2}) {
        if (!eq<X>(1, b) && !tr<X>::propagate_on_container_swap::value) continue;
        H<X, D> h(n, 1);
        H<X, E> g(m, b);
        h.x.swap(g.x);
        ok = ok && shows(h.x, m) && shows(g.x, n);
        swap(h.x, g.x);
        ok = ok && shows(h.x, n) && shows(g.x, m);
        h.x.swap(h.x);
        ok = ok && shows(h.x, n);
      }
  return ok;
}
template <class X, class D> constexpr bool access() {
  H<X, D> h(4, 1);
  const X& c = h.x;
  bool ok = num(*h.x) == 4 && num(*c) == 4 && num(*std::move(h.x)) == 4 && num(*std::move(c)) == 4 && num(*h.x.operator->()) == 4 && num(*c.operator->()) == 4;
  *h.x.operator->();
  ok = ok && !c.valueless_after_move() && has(c, 1);
  h.drain();
  return ok && c.valueless_after_move() && has(c, 1);
}
template <class X, class D> constexpr bool assign_value() {
  bool ok = true;
  for (int n : {0, 5}) {
    H<X, D> h(n, 1), g(n, 1), k(n, 1);
    X& r = h.x = D(8);
    ok = ok && &r == &h.x && shows(h.x, 8);
    if constexpr (std::is_copy_constructible_v<D>) {
      const D c(9);
      g.x = c;
      ok = ok && shows(g.x, 9);
    }
    k.x = 11;
    ok = ok && shows(k.x, 11);
  }
  return ok;
}
template <class X, class Y, class D> constexpr bool compares() {
  bool ok = true;
  for (int n : {0, 5, 6})
    for (int m : {0, 5}) {
      H<X, D> h(n, 1);
      H<Y, D> g(m, 2);
      ok = ok && (h.x == g.x) == (n == m) && (h.x != g.x) == (n != m) && (h.x < g.x) == (n < m) && (h.x > g.x) == (n > m) && (h.x <= g.x) == (n <= m) && (h.x >= g.x) == (n >= m);
      ok = ok && (h.x <=> g.x) == (n <=> m);
      const D d(5);
      ok = ok && (h.x == d) == (n == 5) && (h.x != d) == (n != 5) && (h.x < d) == (n < 5) && (h.x > d) == (n > 5) && (h.x <= d) == (n <= 5) && (h.x >= d) == (n >= 5);
      ok = ok && (d == h.x) == (n == 5) && (d != h.x) == (n != 5) && (d < h.x) == (5 < n) && (d > h.x) == (5 > n) && (h.x <=> d) == (n <=> 5);
    }
  return ok;
}
template <class X, class D> constexpr bool hashes() {
  H<X, D> h(4, 1), g(4, 2), e(0, 1), f(0, 2);
  std::hash<X> k;
  return k(h.x) == k(g.x) && k(h.x) == std::hash<D>()(*h.x) && k(e.x) == k(f.x);
}
}  // namespace cx
#endif
