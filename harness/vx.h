// Verification harness: opaque types, the abstract allocator and the glue that
// is compiled together with the *unmodified* headers of /repo.  Everything that
// is declared here but not defined is an external function with a contract in
// /verif/engine/world.py: the verifier never looks at a body for it, so every
// result holds for all bodies that satisfy the contract.
#ifndef VX_H
#define VX_H
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#if __cplusplus >= 202002L
#include <compare>
#endif

extern "C" {
void* vx_allocate(long id, unsigned long size, unsigned long align);
void vx_deallocate(long id, void* p, unsigned long size, unsigned long align) noexcept;
bool vx_alloc_eq(long a, long b) noexcept;
long vx_socc(long id) noexcept;
long vx_default_id() noexcept;
void vx_construct(long id, void* p, unsigned long size) noexcept;
void vx_destroy(long id, void* p, unsigned long size) noexcept;
}

// ---- the abstract allocator -------------------------------------------------
enum : unsigned { POCCA = 1, POCMA = 2, POCS = 4, IAE = 8, HOOKS = 16, EMPTY = 32, NODEF = 64, FANCY = 128 };

template <bool Empty, bool Def>
struct vx_ident {
  long id_;
  vx_ident() noexcept : id_(vx_default_id()) {}
  explicit vx_ident(long i) noexcept : id_(i) {}
  long id() const noexcept { return id_; }
};
template <>
struct vx_ident<false, false> {
  long id_;
  explicit vx_ident(long i) noexcept : id_(i) {}
  long id() const noexcept { return id_; }
};
template <bool Def>
struct vx_ident<true, Def> {
  vx_ident() noexcept {}
  explicit vx_ident(long) noexcept {}
  long id() const noexcept { return 0; }
};

template <class T, unsigned F>
struct vx_alloc_base : vx_ident<(F & EMPTY) != 0, (F & NODEF) == 0> {
  using ident = vx_ident<(F & EMPTY) != 0, (F & NODEF) == 0>;
  using ident::ident;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & POCS) != 0>;
  using is_always_equal = std::integral_constant<bool, (F & (IAE | EMPTY)) != 0>;
  T* allocate(std::size_t n) {
    return static_cast<T*>(vx_allocate(this->id(), n * sizeof(T), alignof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept {
    vx_deallocate(this->id(), p, n * sizeof(T), alignof(T));
  }
};

#define VX_ALLOC_BODY(NAME)                                                    \
  template <class U> struct rebind { using other = NAME<U, F>; };              \
  using base = vx_alloc_base<T, F>;                                            \
  using base::base;                                                            \
  NAME() = default;                                                            \
  NAME(const NAME&) = default;                                                 \
  NAME& operator=(const NAME&) = default;                                      \
  template <class U> NAME(const NAME<U, F>& o) noexcept : base(o.id()) {}      \
  NAME select_on_container_copy_construction() const noexcept {                \
    return (F & EMPTY) ? *this : NAME(vx_socc(this->id()));                    \
  }                                                                            \
  template <class U>                                                           \
  friend bool operator==(const NAME& a, const NAME<U, F>& b) noexcept {        \
    return (F & EMPTY) ? true : vx_alloc_eq(a.id(), b.id());                   \
  }                                                                            \
  template <class U>                                                           \
  friend bool operator!=(const NAME& a, const NAME<U, F>& b) noexcept {        \
    return !(a == b);                                                          \
  }

template <class T, unsigned F>
struct Alloc : vx_alloc_base<T, F> {
  VX_ALLOC_BODY(Alloc)
};
// an allocator that supplies construct() and destroy()
template <class T, unsigned F>
struct HookAlloc : vx_alloc_base<T, F> {
  VX_ALLOC_BODY(HookAlloc)
  template <class U, class... Args>
  void construct(U* p, Args&&... args) {
    vx_construct(this->id(), (void*)p, sizeof(U));
    ::new ((void*)p) U(std::forward<Args>(args)...);
  }
  template <class U>
  void destroy(U* p) {
    vx_destroy(this->id(), (void*)p, sizeof(U));
    p->~U();
  }
};
template <class T, unsigned F>
struct FinalAlloc final : vx_alloc_base<T, F> {
  VX_ALLOC_BODY(FinalAlloc)
};

// an allocator that offers no more than the standard demands of it: it is assignable only where it propagates on assignment,
// swappable (by its own swap) only where it propagates on swap, and rebinds by an explicit constructor
template <bool C, bool M>
struct vx_asg {  // propagates on copy assignment
  vx_asg() = default;
  vx_asg(const vx_asg&) = default;
  vx_asg& operator=(const vx_asg&) = default;
};
template <>
struct vx_asg<false, true> {
  vx_asg() = default;
  vx_asg(const vx_asg&) = default;
  vx_asg& operator=(const vx_asg&) = delete;
  vx_asg& operator=(vx_asg&&) = default;
};
template <>
struct vx_asg<false, false> {
  vx_asg() = default;
  vx_asg(const vx_asg&) = default;
  vx_asg& operator=(const vx_asg&) = delete;
};
template <class T, unsigned F>
struct MinAlloc : vx_alloc_base<T, F>, vx_asg<(F & POCCA) != 0, (F & POCMA) != 0> {
  template <class U> struct rebind { using other = MinAlloc<U, F>; };
  using base = vx_alloc_base<T, F>;
  using base::base;
  MinAlloc() = default;
  MinAlloc(const MinAlloc&) = default;
  MinAlloc& operator=(const MinAlloc&) = default;
  MinAlloc& operator=(MinAlloc&&) = default;
  template <class U> explicit MinAlloc(const MinAlloc<U, F>& o) noexcept : base(o.id()) {}
  MinAlloc select_on_container_copy_construction() const noexcept {
    return (F & EMPTY) ? *this : MinAlloc(vx_socc(this->id()));
  }
  template <class U>
  friend bool operator==(const MinAlloc& a, const MinAlloc<U, F>& b) noexcept {
    return (F & EMPTY) ? true : vx_alloc_eq(a.id(), b.id());
  }
  template <class U>
  friend bool operator!=(const MinAlloc& a, const MinAlloc<U, F>& b) noexcept {
    return !(a == b);
  }
};
template <class T, unsigned F>
std::enable_if_t<(F & POCS) != 0> swap(MinAlloc<T, F>& a, MinAlloc<T, F>& b) noexcept {
  MinAlloc<T, F> t(a);
  a.~MinAlloc<T, F>();
  ::new ((void*)&a) MinAlloc<T, F>(b);
  b.~MinAlloc<T, F>();
  ::new ((void*)&b) MinAlloc<T, F>(t);
}

// an allocator with a class-type ("fancy") pointer
template <class T>
struct Fancy {
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = Fancy;
  using reference = T&;
  template <class U> using rebind = Fancy<U>;
  T* raw_ = nullptr;
  Fancy() = default;
  Fancy(std::nullptr_t) {}
  explicit Fancy(T* p) : raw_(p) {}
  template <class U, class = std::enable_if_t<std::is_same<const U, T>::value>>
  Fancy(const Fancy<U>& o) : raw_(o.raw_) {}
  T& operator*() const { return *raw_; }
  T* operator->() const { return raw_; }
  explicit operator bool() const { return raw_ != nullptr; }
  static Fancy pointer_to(T& t) { return Fancy(std::addressof(t)); }
  friend bool operator==(Fancy a, Fancy b) { return a.raw_ == b.raw_; }
  friend bool operator!=(Fancy a, Fancy b) { return a.raw_ != b.raw_; }
  friend bool operator==(Fancy a, std::nullptr_t) { return a.raw_ == nullptr; }
  friend bool operator!=(Fancy a, std::nullptr_t) { return a.raw_ != nullptr; }
};
template <class T, unsigned F>
struct FancyAlloc : vx_alloc_base<T, F> {
  VX_ALLOC_BODY(FancyAlloc)
  using pointer = Fancy<T>;
  using const_pointer = Fancy<const T>;
  pointer allocate(std::size_t n) { return pointer(base::allocate(n)); }
  void deallocate(pointer p, std::size_t n) noexcept { base::deallocate(p.raw_, n); }
};

template <class A>
auto vx_id(const A& a) -> decltype(a.id()) { return a.id(); }
template <class T>
long vx_id(const std::allocator<T>&) { return 0; }
template <class T>
T* vx_raw(T* p) { return p; }
template <class T>
T* vx_raw(const Fancy<T>& p) { return p.raw_; }

// ---- opaque types -----------------------------------------------------------
// flags: trivially copyable ("plain memory"), polymorphic
#define VX_CLASS(C)                                                            \
  extern "C" const unsigned long vxclass_##C[] = {                             \
      sizeof(C), alignof(C), std::is_trivially_copyable<C>::value,             \
      std::is_polymorphic<C>::value};

struct X1 { X1(); X1(const X1&); X1(X1&&); ~X1(); X1& operator=(const X1&); X1& operator=(X1&&); long d_[1]; };
struct X2 { X2(); X2(const X2&); X2(X2&&); ~X2(); X2& operator=(const X2&); X2& operator=(X2&&); long d_[1]; };
struct X3 { X3(); X3(const X3&); X3(X3&&); ~X3(); X3& operator=(const X3&); X3& operator=(X3&&); long d_[1]; };
struct X4 { X4(); X4(const X4&); X4(X4&&); ~X4(); X4& operator=(const X4&); X4& operator=(X4&&); long d_[1]; };
struct E { E(X1&&); E(const E&); E(E&&); ~E(); E& operator=(const E&); E& operator=(E&&); long d_[1]; };
VX_CLASS(X1) VX_CLASS(X2) VX_CLASS(X3) VX_CLASS(X4) VX_CLASS(E)
using IL = std::initializer_list<E>;

#define VX_ARGS(C)                                                             \
  C(X1&&, const X2&, X3&);                                                     \
  explicit C(X1&&);                                                            \
  explicit C(const X2&);                                                       \
  C(const X4&);                                                                \
  C(X4&&);                                                                     \
  C(std::initializer_list<E>);                                                 \
  C(std::initializer_list<E>, X1&&);
#define VX_ASG(C) C& operator=(X1&&); C& operator=(const X2&); C& operator=(const X4&); C& operator=(X4&&);
#define VX_S_REG(C) C(); C(const C&); C(C&&); C& operator=(const C&); C& operator=(C&&);
#define VX_S_NXMOVE(C) C(); C(const C&); C(C&&) noexcept; C& operator=(const C&); C& operator=(C&&) noexcept;
#define VX_S_NXALL(C) C() noexcept; C(const C&) noexcept; C(C&&) noexcept; C& operator=(const C&) noexcept; C& operator=(C&&) noexcept;
#define VX_S_NOASG(C) C(); C(const C&); C(C&&); C& operator=(const C&) = delete; C& operator=(C&&) = delete;
#define VX_S_TRIV(C) C(); C(const C&) = default; C(C&&) = default; C& operator=(const C&) = default; C& operator=(C&&) = default;
#define VX_S_COPYONLY(C) C(); C(const C&); C& operator=(const C&);
#define VX_S_MOVEONLY(C) C(); C(const C&) = delete; C(C&&); C& operator=(const C&) = delete; C& operator=(C&&);
#define VX_S_COPYASGONLY(C) C(); C(const C&); C(C&&); C& operator=(const C&); C& operator=(C&&) = delete;
#define VX_S_MOVEASGONLY(C) C(); C(const C&); C(C&&); C& operator=(const C&) = delete; C& operator=(C&&);
#define VX_S_NOMOVE(C) C(); C(const C&) = delete; C& operator=(const C&) = delete;
#define VX_S_EXPL(C) C(); explicit C(const C&); explicit C(C&&); C& operator=(const C&); C& operator=(C&&);
#define VX_S_NC(C) C(); C(C&); C(const C&); C(C&&); C(const C&&); C& operator=(C&); C& operator=(const C&); C& operator=(C&&); C& operator=(const C&&);
#define VX_S_AMP(C) VX_S_REG(C) C* operator&(); const C* operator&() const;
#define VX_S_NODEF(C) C(const C&); C(C&&); C& operator=(const C&); C& operator=(C&&);
#define VX_S_OPNEW(C) VX_S_REG(C) static void* operator new(std::size_t); static void operator delete(void*);                   \
  static void* operator new(std::size_t, void*); static void operator delete(void*, void*);
#define VX_S_GREEDY(C) VX_S_REG(C) template <class U> C(U&&); template <class U> C& operator=(U&&);

// ---- declarations as contracts: which uses the type system admits ------------
struct Stranger { long d_; };
template <class V>
void vx_take(V);
template <class V, class... As>
auto vx_implicit(int) -> decltype(vx_take<V>({std::declval<As>()...}), std::true_type{});
template <class V, class... As>
std::false_type vx_implicit(long);
// V is reachable from As... by copy-list-initialisation (a braced initialiser without a type)
#define VX_IMPLICIT(...) decltype(vx_implicit<__VA_ARGS__>(0))::value
// V is constructible from (assignable from) the braced list of As..., which initialises a value that is then moved from
template <class V, class... As>
auto vx_braced(int) -> decltype(V({std::declval<As>()...}), std::true_type{});
template <class V, class... As>
std::false_type vx_braced(long);
template <class V, class... As>
auto vx_braced_alloc(int) -> decltype(V(std::allocator_arg, std::declval<const typename V::allocator_type&>(), {std::declval<As>()...}), std::true_type{});
template <class V, class... As>
std::false_type vx_braced_alloc(long);
template <class V, class... As>
auto vx_braced_asg(int) -> decltype(std::declval<V&>() = {std::declval<As>()...}, std::true_type{});
template <class V, class... As>
std::false_type vx_braced_asg(long);
#define VX_BRACED(...) decltype(vx_braced<__VA_ARGS__>(0))::value
#define VX_BRACED_ALLOC(...) decltype(vx_braced_alloc<__VA_ARGS__>(0))::value
#define VX_BRACED_ASG(...) decltype(vx_braced_asg<__VA_ARGS__>(0))::value
#define VX_CONS(...) std::is_constructible<__VA_ARGS__>::value
#define VX_DA std::is_default_constructible<A>::value
#define VX_UNCVREF(V) std::remove_cv_t<std::remove_reference_t<V>>

#define VX_CMP6(C, D)                                                          \
  bool operator==(const C&, const D&); bool operator!=(const C&, const D&);    \
  bool operator<(const C&, const D&); bool operator>(const C&, const D&);      \
  bool operator<=(const C&, const D&); bool operator>=(const C&, const D&);
#define VX_CMPLT(C, D) bool operator==(const C&, const D&); bool operator<(const C&, const D&);
#define VX_CMP3(C, D) bool operator==(const C&, const D&); std::partial_ordering operator<=>(const C&, const D&);

#endif
