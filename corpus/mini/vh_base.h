// minimal standard library: simple enough to be executed symbolically
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <stdio.h>
namespace std {
using ::size_t; using ::ptrdiff_t; using ::abort; using ::strcmp; using ::strlen; using ::memcpy; using ::memset; using ::free; using ::malloc;
typedef decltype(nullptr) nullptr_t;
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> typename remove_reference<T>::type &&move(T &&t) { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &t) { return static_cast<T &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &&t) { return static_cast<T &&>(t); }
template <bool C, class A, class B> struct _ifelse { typedef A type; };
template <class A, class B> struct _ifelse<false, A, B> { typedef B type; };
struct input_iterator_tag {}; struct forward_iterator_tag : input_iterator_tag {}; struct bidirectional_iterator_tag : forward_iterator_tag {}; struct random_access_iterator_tag : bidirectional_iterator_tag {};
template <class I> struct iterator_traits { typedef typename I::value_type value_type; typedef typename I::reference reference; typedef typename I::pointer pointer; typedef ptrdiff_t difference_type; };
template <class T> struct iterator_traits<T *> { typedef T value_type; typedef T &reference; typedef T *pointer; typedef ptrdiff_t difference_type; };
template <class T> struct iterator_traits<const T *> { typedef T value_type; typedef const T &reference; typedef const T *pointer; typedef ptrdiff_t difference_type; };
template <> struct iterator_traits<int>; template <> struct iterator_traits<unsigned>; template <> struct iterator_traits<long>; template <> struct iterator_traits<size_t>;
template <class I> struct reverse_iterator {
  typedef typename iterator_traits<I>::value_type value_type; typedef typename iterator_traits<I>::reference reference; typedef typename iterator_traits<I>::pointer pointer; typedef ptrdiff_t difference_type; typedef bidirectional_iterator_tag iterator_category;
  I i;
  reverse_iterator() : i() {}
  explicit reverse_iterator(I j) : i(j) {}
  I base() const { return i; }
  reference operator*() const { I j(i); --j; return *j; }
  pointer operator->() const { I j(i); --j; return &*j; }
  reverse_iterator &operator++() { --i; return *this; }
  reverse_iterator operator++(int) { reverse_iterator t(*this); --i; return t; }
  reverse_iterator &operator--() { ++i; return *this; }
  bool operator==(const reverse_iterator &o) const { return i == o.i; }
  bool operator!=(const reverse_iterator &o) const { return i != o.i; }
};
template <class I> I next(I i, ptrdiff_t k = 1) { while (k-- > 0) ++i; return i; }
template <class I> I prev(I i, ptrdiff_t k = 1) { while (k-- > 0) --i; return i; }
template <class I> void advance(I &i, ptrdiff_t k) { for (; k > 0; k--) ++i; for (; k < 0; k++) --i; }
template <class I> ptrdiff_t distance(I a, I b) { ptrdiff_t k = 0; for (; a != b; ++a) k++; return k; }
template <class C> auto begin(C &c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(C &c) -> decltype(c.end()) { return c.end(); }
template <class I, class T> I find(I a, I b, const T &t) { for (; a != b; ++a) if (*a == t) break; return a; }
template <class I, class F> I find_if(I a, I b, F f) { for (; a != b; ++a) if (f(*a)) break; return a; }
template <class I, class F> F for_each(I a, I b, F f) { for (; a != b; ++a) f(*a); return f; }
template <class I, class O> O copy(I a, I b, O o) { for (; a != b; ++a, ++o) *o = *a; return o; }
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
template <class T, class U> T exchange(T &a, U &&b) { T c(a); a = forward<U>(b); return c; }
template <class T> T *addressof(T &t) { return &t; }
template <class A, class B> struct pair {
  typedef A first_type; typedef B second_type;
  A first; B second;
  pair() : first(), second() {}
  pair(const A &a, const B &b) : first(a), second(b) {}
  template <class C, class D> pair(const pair<C, D> &o) : first(o.first), second(o.second) {}
  template <class C, class D> pair(const C &a, const D &b) : first(a), second(b) {}
};
template <class A, class B> pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }
template <class A, class B> bool operator==(const pair<A, B> &x, const pair<A, B> &y) { return x.first == y.first && x.second == y.second; }
template <class A, class B> bool operator<(const pair<A, B> &x, const pair<A, B> &y) { return x.first < y.first || (!(y.first < x.first) && x.second < y.second); }
template <class T> struct less { bool operator()(const T &a, const T &b) const { return a < b; } };
template <class T> struct allocator {};
template <class T> struct hash {};
template <class T> struct equal_to {};
template <class T> void swap(T &a, T &b) { T c(a); a = b; b = c; }
}
inline void *operator new(size_t, void *p) noexcept { return p; }
namespace std { struct nothrow_t {}; extern const nothrow_t nothrow; }
