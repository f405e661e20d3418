// std::vector replaced by its contract (dependency model): explicit specializations, one member set as used by hif
#pragma once
#include <cstddef>
#include <vector>
namespace std {
#define IRV_VEC(T)                                                                                                  \
  template <> class vector<T, allocator<T>> {                                                                       \
   public:                                                                                                          \
    typedef T value_type; typedef size_t size_type; typedef T *iterator; typedef const T *const_iterator;           \
    typedef T &reference; typedef const T &const_reference; typedef T *pointer;                                     \
    T *p; size_t n;                                                                                                 \
    vector() : p(0), n(0) {}                                                                                        \
    explicit vector(size_t k) : p(new T[k]), n(k) { for (size_t i = 0; i < k; ++i) p[i] = T(0); }                   \
    vector(size_t k, T v) : p(new T[k]), n(k) { for (size_t i = 0; i < k; ++i) p[i] = v; }                          \
    size_t size() const { return n; } bool empty() const { return n == 0; }                                         \
    T *data() { return p; } const T *data() const { return p; }                                                     \
    T *begin() { return p; } T *end() { return p + n; } const T *begin() const { return p; }                        \
    const T *end() const { return p + n; } const T *cbegin() const { return p; } const T *cend() const { return p + n; } \
    T &operator[](size_t i) { return p[i]; } const T &operator[](size_t i) const { return p[i]; }                   \
    T &front() { return p[0]; } T &back() { return p[n - 1]; }                                                      \
    void resize(size_t k); void swap(vector &o) { T *q = p; p = o.p; o.p = q; size_t m = n; n = o.n; o.n = m; }     \
  };
IRV_VEC(double)
IRV_VEC(int)
IRV_VEC(long)
IRV_VEC(bool)
}
