#ifndef MINIABSL_CONTAINER_H_
#define MINIABSL_CONTAINER_H_
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
template <class C, class F> bool c_all_of(const C& c, F&& f) { return std::all_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_any_of(const C& c, F&& f) { return std::any_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_none_of(const C& c, F&& f) { return std::none_of(std::begin(c), std::end(c), f); }
template <class C, class F> F c_for_each(C&& c, F&& f) { return std::for_each(std::begin(c), std::end(c), std::forward<F>(f)); }
template <class C, class T> auto c_find(C& c, T&& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class F> auto c_find_if(C& c, F&& f) { return std::find_if(std::begin(c), std::end(c), f); }
template <class C, class F> auto c_find_if_not(C& c, F&& f) { return std::find_if_not(std::begin(c), std::end(c), f); }
template <class C, class T> bool c_contains(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class T> bool c_linear_search(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class T> auto c_count(const C& c, const T& v) { return std::count(std::begin(c), std::end(c), v); }
template <class C, class F> auto c_count_if(const C& c, F&& f) { return std::count_if(std::begin(c), std::end(c), f); }
template <class C, class O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C, class O, class F> O c_transform(const C& c, O o, F&& f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C> bool c_is_sorted(const C& c) { return std::is_sorted(std::begin(c), std::end(c)); }
template <class C, class F> bool c_is_sorted(const C& c, F&& f) { return std::is_sorted(std::begin(c), std::end(c), f); }
template <class C, class T> auto c_lower_bound(C& c, T&& v) { return std::lower_bound(std::begin(c), std::end(c), v); }
template <class C, class T> auto c_upper_bound(C& c, T&& v) { return std::upper_bound(std::begin(c), std::end(c), v); }
template <class C, class T> bool c_binary_search(const C& c, T&& v) { return std::binary_search(std::begin(c), std::end(c), v); }
template <class C, class O, class F> O c_copy_if(const C& c, O o, F&& f) { return std::copy_if(std::begin(c), std::end(c), o, f); }
template <class C, class O> O c_move(C&& c, O o) { return std::move(std::begin(c), std::end(c), o); }
template <class C> auto c_distance(const C& c) { return std::distance(std::begin(c), std::end(c)); }
template <class C, class F, class T> void c_replace_if(C& c, F&& f, T&& v) { std::replace_if(std::begin(c), std::end(c), f, v); }
template <class C, class F> void c_generate(C& c, F&& f) { std::generate(std::begin(c), std::end(c), f); }
template <class C> auto c_adjacent_find(C& c) { return std::adjacent_find(std::begin(c), std::end(c)); }
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class F> void c_sort(C& c, F&& f) { std::sort(std::begin(c), std::end(c), f); }
template <class C> void c_stable_sort(C& c) { std::stable_sort(std::begin(c), std::end(c)); }
template <class C, class F> void c_stable_sort(C& c, F&& f) { std::stable_sort(std::begin(c), std::end(c), f); }
template <class C, class T> void c_fill(C& c, const T& v) { std::fill(std::begin(c), std::end(c), v); }
template <class C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template <class C, class T> T c_accumulate(const C& c, T v) { return std::accumulate(std::begin(c), std::end(c), v); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <class C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
}
#endif
