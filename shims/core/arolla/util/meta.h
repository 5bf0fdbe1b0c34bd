#ifndef CORE_AROLLA_META_H_
#define CORE_AROLLA_META_H_
#include <cstddef>
#include <functional>
#include <tuple>
#include <type_traits>
#include <utility>
namespace arolla { namespace meta {
template <typename T> struct type_ { using type = T; };
template <typename T> using type = type_<T>;
template <typename L> struct is_type_list : std::false_type {};
template <typename... T> struct type_list { using tuple = std::tuple<T...>; };
template <typename... T> struct is_type_list<type_list<T...>> : std::true_type {};
template <typename L, template <typename...> class W> struct wrap_;
template <typename... T, template <typename...> class W> struct wrap_<type_list<T...>, W> { using type = W<T...>; };
template <template <typename...> class W, typename L> using wrap_t = typename wrap_<L, W>::type;
template <typename L> struct head;
template <typename T, typename... R> struct head<type_list<T, R...>> { using type = T; };
template <typename L> using head_t = typename head<L>::type;
template <typename L> struct tail;
template <typename T, typename... R> struct tail<type_list<T, R...>> { using type = type_list<R...>; };
template <typename L> using tail_t = typename tail<L>::type;
template <typename... L> struct concat;
template <> struct concat<> { using type = type_list<>; };
template <typename... A> struct concat<type_list<A...>> { using type = type_list<A...>; };
template <typename... A, typename... B, typename... R> struct concat<type_list<A...>, type_list<B...>, R...> : concat<type_list<A..., B...>, R...> {};
template <typename... L> using concat_t = typename concat<L...>::type;
template <typename L, template <typename> class Op> struct transform;
template <typename... T, template <typename> class Op> struct transform<type_list<T...>, Op> { using type = type_list<Op<T>...>; };
template <typename L, template <typename> class Op> using transform_t = typename transform<L, Op>::type;
template <typename L, typename T> struct contains : std::false_type {};
template <typename... A, typename T> struct contains<type_list<A...>, T> : std::bool_constant<(std::is_same_v<A, T> || ...)> {};
template <typename L, typename T> inline constexpr bool contains_v = contains<L, T>::value;
template <typename L> struct size;
template <typename... T> struct size<type_list<T...>> { static constexpr size_t value = sizeof...(T); };
template <typename Fn, typename... T> constexpr void foreach_type(type_list<T...>, Fn&& fn) { (fn(type_<T>()), ...); }
template <typename L, typename Fn> constexpr void foreach_type(Fn&& fn) { foreach_type(L(), fn); }
template <template <typename> class W, typename T> struct strip_template { using type = T; };
template <template <typename> class W, typename T> struct strip_template<W, W<T>> { using type = T; };
template <template <typename> class W, typename T> using strip_template_t = typename strip_template<W, T>::type;
template <template <typename> class W, typename T> struct is_wrapped_with : std::false_type {};
template <template <typename> class W, typename T> struct is_wrapped_with<W, W<T>> : std::true_type {};
template <template <typename> class W, typename T> inline constexpr bool is_wrapped_with_v = is_wrapped_with<W, T>::value;
template <typename F> struct function_traits : function_traits<decltype(&F::operator())> {};
template <typename R, typename... A> struct function_traits<R(A...)> { using return_type = R; using arg_types = type_list<A...>; static constexpr int arity = sizeof...(A); };
template <typename R, typename... A> struct function_traits<R (*)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...) const> : function_traits<R(A...)> {};
}  // namespace meta
}  // namespace arolla
#endif
