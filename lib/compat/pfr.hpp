#pragma once
#include_next <boost/pfr.hpp>
#include <memory>
#include <string_view>
namespace boost { namespace pfr {
namespace vf_shim {
template <class T> struct wrap { const T v; };
template <class T> extern const wrap<T> fake;
template <class M> struct ptr { const M* p; };
template <class M> ptr(const M*) -> ptr<M>;
template <class M> consteval auto mk(const M& m) { return ptr<M> { std::addressof(m) }; }
template <class S, auto P> consteval std::string_view name()
{
  std::string_view s = __PRETTY_FUNCTION__;
  // ... with S = X; auto P = ptr<int>{(& fake<X>.wrap<X>::v.X::a)}; ...
  auto ok = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; };
  auto e = s.size();
  while (!ok(s[e - 1])) --e;
  auto b = e;
  while (ok(s[b - 1])) --b;
  return s.substr(b, e - b);
}
}
template <std::size_t I, class T> constexpr std::string_view get_name() noexcept
{
  return vf_shim::name<T, vf_shim::mk(detail::sequence_tuple::get<I>(
      detail::tie_as_tuple(vf_shim::fake<T>.v)))>();
}
}}
