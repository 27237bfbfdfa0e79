#pragma once
#include_next <boost/beast/http.hpp>
#include <boost/beast/core/flat_buffer.hpp>
namespace boost { namespace beast { namespace http {
template <class S, class A, bool R, class B, class PA, class H>
auto async_read(S& s, basic_flat_buffer<A>& b, parser<R, B, PA>& p, H&& h)
{
  return async_read(s, b, static_cast<basic_parser<R>&>(p), std::forward<H>(h));
}
}}}
