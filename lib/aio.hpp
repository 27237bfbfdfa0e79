// Runs one awaitable to completion on a private io_context, without waiting for anything real.
#pragma once
#include <fitoria/core/net.hpp>
#include <fitoria/core/bytes.hpp>
#include <fitoria/core/expected.hpp>
#include <fitoria/core/optional.hpp>
#include <boost/asio/co_spawn.hpp>
#include <boost/asio/io_context.hpp>
#include <exception>
#include <optional>
namespace vf {
inline boost::asio::io_context& ctx() { static boost::asio::io_context io; return io; }
struct Stuck { }; // the coroutine neither finished nor can make progress
template <class T> T run(fitoria::awaitable<T> a)
{
  auto& io = ctx(); io.restart();
  std::exception_ptr ep; bool done = false; std::conditional_t<std::is_void_v<T>, int, std::optional<T>> out {};
  boost::asio::co_spawn(fitoria::executor_type(io.get_executor()), std::move(a), [&](std::exception_ptr e, auto&&... v) { ep = e; done = true; if constexpr (!std::is_void_v<T>) { if (!e) out.emplace(std::move(v)...); } });
  io.poll();
  if (!done) throw Stuck {};
  if (ep) std::rethrow_exception(ep);
  if constexpr (!std::is_void_v<T>) return std::move(*out);
}
// drains a body stream: bytes and the error that ended it, if any; chunk sizes on request
template <class S> std::pair<std::string, std::error_code> drain(S& s, std::vector<std::size_t>* sizes = nullptr)
{
  std::string o; int n = 0;
  for (;;) {
    auto r = run(s.async_read_some()); if (!r) return { o, {} };
    if (!*r) return { o, r->error() };
    o.append(reinterpret_cast<const char*>((*r)->data()), (*r)->size()); if (sizes) sizes->push_back((*r)->size());
    if (++n > 100000) throw Stuck {};
  }
}
// a source delivering the given pieces, then an error or the end
struct Pieces {
  using is_async_readable_stream = void;
  std::vector<std::string> v; std::error_code end; std::size_t i = 0; int* reads = nullptr;
  auto async_read_some() -> fitoria::awaitable<fitoria::optional<fitoria::expected<fitoria::bytes, std::error_code>>>
  {
    if (reads) ++*reads;
    if (i < v.size()) { auto& s = v[i++]; auto b = reinterpret_cast<const std::byte*>(s.data()); co_return fitoria::bytes(b, b + s.size()); }
    if (end && i == v.size()) { ++i; co_return fitoria::unexpected { end }; }
    co_return fitoria::nullopt;
  }
};
}
