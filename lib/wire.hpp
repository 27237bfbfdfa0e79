// A real http_server on an abstract Unix socket, driven step by step from one thread, and plain byte-level
// clients.  Nothing runs except inside settle(), so what happens is a function of the steps taken.
#pragma once
#include <fitoria/web/http_server.hpp>
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "http_ref.hpp"
namespace vf {
struct Wire;
struct Client {
  int fd = -1; std::string in; bool eof = false, reset = false; Wire* w = nullptr;
  Client() = default; Client(Client&& o) noexcept { *this = std::move(o); }
  Client& operator=(Client&& o) noexcept { shut(); fd = o.fd; o.fd = -1; in = std::move(o.in); eof = o.eof; reset = o.reset; w = o.w; return *this; }
  ~Client() { shut(); }
  void shut() { if (fd >= 0) ::close(fd); fd = -1; }
  void pull() { if (fd < 0) return; char b[65536]; for (;;) { auto n = ::recv(fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) { in.append(b, std::size_t(n)); continue; } if (n == 0) eof = true; else if (errno != EAGAIN) { eof = true; reset = true; } return; } }
  // puts bytes into the connection; false when the server no longer takes any
  bool put(std::string_view s);
  void half_close() { ::shutdown(fd, SHUT_WR); }
};
inline bool keep_default_limits = false; // otherwise there are no limits on time unless a check sets them
inline unsigned& counter() { static unsigned n = 0; return n; }
struct Wire {
  boost::asio::io_context io; std::unique_ptr<fitoria::web::http_server> srv; std::vector<std::string> escaped; std::vector<Client*> live; std::string name;
  static fitoria::executor_type ex(boost::asio::io_context& io) { return io.get_executor(); }
  template <class F> explicit Wire(F&& configure, bool own_handler = true)
  {
    auto& no = counter();
    auto b = fitoria::web::http_server::builder(ex(io)); if (!keep_default_limits) b.set_request_timeout(fitoria::nullopt);
    if (own_handler) b.set_exception_handler([this](std::exception_ptr p) { if (!p) return; try { std::rethrow_exception(p); } catch (std::exception& e) { escaped.push_back(e.what()); } catch (int i) { escaped.push_back("int " + std::to_string(i)); } catch (...) { escaped.push_back("?"); } });
    configure(b);
    srv.reset(new fitoria::web::http_server(b.build()));
    name = std::string(1, '\0') + "vf-" + std::to_string(::getpid()) + "-" + std::to_string(no++);
    if (auto r = srv->bind_local(name); !r) { std::fprintf(stderr, "bind: %s\n", r.error().message().c_str()); std::_Exit(4); }
    settle();
  }
  Client connect()
  {
    Client c; c.w = this; c.fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); sockaddr_un a {}; a.sun_family = AF_UNIX; std::memcpy(a.sun_path, name.data(), name.size());
    if (::connect(c.fd, reinterpret_cast<sockaddr*>(&a), socklen_t(offsetof(sockaddr_un, sun_path) + name.size()))) { std::perror("connect"); std::_Exit(4); }
    settle(); return c;
  }
  // lets the server do everything it can do now; clients named here have their receive queues emptied
  template <class... C> void settle(C&... cs)
  {
    for (int idle = 0, n = 0; idle < 2 && n < 200000; ++n) { std::size_t before = (std::size_t(0) + ... + cs.in.size()); auto k = io.poll(); (cs.pull(), ...); idle = k || (std::size_t(0) + ... + cs.in.size()) != before ? 0 : idle + 1; }
  }
};
inline bool Client::put(std::string_view s)
{
  for (int idle = 0; !s.empty() && idle < 4;) { auto n = ::send(fd, s.data(), s.size(), MSG_DONTWAIT | MSG_NOSIGNAL); if (n > 0) { s.remove_prefix(std::size_t(n)); idle = 0; } else if (errno != EAGAIN) return false; else { w->settle(*this); ++idle; } }
  return s.empty();
}
}
