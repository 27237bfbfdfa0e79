#pragma once
// Stand-in for boost::asio::basic_stream_file: plain POSIX calls, completion posted to the executor.
// A harness decides the answer of every read/write through vf_file_env.
#include <boost/asio/async_result.hpp>
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/file_base.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/append.hpp>
#include <cerrno>
#include <cstdint>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <utility>
struct vf_file_env {
  // maps the number of bytes asked for to the number of bytes the read/write may transfer (>=1)
  std::size_t (*limit_read)(std::size_t) = nullptr;
  std::size_t (*limit_write)(std::size_t) = nullptr;
  int (*fail_read)() = nullptr; // errno to fail with, 0 = none
  int (*fail_write)() = nullptr;
  int open_fds = 0;
  static vf_file_env& get() { static vf_file_env e; return e; }
};
namespace boost { namespace asio {
template <typename Executor = any_io_executor>
class basic_stream_file : public file_base {
  Executor ex_; int fd_ = -1;
  static boost::system::error_code last() { return { errno, boost::system::system_category() }; }
public:
  using executor_type = Executor;
  using native_handle_type = int;
  explicit basic_stream_file(const Executor& ex) : ex_(ex) { }
  basic_stream_file(const Executor& ex, const std::string& p, file_base::flags f) : ex_(ex)
  { boost::system::error_code ec; open(p, f, ec); if (ec) throw boost::system::system_error(ec); }
  basic_stream_file(const Executor& ex, int fd) : ex_(ex), fd_(fd) { vf_file_env::get().open_fds++; }
  basic_stream_file(basic_stream_file&& o) noexcept : ex_(o.ex_), fd_(std::exchange(o.fd_, -1)) { }
  basic_stream_file& operator=(basic_stream_file&& o) noexcept
  { if (this != &o) { do_close(); ex_ = o.ex_; fd_ = std::exchange(o.fd_, -1); } return *this; }
  ~basic_stream_file() { do_close(); }
  executor_type get_executor() noexcept { return ex_; }
  int native_handle() { return fd_; }
  int release() { vf_file_env::get().open_fds--; return std::exchange(fd_, -1); }
  bool is_open() const { return fd_ >= 0; }
  void assign(int fd) { fd_ = fd; vf_file_env::get().open_fds++; }
  void open(const std::string& p, file_base::flags f)
  { boost::system::error_code ec; open(p, f, ec); if (ec) throw boost::system::system_error(ec); }
  boost::system::error_code open(const std::string& p, file_base::flags f, boost::system::error_code& ec)
  {
    do_close(); fd_ = ::open(p.c_str(), static_cast<int>(f), 0777);
    if (fd_ < 0) ec = last(); else { ec = {}; vf_file_env::get().open_fds++; }
    return ec;
  }
  void close() { do_close(); }
  boost::system::error_code close(boost::system::error_code& ec) { do_close(); return ec = {}; }
  std::uint64_t size() const { struct stat s; if (::fstat(fd_, &s)) throw boost::system::system_error(last()); return static_cast<std::uint64_t>(s.st_size); }
  std::uint64_t size(boost::system::error_code& ec) const { struct stat s; if (::fstat(fd_, &s)) { ec = last(); return 0; } ec = {}; return static_cast<std::uint64_t>(s.st_size); }
  std::uint64_t seek(std::int64_t o, file_base::seek_basis w, boost::system::error_code& ec)
  {
    auto r = ::lseek(fd_, o, w == file_base::seek_set ? SEEK_SET : w == file_base::seek_cur ? SEEK_CUR : SEEK_END);
    if (r < 0) { ec = last(); return 0; } ec = {}; return static_cast<std::uint64_t>(r);
  }
  std::uint64_t seek(std::int64_t o, file_base::seek_basis w)
  { boost::system::error_code ec; auto r = seek(o, w, ec); if (ec) throw boost::system::system_error(ec); return r; }
  template <typename B, typename Tok = typename default_completion_token<Executor>::type>
  auto async_read_some(const B& b, Tok&& tok = Tok())
  {
    return async_initiate<Tok, void(boost::system::error_code, std::size_t)>(
        [this](auto h, mutable_buffer mb) {
          auto& e = vf_file_env::get(); boost::system::error_code ec; std::size_t n = 0;
          if (int f = e.fail_read ? e.fail_read() : 0; f) ec = { f, boost::system::system_category() };
          else {
            auto want = e.limit_read && mb.size() ? e.limit_read(mb.size()) : mb.size();
            auto r = ::read(fd_, mb.data(), want);
            if (r < 0) ec = last(); else if (r == 0 && mb.size() > 0) ec = error::eof; else n = static_cast<std::size_t>(r);
          }
          auto ex = get_associated_executor(h, ex_);
          boost::asio::post(ex, boost::asio::append(std::move(h), ec, n));
        }, tok, mutable_buffer(*buffer_sequence_begin(b)));
  }
  template <typename B, typename Tok = typename default_completion_token<Executor>::type>
  auto async_write_some(const B& b, Tok&& tok = Tok())
  {
    return async_initiate<Tok, void(boost::system::error_code, std::size_t)>(
        [this](auto h, const_buffer cb) {
          auto& e = vf_file_env::get(); boost::system::error_code ec; std::size_t n = 0;
          if (int f = e.fail_write ? e.fail_write() : 0; f) ec = { f, boost::system::system_category() };
          else {
            auto want = e.limit_write && cb.size() ? e.limit_write(cb.size()) : cb.size();
            auto r = ::write(fd_, cb.data(), want);
            if (r < 0) ec = last(); else n = static_cast<std::size_t>(r);
          }
          auto ex = get_associated_executor(h, ex_);
          boost::asio::post(ex, boost::asio::append(std::move(h), ec, n));
        }, tok, const_buffer(*buffer_sequence_begin(b)));
  }
private:
  void do_close() { if (fd_ >= 0) { ::close(fd_); fd_ = -1; vf_file_env::get().open_fds--; } }
};
}}
