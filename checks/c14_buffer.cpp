#include <fitoria/core/dynamic_buffer.hpp>
#include "mc.hpp"
#include <array>
#include <deque>
using namespace fitoria;
template <class C> static void run(mc::Chooser& c, const char* tn)
{
  static const std::size_t LIM[] = { 0, 1, 3, 4, 6, std::size_t(-1) }; std::size_t lim = c.of(LIM); bool existing = lim == std::size_t(-1) && c.flip();
  std::string model; char next = 'a'; std::string init;
  auto fill = [&] { C k; for (int i = 0; i < 3; ++i) { k.push_back(typename C::value_type(next)); model += next++; } return k; };
  auto b = existing ? dynamic_buffer<C>(fill()) : lim == std::size_t(-1) ? dynamic_buffer<C>() : dynamic_buffer<C>(lim);
  c.note(std::string(tn) + " limit=" + (existing ? "container" : std::to_string(lim))); std::size_t room = 0; char* wp = nullptr; const std::size_t L = lim == std::size_t(-1) ? b.max_size() : lim;
  auto key = [&] { return "hist:" + c.notes(); };
  auto inv = [&](const char* op) {
    auto d = b.cdata(); auto e = std::as_const(b).data(); auto m = b.data();
    if (b.size() != model.size() || d.size() != model.size() || e.size() != model.size() || m.size() != model.size()) { c.fail(key(), std::string(op) + ": " + std::to_string(b.size()) + " readable bytes instead of " + std::to_string(model.size())); return false; }
    if (std::string(static_cast<const char*>(d.data()), d.size()) != model || std::string(static_cast<const char*>(m.data()), m.size()) != model || e.data() != d.data()) { c.fail(key(), std::string(op) + ": readable bytes '" + std::string(static_cast<const char*>(d.data()), d.size()) + "' instead of '" + model + "'"); return false; }
    if (b.max_size() != L) { c.fail(key(), "the limit changes"); return false; }
    if (b.size() > b.max_size()) { c.fail(key(), "size exceeds the limit"); return false; }
    return true; };
  if (!inv("initially")) return;
  int n = c.thorough() ? 7 : 5;
  for (int i = 0; i < n; ++i) {
    static const std::size_t SZ[] = { 0, 1, 2, 3, 4, 7 }; static const std::size_t CN[] = { 0, 1, 2, 5, std::size_t(-1) };
    int op = c.pick(room ? 18 : 12); // prepare x6, consume x5, release, commit x6
    if (op < 6) {
      std::size_t k = SZ[op]; c.note("prepare" + std::to_string(k)); bool ok = k <= L - model.size();
      try { auto w = b.prepare(k); if (!ok) { c.fail(key(), "prepare does not refuse to exceed the limit"); return; } if (w.size() != k) { c.fail(key(), "prepare yields " + std::to_string(w.size()) + " bytes"); return; } wp = static_cast<char*>(w.data()); room = k; if (k) std::memset(wp, '!', k); }
      catch (std::length_error&) { if (ok) { c.fail(key(), "prepare refuses although the limit allows it"); return; } room = 0; }
    } else if (op < 11) { std::size_t k = CN[op - 6]; c.note("consume" + std::to_string(k)); b.consume(k); model.erase(0, k); room = 0; }
    else if (op == 11) { c.note("release"); auto x = b.release(); if (std::string(x.begin(), x.end()) != model) { c.fail(key(), "release yields '" + std::string(x.begin(), x.end()) + "' instead of '" + model + "'"); return; } model.clear(); room = 0; }
    else { std::size_t k = std::min<std::size_t>(SZ[op - 12], room); if (k != SZ[op - 12] && SZ[op - 12] != 7) c.skip(); c.note("commit" + std::to_string(k)); for (std::size_t q = 0; q < k; ++q) { wp[q] = next; model += next; next = next == 'z' ? 'a' : char(next + 1); } b.commit(k); room = 0; }
    if (!inv("after the step")) return;
    c.observe(std::to_string(lim) + ":" + model + ":" + std::to_string(room));
  }
}
MC_SCENARIO_D("string", 3) { run<std::string>(c, "string"); }
MC_SCENARIO_D("vector-of-bytes", 3) { run<std::vector<unsigned char>>(c, "vector"); }
MC_SCENARIO_D("bytes", 3) { run<std::vector<char>>(c, "vchar"); }
// a moved or copied buffer carries the bytes with it
MC_SCENARIO("copy-move")
{
  std::size_t a = c.pick(5), k = c.pick(5), m = c.pick(3); c.note(std::to_string(a) + "," + std::to_string(k) + "," + std::to_string(m)); dynamic_buffer<std::string> b(16); auto w = b.prepare(a); std::string model("wxyz", a); if (a) std::memcpy(w.data(), model.data(), a); b.commit(a); b.consume(k); model.erase(0, k);
  auto look = [&](dynamic_buffer<std::string>& x, const char* s) { auto d = x.cdata(); if (std::string(static_cast<const char*>(d.data()), d.size()) != model || x.max_size() != 16) c.fail(std::string(s) + ":" + c.notes(), "the bytes are not carried along"); };
  if (m == 0) { auto x = b; look(x, "copy"); look(b, "copied-from"); } else if (m == 1) { auto x = std::move(b); look(x, "move"); } else { dynamic_buffer<std::string> x(3); x = b; look(x, "assign"); look(b, "assigned-from"); } c.observe(c.notes());
}
// used as Boost.Asio and Boost.Beast use it
MC_SCENARIO("asio-copy")
{
  std::size_t lim = c.pick(7), n1 = c.pick(7), n2 = c.pick(7), k = c.pick(4); c.note(std::to_string(lim) + "," + std::to_string(n1) + "," + std::to_string(k) + "," + std::to_string(n2)); dynamic_buffer<std::vector<unsigned char>> b(lim); std::string model, src = "ABCDEFGHIJKLMN"; std::size_t at = 0;
  for (int r = 0; r < 2; ++r) { std::size_t n = r ? n2 : n1; std::string part = src.substr(at, n); at += n; bool ok = n <= lim - model.size(); try { auto got = net::buffer_copy(b.prepare(n), net::buffer(part)); b.commit(got); model += part; c.check(ok, "limit:" + c.notes(), "limit exceeded"); } catch (std::length_error&) { c.check(!ok, "refuse:" + c.notes(), "refused below the limit"); } if (!r) { b.consume(k); model.erase(0, k); } }
  std::string out(model.size(), 0); net::buffer_copy(net::buffer(out), b.cdata()); c.check(out == model && b.size() == model.size(), "bytes:" + c.notes(), "bytes differ"); c.observe(c.notes());
}
MC_MAIN
