// Strict reading of HTTP/1.x responses (RFC 9112), independent of Beast.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
namespace vf {
struct Resp {
  int status = 0, version = 0; std::vector<std::pair<std::string, std::string>> h; std::string body; bool chunked = false, to_close = false, complete = false; std::vector<std::size_t> chunks;
  std::string get(std::string_view n, std::string d = "") const { for (auto& [k, v] : h) if (k == n) return v; return d; }
  std::vector<std::string> all(std::string_view n) const { std::vector<std::string> r; for (auto& [k, v] : h) if (k == n) r.push_back(v); return r; }
};
// reads one response to a request with the given method from s at i; empty string when fine, else what is wrong
// ("more" when s ends inside it)
inline std::string read_response(std::string_view s, std::size_t& i, bool eof, std::string_view method, Resp& r)
{
  r = Resp(); auto lower = [](std::string x) { for (auto& c : x) if (c >= 'A' && c <= 'Z') c = char(c + 32); return x; };
  auto line = [&](std::string& l) { auto e = s.find("\r\n", i); if (e == s.npos) return false; l = std::string(s.substr(i, e - i)); i = e + 2; return true; };
  std::string l; if (!line(l)) return "more";
  if (l.size() < 12 || l.compare(0, 7, "HTTP/1.") || (l[7] != '0' && l[7] != '1') || l[8] != ' ') return "bad status line " + l;
  r.version = 10 + (l[7] - '0'); for (int k = 9; k < 12; ++k) { if (l[k] < '0' || l[k] > '9') return "bad status code"; r.status = r.status * 10 + (l[k] - '0'); } if (l.size() > 12 && l[12] != ' ') return "bad status line";
  for (;;) {
    if (!line(l)) return "more"; if (l.empty()) break; auto c = l.find(':'); if (c == l.npos || c == 0) return "bad header line " + l;
    for (std::size_t k = 0; k < c; ++k) if (std::string_view("()<>@,;:\\\"/[]?={} \t").find(l[k]) != std::string_view::npos || (unsigned char)l[k] < 33 || (unsigned char)l[k] > 126) return "bad header name " + l;
    auto v = l.substr(c + 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); r.h.emplace_back(lower(l.substr(0, c)), v);
  }
  auto te = r.all("transfer-encoding"), cl = r.all("content-length");
  if (r.status / 100 == 1 || r.status == 204) { if (!te.empty()) return "transfer-encoding in a " + std::to_string(r.status); if (!cl.empty()) return "content-length in a " + std::to_string(r.status); r.complete = true; return ""; }
  if (method == "HEAD" || r.status == 304) { r.complete = true; return ""; }
  if (!te.empty()) {
    if (te.size() != 1 || lower(te[0]) != "chunked") return "transfer-encoding " + te[0]; if (!cl.empty()) return "both transfer-encoding and content-length"; r.chunked = true;
    for (;;) {
      if (!line(l)) return "more"; std::size_t n = 0, k = 0; for (; k < l.size() && std::isxdigit((unsigned char)l[k]); ++k) n = n * 16 + std::size_t(l[k] <= '9' ? l[k] - '0' : (l[k] | 32) - 'a' + 10); if (k == 0 || k > 12 || (k < l.size() && l[k] != ';')) return "bad chunk size line";
      if (n == 0) break; if (s.size() - i < n + 2) { r.body += s.substr(i); return "more"; } r.body += s.substr(i, n); r.chunks.push_back(n); i += n; if (s.substr(i, 2) != "\r\n") return "chunk not followed by CRLF"; i += 2;
    }
    for (;;) { if (!line(l)) return "more"; if (l.empty()) break; }
    r.complete = true; return "";
  }
  if (!cl.empty()) { std::size_t n = 0; if (cl.size() != 1 || cl[0].empty()) return "several content-length"; for (char ch : cl[0]) { if (ch < '0' || ch > '9') return "bad content-length " + cl[0]; n = n * 10 + std::size_t(ch - '0'); } auto a = s.size() - i; if (a < n) { r.body = std::string(s.substr(i)); i = s.size(); return "more"; } r.body = std::string(s.substr(i, n)); i += n; r.complete = true; return ""; }
  r.to_close = true; r.body = std::string(s.substr(i)); i = s.size(); if (!eof) return "more"; r.complete = true; return "";
}
struct Answers { std::vector<Resp> v; std::string err; std::size_t used = 0; Resp partial; };
// everything one connection received, as the answers to requests with these methods (interim 1xx dropped)
inline Answers read_all(std::string_view s, bool eof, const std::vector<std::string>& methods, bool keep_interim = false)
{
  Answers a; std::size_t i = 0;
  while (i < s.size()) { std::size_t at = i; Resp r; auto m = a.v.size() < methods.size() ? methods[a.v.size()] : std::string("GET"); auto e = read_response(s, i, eof, m, r); if (!e.empty()) { a.err = e; a.partial = r; a.used = at; return a; } if (r.status / 100 != 1 || r.status == 101 || keep_interim) a.v.push_back(r); a.used = i; if (r.status == 101) break; }
  return a;
}
}
