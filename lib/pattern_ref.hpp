// independent reading of route patterns and of what they match
#pragma once
#include <fitoria/web/path_parser.hpp>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
using fitoria::web::path_token_kind;
struct RT { path_token_kind k; std::string v; };
// independent recogniser: split at the (only) '#', then into segments
inline bool literal(std::string_view s, bool slash)
{
  for (std::size_t i = 0; i < s.size(); ++i) {
    char ch = s[i]; if (ch == '/') { if (!slash) return false; continue; }
    if (ch == '%') { auto hx = [&](std::size_t j) { return j < s.size() && std::string_view("0123456789abcdefABCDEF").find(s[j]) != std::string_view::npos; }; if (!hx(i + 1) || !hx(i + 2)) return false; i += 2; continue; }
    if (!(ch && std::strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@", ch))) return false;
  }
  return true;
}
inline bool ref(std::string_view p, bool wild, std::vector<RT>& out)
{
  std::string_view w; bool hasw = false; auto h = p.find('#'); std::string_view head = p;
  if (h != p.npos) { if (!wild) return false; hasw = true; head = p.substr(0, h); w = p.substr(h + 1); if (w.empty() || !literal(w, false)) return false; }
  std::vector<std::string> names; std::string lit; std::size_t i = 0;
  for (;;) { // one segment at a time
    auto e = head.find('/', i); auto seg = head.substr(i, e == head.npos ? head.npos : e - i);
    if (seg.size() >= 1 && seg.front() == '{') {
      if (i == 0 || seg.size() < 3 || seg.back() != '}') return false; // needs a preceding slash
      if (e == head.npos && hasw) return false; // the segment would continue with '#'
      auto n = seg.substr(1, seg.size() - 2); if (!literal(n, false)) return false;
      for (auto& o : names) if (o == n) return false;
      names.emplace_back(n); if (!lit.empty()) out.push_back({ path_token_kind::static_, lit }); lit.clear(); out.push_back({ path_token_kind::param, std::string(n) });
    } else { if (!literal(seg, false)) return false; lit += seg; }
    if (e == head.npos) break; lit += '/'; i = e + 1;
  }
  if (!lit.empty()) out.push_back({ path_token_kind::static_, lit });
  if (hasw) { for (auto& o : names) if (o == w) return false; out.push_back({ path_token_kind::wildcard, std::string(w) }); }
  return true;
}

// binds the tokens to a path; rank: one symbol per path character (literal < parameter < wildcard) plus one for the end
inline bool ref_match(const std::vector<RT>& ts, std::string_view p, std::vector<std::pair<std::string, std::string>>& b, std::string& rank)
{
  b.clear(); rank.clear(); std::size_t i = 0;
  for (auto& t : ts) {
    if (t.k == path_token_kind::static_) { if (p.substr(i, t.v.size()) != t.v) return false; i += t.v.size(); rank.append(t.v.size(), '0'); }
    else if (t.k == path_token_kind::param) { auto e = i; while (e < p.size() && p[e] != '/') ++e; if (e == i) return false; b.emplace_back(t.v, std::string(p.substr(i, e - i))); rank.append(e - i, '1'); i = e; }
    else { b.emplace_back(t.v, std::string(p.substr(i))); rank.append(p.size() - i + 1, '2'); return true; }
  }
  rank += '0'; return i == p.size();
}
