#!/bin/bash
# Development aid: builds and runs those of the repository's own tests that the official build leaves out,
# against the compatibility overlay.  boosttests.sh REPO OUTDIR [name-pattern]
R=${1:-/repo}; O=${2:-/tmp/bt}; PAT=${3:-.}; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $O/stub/boost/scope; cat > $O/stub/boost/scope/scope_exit.hpp <<'X'
#pragma once
namespace boost { namespace scope { template <class F> struct scope_exit { F f; bool on = true; explicit scope_exit(F g) : f(std::move(g)) {} scope_exit(const scope_exit&) = delete; ~scope_exit() { if (on) f(); } void set_active(bool b) { on = b; } }; template <class F> scope_exit(F) -> scope_exit<F>; template <class F> auto make_scope_exit(F f) { return scope_exit<F>(std::move(f)); } } }
X
[ -d $V/build/overlay ] || bash $V/lib/compat/gen.sh $V/build/overlay
DT=$(find / -name doctest.h -not -path "/proc/*" 2>/dev/null | head -1)
ls $R/test/*/test_*.cpp $R/test/*/*/test_*.cpp | grep -E "$PAT" | xargs -P 8 -I{} bash -c '
n=$(basename {} .cpp)
if clang++ -std=c++20 -O0 -w -isystem '$V'/build/overlay -DBOOST_ASIO_HAS_FILE=1 -isystem '$O'/stub -I'$R'/include -I'$R'/test/include -I$(dirname {}) -I'$(dirname $(dirname $DT))' -I'$(dirname $DT)' -DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB -DFITORIA_HAS_BROTLI {} -o '$O'/$n -lfmt -lz -lbrotlidec -lbrotlienc -lbrotlicommon -lboost_url -lboost_json -lboost_regex -lpthread -lssl -lcrypto > '$O'/$n.log 2>&1; then
 cd '$O'; timeout 120 ./$n > $n.out 2>&1; echo "$n rc=$? $(grep -a "test cases" $n.out)"; else echo "$n NOBUILD $(grep -a -m1 error: '$O'/$n.log | cut -c1-200)"; fi'
