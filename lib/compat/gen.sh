#!/bin/bash
# gen.sh OUTDIR: writes an include overlay that lets the installed Boost 1.83 stand in for the
# Boost >= 1.85 that fitoria wants.  Put OUTDIR before the system includes (-I).
set -e
O=${1:?out dir}; H=$(cd "$(dirname "$0")" && pwd); B=/usr/include/boost
T=$(mktemp -d "$O.XXXXXX"); 
mkdir -p $T/boost/beast/http/impl $T/boost/asio
# 1. status codes 103 / 425 (added in Boost 1.84)
sed -e 's/^    processing  *= 102,/&\n    early_hints = 103,/' \
    -e 's/^    too_many_requests  *= 429,/    too_early = 425,\n&/' $B/beast/http/status.hpp > $T/boost/beast/http/status.hpp
sed -e 's/^    case status::processing:$/&\n    case status::early_hints:/' \
    -e 's/^    case status::too_many_requests:$/&\n    case status::too_early:/' \
    -e 's/^    case status::processing:  *return.*$/&\n    case status::early_hints: return "Early Hints";/' \
    -e 's/^    case status::too_many_requests:  *return.*$/    case status::too_early: return "Too Early";\n&/' $B/beast/http/impl/status.ipp > $T/boost/beast/http/impl/status.ipp
# 2. overload resolution of beast::http::async_read (asio constrained its own since 1.85)
cp $H/beast_http.hpp $T/boost/beast/http.hpp
# 3. boost::pfr::get_name (added in 1.84)
cp $H/pfr.hpp $T/boost/pfr.hpp
# 4. stream_file without io_uring: a synchronous stand-in whose reads the harness can shorten
for f in basic_file basic_random_access_file random_access_file basic_stream_file; do cp $H/asio_$f.hpp $T/boost/asio/$f.hpp; done
# 5. with VF_POOL, work posted to the system thread pool goes to the harness, which decides when it runs (lib/sched.hpp)
mkdir -p $T/boost/asio/impl
{ printf '#ifdef VF_POOL\nnamespace boost { namespace asio { namespace detail { class scheduler_operation; } } }\nvoid vf_pool_post(boost::asio::detail::scheduler_operation*, void*);\n#define VF_POST(s, op, ...) vf_pool_post(op, &s)\n#else\n#define VF_POST(s, op, ...) s.post_immediate_completion(op, __VA_ARGS__)\n#endif\n'; sed -e 's/^  ctx\.scheduler_\.post_immediate_completion(p\.p, false);/  VF_POST(ctx.scheduler_, p.p, false);/; s/^  ctx\.scheduler_\.post_immediate_completion(p\.p, true);/  VF_POST(ctx.scheduler_, p.p, true);/; s/^  ctx\.scheduler_\.post_immediate_completion(p\.p,$/  VF_POST(ctx.scheduler_, p.p,/' $B/asio/impl/system_executor.hpp; } > $T/boost/asio/impl/system_executor.hpp
sed -e 's/^  threads_\.create_threads(f, num_threads_);/#ifndef VF_POOL\n&\n#endif/' $B/asio/impl/system_context.ipp > $T/boost/asio/impl/system_context.ipp
if [ -d "$O" ]; then rm -rf "$O.old"; mv -T "$O" "$O.old"; fi
mv -T $T "$O" ; rm -rf "$O.old"
