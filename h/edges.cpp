// Counter behind -fsanitize-coverage=trace-pc-guard; not instrumented itself.
#include <cstdint>
namespace pcv{std::uint64_t edges;}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* b,std::uint32_t* e)
{for(;b!=e;++b)if(!*b)*b=1;}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t*){++pcv::edges;}
