// AddressSanitizer glue: a report is a violation of the run.
#include "simkit.h"
#include <cstring>
extern "C" {
void __asan_set_error_report_callback(void (*)(const char *));
const char *__asan_get_report_description();
const char *__asan_default_options() {
  return "allow_user_poisoning=0:detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
         "allocator_may_return_null=1:detect_odr_violation=0:use_sigaltstack=0:symbolize=0:quarantine_size_mb=16:allocator_release_to_os_interval_ms=-1:alloc_dealloc_mismatch=0:malloc_context_size=0:detect_stack_use_after_return=0";
}
}
namespace {
void onErr(const char *) {
  if (!sim::active()) return;
  char c[96] = "memory-error-"; const char *d = __asan_get_report_description(); strncat(c, d ? d : "unknown", 60);
  sim::fail(c, "memory error in the code under test: %s", d ? d : "?");
}
struct Init { Init() { __asan_set_error_report_callback(onErr); } } init;
}
