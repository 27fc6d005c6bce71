// zlib is not instrumented: what it wrote is initialised.
#include <sanitizer/msan_interface.h>
#include <zlib.h>
extern "C" int __real_gzread(gzFile f, void *p, unsigned n);
extern "C" int __wrap_gzread(gzFile f, void *p, unsigned n) {
  const int r = __real_gzread(f, p, n);
  if (r > 0)
    __msan_unpoison(p, static_cast<size_t>(r));
  return r;
}
