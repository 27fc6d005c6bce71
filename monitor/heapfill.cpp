// Fills new heap objects with the byte given in VP_HEAP, so that a value read
// before it was written differs between runs.
#include <cstdlib>
#include <cstring>
#include <new>

namespace {
int fill() {
  static int v = -2;
  if (v == -2) {
    const char *s = std::getenv("VP_HEAP");
    v = s ? std::atoi(s) & 0xff : -1;
  }
  return v;
}
void *get(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (fill() >= 0)
    std::memset(p, fill(), n);
  return p;
}
void *get(std::size_t n, std::align_val_t a) {
  const std::size_t al = static_cast<std::size_t>(a);
  void *p = std::aligned_alloc(al, (n + al - 1) / al * al);
  if (!p)
    throw std::bad_alloc();
  if (fill() >= 0)
    std::memset(p, fill(), n);
  return p;
}
} // namespace

void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, std::align_val_t a) { return get(n, a); }
void *operator new[](std::size_t n, std::align_val_t a) { return get(n, a); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
