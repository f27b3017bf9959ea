// Records which basic blocks of instrumented code ran (tools/coverage.py).
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
static uint8_t* g_map;
static const size_t SIZE = 64 << 20;
__attribute__((constructor(101))) static void start() {
  const char* f = getenv("SIM_COV_FILE");
  if (!f) return;
  int fd = (int)syscall(SYS_open, f, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || syscall(SYS_ftruncate, fd, SIZE)) return;
  void* p = (void*)syscall(SYS_mmap, nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (p != MAP_FAILED) g_map = (uint8_t*)p;
}
extern "C" void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - 0x400000;
  if (g_map && pc < SIZE) g_map[pc] = 1;
}
