#pragma once
#include <unistd.h>

#include <atomic>
#include <cstdint>

// Storage operations are counted, and a chosen one ends the process instead,
// as a kill between any two of them would. (Not under TSan, whose own
// wrappers carry its view of these calls.)
#if !defined(__SANITIZE_THREAD__)
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
namespace {
std::atomic<bool> g_storage_on{false};
std::atomic<uint64_t> g_storage_ops{0};
std::atomic<uint64_t> g_storage_end{~0ull};
void StorageOp() {
  if (g_storage_on.load() && g_storage_ops++ == g_storage_end.load()) _exit(77);
}
}  // namespace
extern "C" {
ssize_t write(int fd, const void* p, size_t n) { if (fd > 2) StorageOp(); return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (fd > 2) StorageOp(); return syscall(SYS_writev, fd, v, n); }
int rename(const char* a, const char* b) { StorageOp(); return syscall(SYS_rename, a, b); }
int unlink(const char* a) { StorageOp(); return syscall(SYS_unlink, a); }
int unlinkat(int d, const char* a, int f) { StorageOp(); return syscall(SYS_unlinkat, d, a, f); }
}
#else
namespace { std::atomic<bool> g_storage_on{false}; std::atomic<uint64_t> g_storage_ops{0}, g_storage_end{~0ull}; }
#endif
