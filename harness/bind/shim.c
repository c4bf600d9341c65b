// Preloaded into the interpreters.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

// PHP loads extensions with RTLD_DEEPBIND, which AddressSanitizer refuses.
void * dlopen(const char * name, int flags)
{
  void * (*next)(const char *, int) = (void * (*)(const char *, int))dlsym(RTLD_NEXT, "dlopen");
  return next(name, flags & ~RTLD_DEEPBIND);
}

// Reading /live-bytes yields the number of bytes that are allocated.
static int live(const char * path)
{
  if( !path || strcmp(path, "/live-bytes") != 0 ) return -1;
  size_t (*bytes)(void) = (size_t (*)(void))dlsym(RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes");
  int fd = bytes ? memfd_create("live", 0) : -1;
  if( fd < 0 ) return -1;
  dprintf(fd, "%zu\n", bytes());
  lseek(fd, 0, SEEK_SET);
  return fd;
}

#define OPEN(name) \
int name(const char * path, int flags, ...) \
{ \
  va_list a; va_start(a, flags); mode_t mode = va_arg(a, mode_t); va_end(a); \
  int fd = live(path); \
  if( fd >= 0 ) return fd; \
  return ((int (*)(const char *, int, mode_t))dlsym(RTLD_NEXT, #name))(path, flags, mode); \
}
#define OPENAT(name) \
int name(int at, const char * path, int flags, ...) \
{ \
  va_list a; va_start(a, flags); mode_t mode = va_arg(a, mode_t); va_end(a); \
  int fd = live(path); \
  if( fd >= 0 ) return fd; \
  return ((int (*)(int, const char *, int, mode_t))dlsym(RTLD_NEXT, #name))(at, path, flags, mode); \
}
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
