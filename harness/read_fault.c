/* Preloaded into the program under test (C21): read() hands out data in small pieces, is interrupted now and then, and
   fails with EIO once a given number of bytes has been delivered. The file named by VF_MARK appears when it fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/types.h>
#include <unistd.h>

static long number (char const* name) {
  char const* const s = getenv (name);
  return s ? atol (s) : -1;
}

ssize_t read (int fd, void* buf, size_t size) {
  static ssize_t (*real) (int, void*, size_t);
  static long fail_at, chunk, interrupt, delivered, calls;
  if (!real) {
    real = (ssize_t (*) (int, void*, size_t)) dlsym (RTLD_NEXT, "read");
    fail_at = number ("VF_FAIL_AT");
    chunk = number ("VF_CHUNK");
    interrupt = number ("VF_EINTR");
  }
  ++calls;
  if (interrupt > 0 && calls % interrupt == 0) {
    errno = EINTR;
    return -1;
  }
  if (fail_at >= 0 && delivered >= fail_at) {
    char const* const mark = getenv ("VF_MARK");
    if (mark) {
      int const m = open (mark, O_WRONLY | O_CREAT, 0600);
      if (m >= 0) {
        close (m);
      }
    }
    errno = EIO;
    return -1;
  }
  if (chunk > 0 && size > (size_t)chunk) {
    size = (size_t)chunk;
  }
  if (fail_at >= 0 && size > (size_t)(fail_at - delivered)) {
    size = (size_t)(fail_at - delivered);
  }
  {
    ssize_t const n = real (fd, buf, size);
    if (n > 0) {
      delivered += n;
    }
    return n;
  }
}
