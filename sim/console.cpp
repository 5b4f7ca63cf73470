#include "console.h"
#include <cerrno>
#include <csetjmp>
#include <cstring>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <unistd.h>

namespace console {

using namespace sim;

In in;
Out out, err;
void (*on_read)();

static jmp_buf g_end;
static bool g_active;
static Result g_result;
static bool g_flush;
static Rng g_rng(1);

void reset() {
  in = In();
  out = Out();
  err = Out();
  on_read = nullptr;
}

static ssize_t read_some(char *buf, size_t n) {
  Host h;
  steps(1);
  ++in.reads;
  if (on_read) {
    on_read();
  }
  size_t left = in.data.size() - in.pos;
  size_t give = n < left ? n : left;
  if (in.chunk && give > 0) {
    const size_t lim = 1 + g_rng.below(in.chunk);
    if (give > lim) {
      give = lim;
      fault("short_read");
    }
  }
  if (in.fail_at >= 0) {
    if (in.pos >= size_t(in.fail_at)) {
      fault("read_error");
      errno = EIO;
      return -1;
    }
    if (in.pos + give > size_t(in.fail_at)) {
      give = size_t(in.fail_at) - in.pos;
    }
  }
  memcpy(buf, in.data.data() + in.pos, give);
  in.pos += give;
  return ssize_t(give);
}

static ssize_t on_in(void *, char *buf, size_t n) { return read_some(buf, n); }

static ssize_t on_out(void *c, const char *buf, size_t n) {
  Host h;
  steps(1);
  Out *o = (Out *)c;
  if (o->data.size() + n > (64u << 20)) {
    give_up("too much output");
  }
  o->data.append(buf, n);
  return ssize_t(n);
}

Result run(int (*entry)(int, char **), const std::vector<std::string> &args) {
  static char inbuf[1 << 16], outbuf[1 << 16];
  FILE *real_in = stdin, *real_out = stdout, *real_err = stderr;
  cookie_io_functions_t io;
  memset(&io, 0, sizeof(io));
  io.read = on_in;
  FILE *fin = fopencookie(nullptr, "r", io);
  memset(&io, 0, sizeof(io));
  io.write = on_out;
  FILE *fout = fopencookie(&out, "w", io);
  FILE *ferr = fopencookie(&err, "w", io);
  g_rng = Rng(in.seed);
  if (in.bufsize == 0) {
    setvbuf(fin, nullptr, _IONBF, 0);
  } else if (in.bufsize > 0) {
    setvbuf(fin, inbuf, _IOFBF, size_t(in.bufsize));
  }
  if (out.bufsize == 0) {
    setvbuf(fout, nullptr, _IONBF, 0);
  } else if (out.bufsize > 0) {
    setvbuf(fout, outbuf, _IOFBF, size_t(out.bufsize));
  } else {
    setvbuf(fout, outbuf, _IOLBF, sizeof(outbuf));
  }
  setvbuf(ferr, nullptr, _IONBF, 0);
  static std::vector<std::string> hold;
  hold = args;
  static std::vector<char *> argv;
  argv.clear();
  for (auto &s : hold) {
    argv.push_back(&s[0]);
  }
  argv.push_back(nullptr);
  stdin = fin;
  stdout = fout;
  stderr = ferr;
  // C++ streams follow
  static __gnu_cxx::stdio_sync_filebuf<char> *cin_buf, *cout_buf, *cerr_buf;
  cin_buf = new __gnu_cxx::stdio_sync_filebuf<char>(fin);
  cout_buf = new __gnu_cxx::stdio_sync_filebuf<char>(fout);
  cerr_buf = new __gnu_cxx::stdio_sync_filebuf<char>(ferr);
  auto *o0 = std::cin.rdbuf(cin_buf);
  auto *o1 = std::cout.rdbuf(cout_buf);
  auto *o2 = std::cerr.rdbuf(cerr_buf);
  g_result = Result();
  g_active = true;
  g_flush = true;
  const int saved = g_sut;
  if (setjmp(g_end) == 0) {
    Sut s;
    const int rc = entry(int(args.size()), argv.data());
    g_result.status = rc;
  }
  g_sut = saved;
  g_active = false;
  if (g_flush) {
    fflush(fout);
    disk::flush_all();
  }
  stdin = real_in;
  stdout = real_out;
  stderr = real_err;
  std::cin.rdbuf(o0);
  std::cout.rdbuf(o1);
  std::cerr.rdbuf(o2);
  g_result.status &= 255;
  return g_result;
}

[[noreturn]] static void leave(int status, bool flush) {
  g_sut = 0;
  g_result.exited = true;
  g_result.status = status;
  g_flush = flush;
  longjmp(g_end, 1);
}

} // namespace console

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status) __attribute__((noreturn));
void __wrap_exit(int status) {
  if (console::g_active) {
    console::leave(status, true);
  }
  __real_exit(status);
}
ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __wrap_read(int fd, void *buf, size_t n) {
  if (console::g_active && sim::g_sut && fd == 0) {
    return console::read_some((char *)buf, n);
  }
  return __real_read(fd, buf, n);
}
ssize_t __real_write(int fd, const void *buf, size_t n);
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
  if (console::g_active && sim::g_sut && (fd == 1 || fd == 2)) {
    return console::on_out(fd == 1 ? &console::out : &console::err, (const char *)buf, n);
  }
  return __real_write(fd, buf, n);
}
}
