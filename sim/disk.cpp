// simulated disk: fopen (and friends) while inside the system under test
#include "core.h"

#include <cerrno>
#include <cstring>
#include <map>

namespace sim {
namespace disk {

Faults f;
bool insensitive;

std::string key(const std::string &path) {
  if (!insensitive) {
    return path;
  }
  std::string o = path;
  for (auto &c : o) {
    c = c == '\\' ? '/' : char(tolower(c));
  }
  return o;
}

static std::map<std::string, File> *g_files;
static std::vector<std::string> *g_opened;
static int g_handles, g_opens;
static std::vector<std::pair<void *, FILE *>> g_streams; // open ones

std::map<std::string, File> &files() {
  Host h;
  if (!g_files) {
    g_files = new std::map<std::string, File>();
  }
  return *g_files;
}

static std::vector<std::string> &opened_() {
  Host h;
  if (!g_opened) {
    g_opened = new std::vector<std::string>();
  }
  return *g_opened;
}

void clear() {
  files().clear();
  opened_().clear();
  g_opens = 0;
  f = Faults();
  insensitive = false;
}

void flush_all() {
  auto all = g_streams;
  for (auto &s : all) {
    fflush(s.second);
  }
}
int open_handles() { return g_handles; }
int opens() { return g_opens; }
const std::vector<std::string> &opened() { return opened_(); }

struct Handle {
  std::string path;
  std::string pending; // bytes not yet on the device
  size_t pos;
  bool write, read, append;
  Rng rng{1};
  std::vector<char> buf;
};

static ssize_t on_read(void *c, char *buf, size_t n) {
  Host host;
  Handle *h = (Handle *)c;
  steps(1);
  if (!h->read) {
    errno = EBADF;
    return -1;
  }
  auto it = files().find(h->path);
  if (it == files().end()) {
    return 0;
  }
  if (it->second.dir) {
    errno = EISDIR;
    return -1;
  }
  const std::string &d = it->second.data;
  size_t left = h->pos < d.size() ? d.size() - h->pos : 0;
  size_t give = n < left ? n : left;
  if (f.chunk && give > 0) {
    size_t lim = f.chunk_random ? 1 + h->rng.below(f.chunk) : f.chunk;
    if (give > lim) {
      give = lim;
      ++f.fired_short;
      fault("short_read");
    }
  }
  if (f.read_fail_at >= 0) {
    if (h->pos >= size_t(f.read_fail_at)) {
      ++f.fired_read;
      fault("read_error");
      errno = f.read_errno;
      if (f.read_transient) {
        f.read_fail_at = -1;
      }
      return -1;
    }
    if (h->pos + give > size_t(f.read_fail_at)) {
      give = size_t(f.read_fail_at) - h->pos;
    }
  }
  memcpy(buf, d.data() + h->pos, give);
  h->pos += give;
  return ssize_t(give);
}

static ssize_t on_write(void *c, const char *buf, size_t n) {
  Host host;
  Handle *h = (Handle *)c;
  steps(1);
  if (!h->write) {
    errno = EBADF;
    return 0;
  }
  File &file = files()[h->path];
  size_t take = n;
  bool failed = false;
  if (f.write_fail_at >= 0) {
    if (h->pos + n > size_t(f.write_fail_at)) {
      take = size_t(f.write_fail_at) > h->pos ? size_t(f.write_fail_at) - h->pos : 0;
      failed = true;
    }
  }
  if (h->append) {
    h->pos = file.data.size();
  }
  if (file.data.size() < h->pos + take) {
    file.data.resize(h->pos + take);
  }
  memcpy(&file.data[h->pos], buf, take);
  h->pos += take;
  if (failed) {
    ++f.fired_write;
    fault(take ? "torn_write" : (f.write_errno == ENOSPC ? "disk_full" : "write_error"));
    errno = f.write_errno;
    if (f.write_transient) {
      f.write_fail_at = -1;
    }
    // glibc treats a short count as an error
    return ssize_t(take);
  }
  return ssize_t(n);
}

static int on_seek(void *c, off64_t *off, int whence) {
  Host host;
  Handle *h = (Handle *)c;
  auto it = files().find(h->path);
  const off64_t size = it == files().end() ? 0 : off64_t(it->second.data.size());
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off64_t(h->pos) : size;
  if (it != files().end() && it->second.dir && whence == SEEK_END) {
    base = INT64_MAX;
  }
  if (base + *off < 0) {
    errno = EINVAL;
    return -1;
  }
  h->pos = size_t(base + *off);
  *off = off64_t(h->pos);
  return 0;
}

static int on_close(void *c) {
  Host host;
  Handle *h = (Handle *)c;
  steps(1);
  --g_handles;
  for (size_t i = 0; i < g_streams.size(); ++i) {
    if (g_streams[i].first == c) {
      g_streams.erase(g_streams.begin() + long(i));
      break;
    }
  }
  int rc = 0;
  if (h->write && f.close_fail) {
    ++f.fired_close;
    fault("close_error");
    if (f.lose_on_close) {
      File &file = files()[h->path];
      file.data.resize(file.data.size() / 2);
    }
    errno = EIO;
    rc = -1;
  }
  delete h;
  return rc;
}

static FILE *open_imp(const char *name, const char *mode) {
  const std::string path = key(name);
  ++g_opens;
  steps(1);
  opened_().push_back(name);
  if (f.open_fail_at >= 0) {
    if (f.open_fail_at-- == 0) {
      ++f.fired_open;
      fault("open_error");
      errno = f.open_errno;
      return nullptr;
    }
  }
  const bool w = strchr(mode, 'w') != nullptr;
  const bool a = strchr(mode, 'a') != nullptr;
  const bool plus = strchr(mode, '+') != nullptr;
  auto it = files().find(path);
  if (it != files().end() && it->second.unreadable) {
    errno = EACCES;
    return nullptr;
  }
  if (w || a) {
    if (it != files().end() && it->second.dir) {
      errno = EISDIR;
      return nullptr;
    }
    File &file = files()[path];
    if (w) {
      file.data.clear();
    }
  } else if (it == files().end()) {
    errno = ENOENT;
    return nullptr;
  }
  Handle *h = new Handle;
  h->path = path;
  h->pos = 0;
  h->write = w || a || plus;
  h->read = !(w || a) || plus;
  h->append = a;
  h->rng = Rng(f.chunk_seed + uint64_t(g_opens));
  cookie_io_functions_t io;
  io.read = on_read;
  io.write = on_write;
  io.seek = on_seek;
  io.close = on_close;
  FILE *fd = fopencookie(h, mode, io);
  if (!fd) {
    delete h;
    return nullptr;
  }
  ++g_handles;
  g_streams.push_back({h, fd});
  if (f.bufsize == 0) {
    setvbuf(fd, nullptr, _IONBF, 0);
  } else if (f.bufsize > 0) {
    h->buf.resize(size_t(f.bufsize));
    setvbuf(fd, h->buf.data(), _IOFBF, h->buf.size());
  }
  return fd;
}

} // namespace disk
} // namespace sim

extern "C" {
FILE *__real_fopen(const char *path, const char *mode);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!sim::g_sut) {
    return __real_fopen(path, mode);
  }
  sim::Host h;
  return sim::disk::open_imp(path, mode);
}
FILE *__real_fopen64(const char *path, const char *mode);
FILE *__wrap_fopen64(const char *path, const char *mode) {
  if (!sim::g_sut) {
    return __real_fopen64(path, mode);
  }
  sim::Host h;
  return sim::disk::open_imp(path, mode);
}
int __real_remove(const char *path);
int __wrap_remove(const char *path) {
  if (!sim::g_sut) {
    return __real_remove(path);
  }
  sim::Host h;
  sim::steps(1);
  if (sim::disk::files().erase(sim::disk::key(path))) {
    return 0;
  }
  errno = ENOENT;
  return -1;
}
int __real_unlink(const char *path);
int __wrap_unlink(const char *path) { return sim::g_sut ? __wrap_remove(path) : __real_unlink(path); }
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) {
  if (!sim::g_sut) {
    return __real_rename(a, b);
  }
  sim::Host h;
  sim::steps(1);
  auto &fs = sim::disk::files();
  auto it = fs.find(sim::disk::key(a));
  if (it == fs.end()) {
    errno = ENOENT;
    return -1;
  }
  sim::disk::File f = it->second;
  fs.erase(it);
  fs[sim::disk::key(b)] = f;
  return 0;
}
}
