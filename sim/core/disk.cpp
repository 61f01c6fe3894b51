// Interposes the C library's file calls for paths below /simdisk/.
#include "../disk.hpp"

#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::disk {
namespace {
struct File {
  std::string path;
  bool writing = false;
  std::size_t pos = 0;
  FILE* f = nullptr;
};
std::map<int, File>& fds() {
  static auto* m = new std::map<int, File>();
  return *m;
}
std::map<std::string, std::string>& files() {
  static auto* m = new std::map<std::string, std::string>();
  return *m;
}
Spec spec;
bool hit = false;
bool failedOnce = false;
u64 ncalls = 0;
u64 rnd = 0;
bool active = false;
u64 draw(u64 n) {
  rnd = mix(rnd);
  return n == 0 ? 0 : rnd % n;
}

// how many of `n` bytes the device transfers at `pos`; -1: errno is set
ssize_t device(std::size_t pos, std::size_t n, bool write) {
  ncalls++;
  if (n == 0) {
    return 0;
  }
  switch (spec.kind) {
  case SHORT: {
    const auto k = draw(4);
    return static_cast<ssize_t>(k == 0 ? 1 : k == 1 ? n : 1 + draw(n));
  }
  case INTR:
    if (draw(2) == 0) {
      errno = EINTR;
      return -1;
    }
    return static_cast<ssize_t>(1 + draw(n));
  case FAIL_AT:
    if (pos >= spec.at) {
      hit = true;
      errno = write ? ENOSPC : EIO;
      return -1;
    }
    return static_cast<ssize_t>(std::min<std::size_t>(n, spec.at - pos));
  case FAIL_ONCE:
    if (failedOnce) {
      return static_cast<ssize_t>(n);
    }
    if (pos >= spec.at) {
      failedOnce = true;
      hit = true;
      errno = EIO;
      return -1;
    }
    return static_cast<ssize_t>(std::min<std::size_t>(n, spec.at - pos));
  default:
    return static_cast<ssize_t>(n);
  }
}
} // namespace

void reset() {
  NoFault nf;
  files().clear();
  fds().clear();
  spec = Spec{};
  hit = false;
  active = true;
}
void set(const Spec& s) {
  spec = s;
  hit = false;
  failedOnce = false;
  ncalls = 0;
  rnd = mix(s.seed ^ 0xd15c);
}
bool fired() { return hit; }
u64 calls() { return ncalls; }
u64 openFiles() { return fds().size(); }
bool exists(const std::string& p) { return files().count(p) != 0; }
std::string content(const std::string& p) { return files()[p]; }
void put(const std::string& p, const std::string& c) { files()[p] = c; }

namespace {
FILE* openSim(const char* path, const char* mode) {
  NoFault nf;
  const bool w = mode[0] == 'w';
  if (spec.kind == OPEN_ERR) {
    hit = true;
    errno = w ? EACCES : EIO;
    return nullptr;
  }
  if (!w && mode[0] != 'r') {
    errno = EINVAL;
    return nullptr;
  }
  if (!w && files().count(path) == 0) {
    errno = ENOENT;
    return nullptr;
  }
  const int fd = ::open("/dev/null", O_RDWR);
  if (fd < 0) {
    return nullptr;
  }
  FILE* f = fdopen(fd, mode);
  fds()[fd] = File{path, w, 0, f};
  if (w) {
    files()[path].clear();
  }
  return f;
}
template <class F> F real(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
bool isSim(const char* p) {
  return active && p != nullptr && strncmp(p, "/simdisk/", 9) == 0;
}
ssize_t doWrite(File& f, const char* b, std::size_t n) {
  NoFault nf;
  const auto k = device(f.pos, n, true);
  if (k > 0) {
    auto& c = files()[f.path];
    if (c.size() < f.pos) {
      c.resize(f.pos);
    }
    c.replace(f.pos, static_cast<std::size_t>(k), b,
              static_cast<std::size_t>(k));
    f.pos += static_cast<std::size_t>(k);
  }
  return k;
}
} // namespace
} // namespace sim::disk

using sim::disk::fds;
extern "C" {
FILE* fopen(const char* path, const char* mode) {
  if (sim::disk::isSim(path)) {
    return sim::disk::openSim(path, mode);
  }
  static auto r =
      sim::disk::real<FILE* (*)(const char*, const char*)>("fopen");
  return r(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fclose(FILE* f) {
  static auto r = sim::disk::real<int (*)(FILE*)>("fclose");
  if (sim::disk::active) {
    const int fd = fileno(f);
    const auto it = fds().find(fd);
    if (it != fds().end() && it->second.f == f) {
      sim::NoFault nf;
      const auto file = it->second;
      fds().erase(it);
      r(f);
      if (sim::disk::spec.kind == sim::disk::CLOSE_ERR) {
        sim::disk::hit = true;
        if (file.writing) {
          auto& c = sim::disk::files()[file.path];
          c.resize(sim::disk::draw(c.size() + 1));
        }
        errno = EIO;
        return EOF;
      }
      return 0;
    }
  }
  return r(f);
}
ssize_t read(int fd, void* b, std::size_t n) {
  static auto r = sim::disk::real<ssize_t (*)(int, void*, std::size_t)>("read");
  if (sim::disk::active) {
    const auto it = fds().find(fd);
    if (it != fds().end()) {
      sim::NoFault nf;
      auto& f = it->second;
      const auto& c = sim::disk::files()[f.path];
      const auto left = c.size() > f.pos ? c.size() - f.pos : 0;
      // an error may also hit the read that would have reported the end
      const auto want = std::min(n, left);
      ssize_t k = 0;
      if (want == 0) {
        const auto kd = sim::disk::spec.kind;
        if (kd == sim::disk::FAIL_AT || kd == sim::disk::FAIL_ONCE ||
            kd == sim::disk::INTR) {
          k = sim::disk::device(f.pos, 1, false);
          if (k > 0) {
            k = 0;
          }
        }
      } else {
        k = sim::disk::device(f.pos, want, false);
      }
      if (k > 0) {
        memcpy(b, c.data() + f.pos, static_cast<std::size_t>(k));
        f.pos += static_cast<std::size_t>(k);
      }
      return k;
    }
  }
  return r(fd, b, n);
}
ssize_t write(int fd, const void* b, std::size_t n) {
  static auto r =
      sim::disk::real<ssize_t (*)(int, const void*, std::size_t)>("write");
  if (sim::disk::active) {
    const auto it = fds().find(fd);
    if (it != fds().end()) {
      return sim::disk::doWrite(it->second, static_cast<const char*>(b), n);
    }
  }
  return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  static auto r =
      sim::disk::real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (sim::disk::active) {
    const auto it = fds().find(fd);
    if (it != fds().end()) {
      ssize_t tot = 0;
      for (int i = 0; i < cnt; i++) {
        if (v[i].iov_len == 0) {
          continue;
        }
        const auto k = sim::disk::doWrite(
            it->second, static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        if (k < 0) {
          return tot > 0 ? tot : k;
        }
        tot += k;
        if (static_cast<std::size_t>(k) < v[i].iov_len) {
          break;
        }
      }
      return tot;
    }
  }
  return r(fd, v, cnt);
}
off_t lseek(int fd, off_t o, int wh) {
  static auto r = sim::disk::real<off_t (*)(int, off_t, int)>("lseek");
  if (sim::disk::active) {
    const auto it = fds().find(fd);
    if (it != fds().end()) {
      auto& f = it->second;
      const auto sz = static_cast<off_t>(sim::disk::files()[f.path].size());
      const off_t base =
          wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<off_t>(f.pos) : sz;
      if (base + o < 0) {
        errno = EINVAL;
        return -1;
      }
      f.pos = static_cast<std::size_t>(base + o);
      return base + o;
    }
  }
  return r(fd, o, wh);
}
off_t lseek64(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
}
