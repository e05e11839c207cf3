// Linked into the vcdiff tool under test (ld --wrap=fopen): the stream opened on one chosen file goes through a
// cookie that can fail a read, a write or the final close, or can show changed contents.  Environment:
//   VF_PATH file; VF_OPEN which opening of it counts (1 = first); VF_KIND read|write|close|flip|more|less; VF_AT byte
//   position; VF_ONCE 1: the fault happens once and later operations work; VF_MARK file created when the fault happens
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
FILE* __real_fopen(const char*, const char*);
struct C { int fd; off_t pos, at, size; int kind, once, hit; };
static void mark(struct C* c) { const char* m = getenv("VF_MARK"); int f = m ? open(m, O_CREAT | O_WRONLY, 0600) : -1; if (f >= 0) close(f); c->hit = 1; }
static ssize_t rd(void* v, char* b, size_t n) {
  struct C* c = (struct C*)v;
  if (c->kind == 'r' && (!c->once || !c->hit)) { if (c->pos + (off_t)n > c->at) { if (c->pos >= c->at) { mark(c); errno = EIO; return -1; } n = c->at - c->pos; } }
  if (c->kind == 'l') { off_t e = c->size - 1; if (e < 0) e = 0; if (c->pos + (off_t)n > e) n = e - c->pos; if (c->pos >= e) { if (c->size) mark(c); return 0; } }
  ssize_t k = pread(c->fd, b, n, c->pos);
  if (c->kind == 'm' && k == 0 && n > 0 && c->pos == c->size) { b[0] = 'x'; k = 1; mark(c); }
  if (c->kind == 'f' && k > 0 && c->at >= c->pos && c->at < c->pos + k) { b[c->at - c->pos] ^= 1; mark(c); }
  if (k > 0) c->pos += k;
  return k;
}
static ssize_t wr(void* v, const char* b, size_t n) {
  struct C* c = (struct C*)v;
  if (c->kind == 'w' && (!c->once || !c->hit) && c->pos + (off_t)n > c->at) { mark(c); errno = ENOSPC; return 0; }
  ssize_t k = pwrite(c->fd, b, n, c->pos); if (k > 0) c->pos += k; return k < 0 ? 0 : k;
}
static int sk(void* v, off64_t* o, int w) {
  struct C* c = (struct C*)v; off_t e = c->size; if (c->kind == 'm') e += 1; if (c->kind == 'l') e -= e > 0;
  off_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? c->pos + *o : e + *o; if (p < 0) return -1; c->pos = p; *o = p; return 0;
}
static int cl(void* v) { struct C* c = (struct C*)v; int r = close(c->fd); if (c->kind == 'c') { mark(c); errno = EIO; r = -1; } free(c); return r; }
FILE* __wrap_fopen(const char* path, const char* mode) {
  static int seen; const char* p = getenv("VF_PATH"); const char* k = getenv("VF_KIND"); const char* o = getenv("VF_OPEN");
  if (!p || !k || !o || strcmp(p, path) || ++seen != atoi(o)) return __real_fopen(path, mode);
  int fd = open(path, mode[0] == 'r' ? O_RDONLY : (O_WRONLY | O_CREAT | O_TRUNC), 0600); if (fd < 0) return 0;
  struct C* c = (struct C*)calloc(1, sizeof *c); c->fd = fd; c->kind = k[0]; c->at = getenv("VF_AT") ? atol(getenv("VF_AT")) : 0; c->once = getenv("VF_ONCE") != 0; c->size = lseek(fd, 0, SEEK_END);
  cookie_io_functions_t f = { rd, wr, sk, cl };
  return fopencookie(c, mode, f);
}
