// What the library's own calls of malloc and stdio go through: the objects of
// the library are compiled unchanged, then these symbols are renamed.
#include "core.h"
#include <errno.h>
#include <unistd.h>

thread_local bool allow_direct = false;
IoPlan IO;

static void direct(const char *what) {
	if (in_lib && !allow_direct) violation("the library calls %s itself instead of the client's memory function", what);
}
static ssize_t cookie_write(void *c, const char *buf, size_t n) {
	OutOfLib o;
	IoPlan *p = (IoPlan *)c;
	p->calls++;
	if (p->fail_at >= 0) { // a short count is an error for the streams of the C library
		size_t room = (size_t)p->fail_at > p->written.size() ? (size_t)p->fail_at - p->written.size() : 0;
		if (n > room) { p->errors++; errno = p->err; n = room; if (p->once) p->fail_at = -1; }
		if (n == 0) return 0;
	}
	p->written.append(buf, n);
	return (ssize_t)n;
}
static ssize_t cookie_read(void *c, char *buf, size_t n) {
	OutOfLib o;
	IoPlan *p = (IoPlan *)c;
	p->calls++;
	if (p->short_io && n > 1) n = 1 + p->rng.below(p->rng.chance(.5) ? std::min<size_t>(n, 7) : n);
	if (p->fail_at >= 0) {
		size_t room = (size_t)p->fail_at > p->at ? (size_t)p->fail_at - p->at : 0;
		if (room == 0) { p->errors++; errno = p->err; if (p->once) p->fail_at = -1; return -1; }
		n = std::min(n, room);
	}
	n = std::min(n, p->content.size() - p->at);
	memcpy(buf, p->content.data() + p->at, n);
	p->at += n;
	return (ssize_t)n;
}
static int cookie_close(void *c) {
	IoPlan *p = (IoPlan *)c;
	p->closes++;
	if (p->fail_close) { p->errors++; errno = p->err; return -1; }
	return 0;
}
extern "C" {
void *cyw_malloc(size_t n) { direct("malloc"); return malloc(n); }
void *cyw_calloc(size_t a, size_t b) { direct("calloc"); return calloc(a, b); }
void *cyw_realloc(void *p, size_t n) { direct("realloc"); return realloc(p, n); }
void cyw_free(void *p) { direct("free"); free(p); }
char *cyw_strdup(const char *s) { direct("strdup"); return strdup(s); }
char *cyw_strndup(const char *s, size_t n) { direct("strndup"); return strndup(s, n); }
FILE *cyw_fopen(const char *path, const char *mode) {
	IO.opens++;
	if (!IO.armed) return fopen(path, mode);
	OutOfLib o; // memory of the stream itself is the plan's
	if (IO.fail_open) { IO.errors++; errno = IO.err; return nullptr; }
	cookie_io_functions_t f = {cookie_read, cookie_write, nullptr, cookie_close};
	FILE *fp = fopencookie(&IO, mode, f);
	if (!fp) harness_error("fopencookie failed");
	if (IO.bufsize == 0) setvbuf(fp, nullptr, _IONBF, 0);
	else { if (IO.bufsize < 0) IO.bufsize = BUFSIZ; setvbuf(fp, IO.buffer(), _IOFBF, (size_t)IO.bufsize); }
	return fp;
}
int cyw_fclose(FILE *f) {
	if (!IO.armed) return fclose(f);
	OutOfLib o;
	return fclose(f);
}
}
