#include "core.h"
#ifdef HAVE_VALGRIND
#include <valgrind/memcheck.h>
#define MAKE_UNDEFINED(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#else
#define MAKE_UNDEFINED(p, n) ((void)0)
#endif
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#ifdef HAVE_ASAN // the engine itself is not instrumented
#undef ASAN_POISON_MEMORY_REGION
#undef ASAN_UNPOISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(p, n) __asan_poison_memory_region((p), (n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) __asan_unpoison_memory_region((p), (n))
#endif

Stats ST;
Run RUN;
thread_local int in_lib;
thread_local long lib_mallocs, lib_frees;

string sfmt(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char *p = nullptr;
	int n = vasprintf(&p, fmt, ap);
	va_end(ap);
	string s(p, n < 0 ? 0 : (size_t)n);
	free(p);
	return s;
}
string esc(const string &s, size_t max) {
	string o;
	for (size_t i = 0; i < s.size(); i++) {
		if (o.size() > max) { o += sfmt("...(%zu bytes)", s.size()); break; }
		unsigned char c = (unsigned char)s[i];
		if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c == '\\') o += "\\\\";
		else if (c == '"') o += "\\\"";
		else if (c < 32 || c >= 127) o += sfmt("\\x%02x", c);
		else o += (char)c;
	}
	return o;
}

static void report(const char *kind, const string &msg) {
	in_lib = 0;
	fflush(stdout);
	// The first line identifies the violation; the rest describes the case.
	printf("%s %s\n", kind, esc(msg, 6000).c_str());
	printf("CASE mode=%s seed=%llu case=%llu\n", RUN.mode.c_str(),
		(unsigned long long)RUN.seed, (unsigned long long)RUN.cur);
	if (RUN.context.empty() && RUN.lazy) RUN.context = RUN.lazy();
	if (!RUN.context.empty()) printf("%s\n", RUN.context.c_str());
	fflush(stdout);
}
void violation(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char *p = nullptr;
	if (vasprintf(&p, fmt, ap) < 0) p = strdup(fmt);
	va_end(ap);
	report("ENGINE-VIOLATION", p);
	_exit(11);
}
void harness_error(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char *p = nullptr;
	if (vasprintf(&p, fmt, ap) < 0) p = strdup(fmt);
	va_end(ap);
	report("ENGINE-ERROR", p);
	_exit(12);
}

#ifdef HAVE_ASAN
static void malloc_hook(const volatile void *p, size_t n) { (void)n; if (in_lib && p) lib_mallocs++; }
static void free_hook(const volatile void *p) { if (in_lib && p) lib_frees++; }
#endif
void install_hooks() {
#ifdef HAVE_ASAN
	static bool done;
	if (!done) __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
	done = true;
#endif
}
int fd_probe() {
	OutOfLib o;
	int fd = open("/dev/null", O_RDONLY);
	if (fd >= 0) close(fd);
	return fd;
}

// ------------------------------------------------------------ allocator
static size_t pool_class(size_t n) { size_t c = 32; while (c < n) c *= 2; return c; }
void *Alloc::fn(void *ctx, void *ptr, size_t size) {
	OutOfLib o;
	Alloc *a = (Alloc *)ctx;
	if (a == nullptr || a->magic != 0xa110c8ed)
		violation("memory function called with a context that is not the configured one");
	size_t old = 0;
	if (ptr != nullptr) {
		auto it = a->live.find(ptr);
		if (it == a->live.end()) {
			violation("memory function called with a pointer that is not a live block (size %zu)", size);
		}
		old = it->second;
	}
	if (size == 0) {
		if (ptr != nullptr) {
			a->frees++;
			a->live.erase(ptr);
			a->bytes -= old;
			a->drop(ptr, old);
		}
		return nullptr;
	}
	if (size > ((size_t)1 << 32) || a->bytes + size > ((size_t)3 << 30)) { a->note(sfmt("absurd request for %zu bytes", size)); return nullptr; }
	uint64_t n = a->reqs++;
	if (a->fail_at >= 0 && ((int64_t)n == a->fail_at || (a->fail_after && (int64_t)n >= a->fail_at))) {
		a->injected++;
		return nullptr;
	}
	if (a->pool && ptr && pool_class(old) == pool_class(size)) {
		ASAN_UNPOISON_MEMORY_REGION(ptr, size);
		ASAN_POISON_MEMORY_REGION((char *)ptr + size, pool_class(size) - size);
		a->live[ptr] = size;
		a->bytes += size - old;
		return ptr;
	}
	void *p = a->grab(size);
	if (ptr != nullptr) {
		memcpy(p, ptr, old < size ? old : size);
		a->drop(ptr, old);
		a->live.erase(ptr);
		a->bytes -= old;
	}
	a->live[p] = size;
	a->bytes += size;
	if (a->bytes > a->peak) a->peak = a->bytes;
	return p;
}
void *Alloc::grab(size_t size) {
	if (!pool) {
		void *p = malloc(size);
		if (p == nullptr) harness_error("out of real memory");
		memset(p, poison, size);
		MAKE_UNDEFINED(p, size);
		return p;
	}
	size_t c = pool_class(size);
	auto &v = spare[c];
	void *p;
	if (!v.empty()) { p = v.back(); v.pop_back(); ASAN_UNPOISON_MEMORY_REGION(p, c); }
	else { p = malloc(c); if (!p) harness_error("out of real memory"); memset(p, poison, c); }
	ASAN_POISON_MEMORY_REGION((char *)p + size, c - size);
	return p;
}
void Alloc::drop(void *p, size_t size) {
	if (!pool) { memset(p, poison ^ 0x3c, size); free(p); return; }
	ASAN_POISON_MEMORY_REGION(p, pool_class(size));
	spare[pool_class(size)].push_back(p);
}
Alloc::~Alloc() {
	magic = 0;
	for (auto &b : live) { if (pool) ASAN_UNPOISON_MEMORY_REGION(b.first, pool_class(b.second)); free(b.first); }
	for (auto &c : spare) for (auto b : c.second) { ASAN_UNPOISON_MEMORY_REGION(b, c.first); free(b); }
}
void check_alloc(Alloc &a, const char *when) {
	REQUIRE(a.err.empty(), "%s: %s", when, a.err.c_str());
	if (!a.live.empty())
		violation("%s: %zu block(s) of the client allocator not released", when, a.live.size());
}

// ------------------------------------------------------------ log recorder
void LogRec::fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args) {
	OutOfLib o;
	LogRec *l = (LogRec *)ctx;
	l->count++;
	if (l->lines.size() < l->cap) {
		LogLine line;
		line.level = level;
		char buf[512];
		va_list ap;
		va_copy(ap, args);
		int n = vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if (n < 0) violation("log message could not be formatted: %s", fmt);
		if ((size_t)n < sizeof buf) line.text.assign(buf, (size_t)n);
		else {
			line.text.resize((size_t)n + 1);
			vsnprintf(&line.text[0], (size_t)n + 1, fmt, args);
			line.text.resize((size_t)n);
		}
		if (l->only.empty() || line.text.compare(0, l->only.size(), l->only) == 0)
			l->lines.push_back(std::move(line));
	}
	if (l->hook) l->hook(level);
}

// ------------------------------------------------------------ values
void repr(const Val &v, string &o) {
	char b[48];
	if (v.absent) { o += '-'; return; }
	switch (v.k) {
	case Val::NUL: o += 'N'; break;
	case Val::INT: snprintf(b, sizeof b, "i%lld", (long long)v.i); o += b; break;
	case Val::UINT: snprintf(b, sizeof b, "u%llu", (unsigned long long)v.u); o += b; break;
	case Val::BOOL: o += v.u ? "bT" : "bF"; break;
	case Val::FLT:
		if (v.f != v.f) o += "fnan"; // payload and sign of NaN do not matter
		else { uint64_t u; memcpy(&u, &v.f, 8); snprintf(b, sizeof b, "f%016llx", (unsigned long long)u); o += b; }
		break;
	case Val::STR: snprintf(b, sizeof b, "s%zu:", v.s.size()); o += b; o += v.s; break;
	case Val::MAP: o += '{'; for (auto &k : v.kids) { repr(k, o); o += ','; } o += '}'; break;
	case Val::SEQ: o += '['; for (auto &k : v.kids) { repr(k, o); o += ','; } o += ']'; break;
	case Val::IGN: o += '.'; break;
	}
}
const char *errname(cyaml_err_t e) { return (unsigned)e < CYAML_ERR__COUNT ? cyaml_strerror(e) : "(not a result code)"; }

bool write_file(const string &path, const string &data) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f) return false;
	bool ok = fwrite(data.data(), 1, data.size(), f) == data.size();
	return (fclose(f) == 0) && ok;
}
bool read_file(const string &path, string &out) {
	FILE *f = fopen(path.c_str(), "r");
	if (!f) return false;
	out.clear();
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
	fclose(f);
	return true;
}

string diff_at(const string &a, const string &b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	if (a.size() < 1200 && b.size() < 1200) return "got " + esc(a, 6000) + " expected " + esc(b, 6000);
	size_t f = i > 150 ? i - 150 : 0;
	return sfmt("from byte %zu: got ..", f) + esc(a.substr(f, 500), 2500) + " expected .." + esc(b.substr(f, 500), 2500);
}
