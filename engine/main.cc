#include "core.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/resource.h>

vector<Mode> &modes() { static vector<Mode> m; return m; }

static void on_prof(int) {
	static const char t[] = "ENGINE-HANG the case used too much processor time\n";
	if (write(1, t, sizeof t - 1)) {}
	_exit(13);
}
static void json_str(FILE *f, const string &s) {
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
int main(int argc, char **argv) {
	uint64_t first = 0, count = 1, slow = 0;
	string stats, progress;
	int cpu = 40;
	if (argc > 1) RUN.mode = argv[1];
	for (int i = 2; i < argc; i++) {
		string a = argv[i];
		auto arg = [&]() { if (i + 1 >= argc) { fprintf(stderr, "argument missing\n"); exit(2); } return string(argv[++i]); };
		if (a == "--seed") RUN.seed = strtoull(arg().c_str(), nullptr, 0);
		else if (a == "--first") first = strtoull(arg().c_str(), nullptr, 0);
		else if (a == "--count") count = strtoull(arg().c_str(), nullptr, 0);
		else if (a == "--stats") stats = arg();
		else if (a == "--progress") progress = arg();
		else if (a == "--scratch") RUN.scratch = arg();
		else if (a == "--thorough") RUN.thorough = true;
		else if (a == "--cpu") cpu = atoi(arg().c_str());
		else if (a == "--slow") slow = strtoull(arg().c_str(), nullptr, 0);
		else if (a == "-v") RUN.verbose = true;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	const Mode *m = nullptr;
	for (auto &x : modes()) if (RUN.mode == x.name) m = &x;
	if (!m) { fprintf(stderr, "unknown mode\n"); for (auto &x : modes()) fprintf(stderr, " %s", x.name); fprintf(stderr, "\n"); return 2; }
	if (RUN.scratch.empty()) { char t[] = "/tmp/cyeng.XXXXXX"; if (!mkdtemp(t)) return 2; RUN.scratch = t; }
	volatile uint64_t *prog = nullptr;
	if (!progress.empty()) {
		int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, 16)) return 2;
		prog = (volatile uint64_t *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		if (prog == (volatile uint64_t *)MAP_FAILED) return 2;
	}
	signal(SIGPROF, on_prof);
	signal(SIGPIPE, SIG_IGN);
	signal(SIGXFSZ, SIG_IGN);
	// much nesting in the documents of some modes
	install_hooks();

	uint64_t mh = hash_str(RUN.mode);
	for (uint64_t i = first; i < first + count; i++) {
		RUN.cur = i;
		RUN.context.clear();
		RUN.lazy = nullptr;
		RUN.lost_counts = false;
		if (prog) { prog[0] = i; prog[1] = 1; }
		struct itimerval t = {{0, 0}, {cpu, 0}};
		setitimer(ITIMER_PROF, &t, nullptr);
		Rng r(mix64(mix64(RUN.seed * 0x9e3779b97f4a7c15ull + mh) + i));
		struct timespec ta, tb;
		clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ta);
		m->fn(r);
		clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &tb);
		uint64_t ms = (uint64_t)((tb.tv_sec - ta.tv_sec) * 1000 + (tb.tv_nsec - ta.tv_nsec) / 1000000);
		if (ms > ST["max_case_ms"]) { ST["max_case_ms"] = ms; if (slow && ms >= slow) printf("slow: case %llu took %llu ms\n", (unsigned long long)i, (unsigned long long)ms); }
		ST["cases"]++;
		if (RUN.verbose) printf("case %llu done\n", (unsigned long long)i);
	}
	struct itimerval t = {{0, 0}, {0, 0}};
	setitimer(ITIMER_PROF, &t, nullptr);
	if (prog) prog[1] = 2;
	if (!stats.empty()) {
		FILE *f = fopen((stats + ".tmp").c_str(), "w");
		if (!f) return 2;
		fprintf(f, "{\"counters\":{");
		bool sep = false;
		for (auto &x : ST.n) { if (sep) fputc(',', f); sep = true; json_str(f, x.first); fprintf(f, ":%llu", (unsigned long long)x.second); }
		fprintf(f, "},\"samples\":[");
		sep = false;
		for (auto &x : ST.samples) { if (sep) fputc(',', f); sep = true; json_str(f, x); }
		fprintf(f, "]}\n");
		if (fclose(f)) return 2;
		f = fopen((stats + ".hashes").c_str(), "w");
		if (!f) return 2;
		for (auto h : ST.distinct) fwrite(&h, 8, 1, f);
		if (fclose(f)) return 2;
		rename((stats + ".tmp").c_str(), stats.c_str());
	}
	if (RUN.verbose) for (auto &x : ST.n) printf("%12llu %s\n", (unsigned long long)x.second, x.first.c_str());
	return 0;
}
