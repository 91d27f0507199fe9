// Modes about calls at the same time, and calls within calls: C14
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>

namespace {
enum Op { LOAD, LOAD_FILE, COPY, SAVE, SAVE_FILE, CHAIN, OPS };
const char *op_name[] = {"load", "load from file", "copy", "save", "save to file", "load, save, copy and free"};

// What all threads see; nothing here changes while they run.
struct Subj {
	World *w;
	vector<string> docs, paths;
	void *data = nullptr;
	unsigned count = 0;
};
struct Step { unsigned subj, op, doc; int64_t fail; uint8_t poison; };
struct Shared {
	uint32_t magic = 0x5a5ead;
	unsigned p_yield = 0;
	bool to_mem = false, to_log = false; // the library's own functions as well
};
thread_local Alloc *tl_alloc;
thread_local LogRec *tl_log;
thread_local Rng *tl_rng;
thread_local string *tl_wrong;
thread_local uint64_t tl_yields, tl_switches, tl_order;
thread_local unsigned tl_id;
std::atomic<unsigned> last_to_pass{0};
std::atomic<unsigned> inside{0}, most_inside{0};

void maybe_yield(void *ctx) {
	Shared *s = (Shared *)ctx;
	if (s == nullptr || s->magic != 0x5a5ead) { if (tl_wrong && tl_wrong->empty()) *tl_wrong = "a callback was given a context that is not the configured one"; return; }
	// who was the last to pass here, as far as this thread can tell without
	// synchronising with anybody
	unsigned prev = last_to_pass.exchange(tl_id, std::memory_order_relaxed);
	tl_order = tl_order * 0x100000001b3ull + prev;
	if (prev != tl_id) tl_switches++;
	if (s->p_yield && tl_rng->below(s->p_yield) == 0) {
		tl_yields++;
		unsigned k = (unsigned)tl_rng->below(20);
		if (k == 0) usleep(1 + (unsigned)tl_rng->below(60));
		else if (k < 14) sched_yield();
		else for (volatile unsigned i = 0; i < 200; i = i + 1) ;
	}
}
void *mem_fn(void *ctx, void *p, size_t n) {
	maybe_yield(ctx);
	if (((Shared *)ctx)->to_mem) {
		OutOfLib o;
		size_t k = 1 + n % 100;
		char *q = (char *)cyaml_mem(ctx, nullptr, k);
		if (q) { memset(q, (int)k, k); char *t = (char *)cyaml_mem(ctx, q, k + 40); if (t) { q = t; if (q[0] != (char)k || q[k - 1] != (char)k) { if (tl_wrong && tl_wrong->empty()) *tl_wrong = "cyaml_mem lost what was in a block"; } } cyaml_mem(ctx, q, 0); }
	}
	return Alloc::fn(tl_alloc, p, n);
}
void log_fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args) {
	maybe_yield(ctx);
	if (((Shared *)ctx)->to_log) {
		OutOfLib o;
		va_list c;
		va_copy(c, args);
		cyaml_log(level, nullptr, fmt, c);
		va_end(c);
	}
	LogRec::fn(level, tl_log, fmt, args);
}
struct Enter { int saved; Enter() : saved(in_lib) { in_lib = 1; unsigned n = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = most_inside.load(std::memory_order_relaxed); while (n > m && !most_inside.compare_exchange_weak(m, n, std::memory_order_relaxed)) ; } ~Enter() { inside.fetch_sub(1, std::memory_order_relaxed); in_lib = saved; } };

string no_addr(const string &s) {
	string o;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') {
			size_t j = i + 2;
			while (j < s.size() && isxdigit((unsigned char)s[j])) j++;
			if (j - i >= 8) { o += "ADDR"; i = j; continue; }
		}
		o += s[i++];
	}
	return o;
}
string value_of(const SV *top, void *data, unsigned count) {
	ExtractCtx x;
	x.a = tl_alloc;
	Val v = extract(top, (const uint8_t *)&data, count, &x);
	string o = x.err.empty() ? repr(v) + sfmt(" in %zu blocks", x.reached.size()) : "WRONG " + x.err;
	return o;
}
// one step, with everything that can be seen of it
string perform(const Subj &s, const Step &st, const string &out_path) {
	const World &w = *s.w;
	const SV *top = w.top();
	bool seq = top->type == CYAML_SEQUENCE;
	Alloc a;
	LogRec log;
	ValRec rec;
	rec.rej = w.vr.rej;
	a.poison = st.poison;
	a.fail_at = st.fail;
	tl_alloc = &a; tl_log = &log; tl_rec = &rec; tl_rec_ctx = w.cfg.validation_ctx;
	string res;
	cyaml_err_t e = CYAML_OK;
	auto load = [&](bool file, void **data, unsigned *count) {
		Enter en;
		if (file) return cyaml_load_file(s.paths[st.doc].c_str(), &w.cfg, top, data, seq ? count : nullptr);
		return cyaml_load_data((const uint8_t *)s.docs[st.doc].data(), s.docs[st.doc].size(), &w.cfg, top, data, seq ? count : nullptr);
	};
	auto save = [&](void *data, unsigned count) {
		char *out = nullptr; size_t len = 0;
		cyaml_err_t x;
		{ Enter en; x = cyaml_save_data(&out, &len, &w.cfg, top, data, save_count(top, count)); }
		res += sfmt(" save %d ", (int)x);
		if (x == CYAML_OK) { res += string(out, len); Alloc::fn(&a, out, 0); }
		return x;
	};
	auto copy = [&](void *data, unsigned count) {
		void *out = nullptr;
		cyaml_err_t x;
		{ Enter en; x = cyaml_copy(&w.cfg, top, data, copy_count(top, count), &out); }
		res += sfmt(" copy %d ", (int)x);
		if (x == CYAML_OK) { res += value_of(top, out, count); Enter en; x = cyaml_free(&w.cfg, top, out, count); }
		return x;
	};
	switch (st.op) {
	case LOAD: case LOAD_FILE: case CHAIN: {
		void *data = nullptr; unsigned count = 0;
		e = load(st.op == LOAD_FILE, &data, &count);
		if (e == CYAML_OK) {
			res = sfmt("count %u ", count) + value_of(top, data, count);
			if (st.op == CHAIN) { save(data, count); copy(data, count); }
			Enter en;
			e = cyaml_free(&w.cfg, top, data, count);
		} else if (data) res = "output changed";
		break;
	}
	case COPY: e = copy(s.data, s.count); break;
	case SAVE: e = save(s.data, s.count); break;
	default: {
		{ Enter en; e = cyaml_save_file(out_path.c_str(), &w.cfg, top, s.data, save_count(top, s.count)); }
		string got;
		if (e == CYAML_OK) res = read_file(out_path, got) ? got : "no file";
		unlink(out_path.c_str());
	}
	}
	res = sfmt("%d %s ", (int)e, cyaml_strerror(e)) + res;
	if (!a.live.empty()) res += sfmt(" %zu blocks left", a.live.size());
	if (!a.err.empty()) res += " misuse of memory: " + a.err;
	res += "\nlog:\n";
	for (auto &l : log.lines) res += sfmt("%d:", (int)l.level) + no_addr(l.text);
	for (auto &c : rec.calls) res += "call " + c.what + "\n";
	tl_rec = nullptr;
	return res;
}
struct Silence { // of standard error
	int keep = -1;
	explicit Silence(bool on) { if (!on) return; fflush(stderr); keep = dup(2); int f = open("/dev/null", O_WRONLY); if (keep < 0 || f < 0) harness_error("cannot silence standard error"); dup2(f, 2); close(f); }
	void end() { if (keep >= 0) { fflush(stderr); dup2(keep, 2); close(keep); } keep = -1; }
	~Silence() { end(); }
};
struct Worker {
	const vector<Subj> *subjs;
	vector<Step> steps;
	vector<string> results;
	string out_path, wrong;
	uint64_t rng, yields = 0, switches = 0, order = 0;
	unsigned id = 0;
	pthread_barrier_t *bar = nullptr;
	pthread_t t;
	static void *run(void *p) {
		Worker *w = (Worker *)p;
		Rng r(w->rng);
		tl_rng = &r;
		tl_wrong = &w->wrong;
		tl_yields = tl_switches = tl_order = 0;
		tl_id = w->id;
		if (w->bar) pthread_barrier_wait(w->bar);
		w->results.clear();
		for (auto &s : w->steps) w->results.push_back(perform((*w->subjs)[s.subj], s, w->out_path));
		w->yields = tl_yields;
		w->switches = tl_switches;
		w->order = tl_order;
		tl_rng = nullptr;
		tl_wrong = nullptr;
		return nullptr;
	}
};
}

MODE(threads) {
	Shared sh;
	sh.p_yield = r.pick(vector<unsigned>{0, 1, 3, 10, 50});
	vector<Subj> subjs(1 + r.below(2));
	vector<std::unique_ptr<World>> worlds;
	vector<Alloc> own(subjs.size());
	string desc;
	for (size_t i = 0; i < subjs.size(); i++) {
		Prof p = Prof::swarm(r);
		p.budget = 50;
		p.longs = false;
		worlds.emplace_back(new World(r, p, random_cfg_flags(r), (cyaml_log_t)r.pick(vector<int>{0, 2, 3, 4}), r.chance(.4) ? .2 : 0));
		World &w = *worlds[i];
		Subj &s = subjs[i];
		s.w = &w;
		if (r.chance(.2)) w.vr.rej = {r.next(), 5};
		for (unsigned k = 0, n = 1 + (unsigned)r.below(4); k < n; k++) {
			string d = gen_valid_doc(w, r);
			if (r.chance(.4)) d = mutate_bytes(d, r, w.top());
			if (d.size() > 6000 || model_load(parse_events(d), w.top(), &w.cfg).skip) d = "";
			s.docs.push_back(d);
			s.paths.push_back(scratch_path("conc") + sfmt("%zu-%u", i, k));
			write_scratch(s.paths.back(), d);
			desc += sfmt("subject %zu document %u: \"", i, k) + esc(d) + "\"\n";
		}
		long budget = 100;
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		o.longs = false;
		Val v = gen_val(w.top(), r, o);
		if (v.k != Val::NUL && !(is_seq(w.top()) && v.kids.empty())) {
			w.cfg.mem_ctx = &own[i];
			s.data = build_data(&w.cfg, w.top(), v, &s.count);
		}
		// the one configuration of all threads
		w.cfg.mem_fn = mem_fn;
		w.cfg.mem_ctx = &sh;
		if (r.chance(.15)) w.cfg.log_fn = nullptr;
		else { w.cfg.log_fn = log_fn; w.cfg.log_ctx = &sh; }
		desc += sfmt("subject %zu schema: ", i) + w.s.dump() + "data: " + esc(repr(v)) + "\n";
	}
	auto sums = [&] {
		uint64_t h = 0;
		for (size_t i = 0; i < subjs.size(); i++) {
			h = h * 31 + worlds[i]->s.arena.checksum() + hash_bytes(&worlds[i]->cfg, sizeof(cyaml_config_t));
			std::map<void *, size_t> m(own[i].live.begin(), own[i].live.end());
			for (auto &b : m) h = hash_bytes(b.first, b.second, h);
			for (auto &d : subjs[i].docs) h = hash_str(d, h);
		}
		return h;
	};
	uint64_t sum = sums();
	unsigned n = r.chance(.3) ? 2 : 3 + (unsigned)r.below(6);
	pthread_barrier_t bar;
	pthread_barrier_init(&bar, nullptr, n);
	vector<Worker> ws(n);
	vector<Step> same;
	bool alike = r.chance(.3);
	for (unsigned i = 0; i < n; i++) {
		Worker &w = ws[i];
		w.subjs = &subjs;
		w.rng = r.next();
		w.id = i + 1;
		w.out_path = scratch_path("conc-out") + sfmt("%u", i);
		unsigned k = 3 + (unsigned)r.below(25);
		for (unsigned j = 0; j < k; j++) {
			Step s;
			s.subj = (unsigned)r.below(subjs.size());
			const Subj &u = subjs[s.subj];
			do s.op = (unsigned)r.below(OPS); while (!u.data && (s.op == COPY || s.op == SAVE || s.op == SAVE_FILE));
			s.doc = (unsigned)r.below(u.docs.size());
			s.fail = r.chance(.15) ? (int64_t)r.below(30) : -1;
			s.poison = (uint8_t)r.next();
			w.steps.push_back(s);
		}
		if (alike && i) w.steps = same;
		if (i == 0) same = w.steps;
	}
	RUN.lazy = [&] { return sfmt("%u threads\n", n) + desc; };
	if (RUN.verbose) { printf("%s", RUN.lazy().c_str()); fflush(stdout); }
	// alone before or after, so that nothing is prepared for one of the two
	vector<vector<string>> alone(n);
	auto serial = [&] {
		unsigned keep = sh.p_yield;
		sh.p_yield = 0;
		for (unsigned i = 0; i < n; i++) {
			vector<string> got = std::move(ws[i].results);
			ws[i].bar = nullptr;
			Worker::run(&ws[i]);
			alone[i] = std::move(ws[i].results);
			ws[i].results = std::move(got);
		}
		sh.p_yield = keep;
	};
	sh.to_mem = r.chance(.2);
	sh.to_log = r.chance(.1);
	Silence quiet(sh.to_log);
	bool before = r.chance(.3);
	if (before) serial();
	inside = most_inside = 0;
	for (auto &w : ws) { w.bar = &bar; if (pthread_create(&w.t, nullptr, Worker::run, &w)) harness_error("no thread"); }
	for (auto &w : ws) pthread_join(w.t, nullptr);
	pthread_barrier_destroy(&bar);
	if (most_inside > ST["max_calls_at_once"]) ST["max_calls_at_once"] = most_inside;
	if (most_inside > 1) ST["cases_with_calls_at_once"]++;
	uint64_t order = 0, switches = 0;
	for (auto &w : ws) { ST["yields_inside_calls"] += w.yields; switches += w.switches; order = order * 0x9e3779b97f4a7c15ull + w.order; }
	ST["switches_between_threads"] += switches;
	if (switches > n) ST.seen(order); // one interleaving of callbacks
	if (!before) serial();
	quiet.end();
	sh.to_log = false;
	for (unsigned i = 0; i < n; i++) {
		if (!ws[i].wrong.empty()) violation("%s", ws[i].wrong.c_str());
		for (size_t j = 0; j < ws[i].steps.size(); j++) {
			const Step &s = ws[i].steps[j];
			if (ws[i].results[j] != alone[i][j]) violation("thread %u, step %zu (%s of subject %u): among other threads %s", i, j, op_name[s.op], s.subj, diff_at(ws[i].results[j], alone[i][j]).c_str());
			if (alone[i][j].find("WRONG") != string::npos || alone[i][j].find(" blocks left") != string::npos || alone[i][j].find("misuse of memory") != string::npos) violation("%s: %s", op_name[s.op], esc(alone[i][j], 600).c_str());
			ST[op_name[s.op]]++;
		}
	}
	ST["threads"] += n;
	if (sums() != sum) violation("what the threads share was modified");
	for (size_t i = 0; i < subjs.size(); i++) if (subjs[i].data) {
		tl_alloc = &own[i];
		LogRec lg; tl_log = &lg;
		Rng q(1); tl_rng = &q;
		sh.p_yield = 0;
		cyaml_free(&worlds[i]->cfg, worlds[i]->top(), subjs[i].data, subjs[i].count);
		check_alloc(own[i], "at the end");
		tl_rng = nullptr;
	}
	if (r.chance(.01)) ST.sample(sfmt("%u threads, %zu schemas, %zu steps in the first: ", n, subjs.size(), ws[0].steps.size()) + esc(subjs[0].docs[0], 100));
	RUN.lazy = nullptr;
}

// ------------------------------------------------------------ calls within calls
namespace {
struct Nest {
	vector<Subj> subjs;
	vector<vector<string>> alone;  // results of the steps by themselves
	vector<vector<Step>> steps;
	Rng rng{1};
	unsigned p = 0, depth = 0, max_depth = 2;
	long budget = 0;
	uint64_t calls = 0, deepest = 0;
	uint64_t from[3] = {};
};
Nest *nest;
string step_nested(unsigned i, unsigned j);
void within(int which) {
	if (!nest || !nest->p || nest->depth >= nest->max_depth || nest->budget <= 0 || nest->rng.below(nest->p)) return;
	OutOfLib o;
	Nest &n = *nest;
	n.budget--;
	n.depth++;
	n.calls++;
	n.from[which]++;
	if (n.depth > n.deepest) n.deepest = n.depth;
	// what belongs to the outer call
	Alloc *a = tl_alloc; LogRec *l = tl_log; ValRec *v = tl_rec; void *vc = tl_rec_ctx;
	long m = lib_mallocs, f = lib_frees;
	unsigned i = (unsigned)n.rng.below(n.subjs.size()), j = (unsigned)n.rng.below(n.steps[i].size());
	string got = step_nested(i, j);
	if (got != n.alone[i][j]) violation("a %s within another call: %s", op_name[n.steps[i][j].op], diff_at(got, n.alone[i][j]).c_str());
	lib_mallocs = m; lib_frees = f;
	tl_alloc = a; tl_log = l; tl_rec = v; tl_rec_ctx = vc;
	errno = (int)n.rng.below(100);
	n.depth--;
}
void *nest_mem(void *ctx, void *p, size_t n) { (void)ctx; within(0); return Alloc::fn(tl_alloc, p, n); }
void nest_log(cyaml_log_t level, void *ctx, const char *fmt, va_list args) { (void)ctx; LogRec::fn(level, tl_log, fmt, args); within(1); }
string step_nested(unsigned i, unsigned j) {
	return perform(nest->subjs[i], nest->steps[i][j], scratch_path("nest-out") + sfmt("%u", nest->depth));
}
bool (*inner_map)(void *, const SV *, const cyaml_data_t *);
bool nest_map(void *c, const SV *s, const cyaml_data_t *d) { bool ok = inner_map(c, s, d); within(2); return ok; }
bool (*inner_seq)(void *, const SV *, const cyaml_data_t *, size_t);
bool nest_seq(void *c, const SV *s, const cyaml_data_t *d, size_t n) { bool ok = inner_seq(c, s, d, n); within(2); return ok; }
bool (*inner_str)(void *, const SV *, const char *);
bool nest_str(void *c, const SV *s, const char *d) { within(2); return inner_str(c, s, d); }
bool (*inner_int)(void *, const SV *, int64_t);
bool nest_int(void *c, const SV *s, int64_t d) { within(2); return inner_int(c, s, d); }
}
MODE(nested) {
	Nest n;
	n.rng = Rng(r.next());
	n.subjs.resize(1 + r.below(2));
	vector<std::unique_ptr<World>> worlds;
	vector<Alloc> own(n.subjs.size());
	string desc;
	for (size_t i = 0; i < n.subjs.size(); i++) {
		Prof p = Prof::swarm(r);
		p.budget = 40;
		p.longs = false;
		worlds.emplace_back(new World(r, p, random_cfg_flags(r), (cyaml_log_t)r.pick(vector<int>{0, 0, 1, 3, 4}), r.chance(.6) ? .4 : 0));
		World &w = *worlds[i];
		Subj &s = n.subjs[i];
		s.w = &w;
		if (r.chance(.2)) w.vr.rej = {r.next(), 5};
		walk_schema(&w.s.top, [](SV *v) {
			switch (v->type) {
			case CYAML_MAPPING: if (v->mapping.validation_cb) { inner_map = v->mapping.validation_cb; v->mapping.validation_cb = nest_map; } break;
			case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: if (v->sequence.validation_cb) { inner_seq = v->sequence.validation_cb; v->sequence.validation_cb = nest_seq; } break;
			case CYAML_STRING: if (v->string.validation_cb) { inner_str = v->string.validation_cb; v->string.validation_cb = nest_str; } break;
			case CYAML_INT: if (v->integer.validation_cb) { inner_int = v->integer.validation_cb; v->integer.validation_cb = nest_int; } break;
			default: break;
			}
		});
		w.seal();
		for (unsigned k = 0, m = 1 + (unsigned)r.below(3); k < m; k++) {
			string d = gen_valid_doc(w, r);
			if (r.chance(.3)) d = mutate_bytes(d, r, w.top());
			if (d.size() > 4000 || model_load(parse_events(d), w.top(), &w.cfg).skip) d = "";
			s.docs.push_back(d);
			s.paths.push_back(scratch_path("nest") + sfmt("%zu-%u", i, k));
			write_scratch(s.paths.back(), d);
			desc += sfmt("subject %zu document %u: \"", i, k) + esc(d) + "\"\n";
		}
		long budget = 60;
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		o.longs = false;
		Val v = gen_val(w.top(), r, o);
		if (v.k != Val::NUL && !(is_seq(w.top()) && v.kids.empty())) {
			w.cfg.mem_ctx = &own[i];
			s.data = build_data(&w.cfg, w.top(), v, &s.count);
		}
		w.cfg.mem_fn = nest_mem;
		w.cfg.mem_ctx = &n;
		if (r.chance(.2)) w.cfg.log_fn = nullptr;
		else { w.cfg.log_fn = nest_log; w.cfg.log_ctx = &n; }
		desc += sfmt("subject %zu schema: ", i) + w.s.dump() + "data: " + esc(repr(v)) + "\n";
	}
	RUN.lazy = [&] { return desc; };
	if (RUN.verbose) { printf("%s", desc.c_str()); fflush(stdout); }
	nest = &n;
	for (size_t i = 0; i < n.subjs.size(); i++) {
		n.steps.emplace_back(); n.alone.emplace_back();
		for (unsigned j = 0, k = 2 + (unsigned)r.below(5); j < k; j++) {
			Step s;
			s.subj = (unsigned)i;
			do s.op = (unsigned)r.below(OPS); while (!n.subjs[i].data && (s.op == COPY || s.op == SAVE || s.op == SAVE_FILE));
			s.doc = (unsigned)r.below(n.subjs[i].docs.size());
			s.fail = r.chance(.15) ? (int64_t)r.below(30) : -1;
			s.poison = (uint8_t)r.next();
			n.steps[i].push_back(s);
			n.alone[i].push_back(step_nested((unsigned)i, j));
		}
	}
	n.p = r.pick(vector<unsigned>{1, 2, 5, 20, 100});
	n.max_depth = 1 + (unsigned)r.below(3);
	for (size_t i = 0; i < n.subjs.size(); i++) for (unsigned j = 0; j < n.steps[i].size(); j++) {
		n.budget = r.pick(vector<long>{1, 1, 5, 20});
		string got = step_nested((unsigned)i, j);
		if (got != n.alone[i][j]) violation("a %s with other calls within it: %s", op_name[n.steps[i][j].op], diff_at(got, n.alone[i][j]).c_str());
		ST["outer_calls"]++;
		ST.seen(hash_str(got, n.steps[i][j].op));
	}
	ST["nested_calls"] += n.calls;
	ST["nested_in_memory_function"] += n.from[0];
	ST["nested_in_log_function"] += n.from[1];
	ST["nested_in_validation"] += n.from[2];
	if (n.deepest > ST["max_depth_of_calls"]) ST["max_depth_of_calls"] = n.deepest;
	n.p = 0;
	for (size_t i = 0; i < n.subjs.size(); i++) {
		if (worlds[i]->s.arena.checksum() != worlds[i]->sum) violation("a schema was modified");
		if (!n.subjs[i].data) continue;
		tl_alloc = &own[i];
		LogRec lg; tl_log = &lg;
		cyaml_free(&worlds[i]->cfg, worlds[i]->top(), n.subjs[i].data, n.subjs[i].count);
		check_alloc(own[i], "at the end");
	}
	nest = nullptr;
	if (r.chance(.01)) ST.sample(sfmt("%llu nested calls, depth %llu: ", (unsigned long long)n.calls, (unsigned long long)n.deepest) + esc(n.subjs[0].docs[0], 100));
	RUN.lazy = nullptr;
}
