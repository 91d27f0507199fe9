// Modes about memory, failures, resources, parameters and messages:
// C04 C05 C06 C15 C16 C20 C21
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <alloca.h>

namespace {
enum OpKind { LOAD, LOAD_FILE, COPY, SAVE, SAVE_FILE, OPS };
const char *opname[] = {"load", "load from file", "copy", "save", "save to file"};

// A world, a document and data, on which operations are carried out.
struct Subject {
	World &w;
	string doc, path, out_path;
	void *data = nullptr;
	unsigned count = 0;
	Val v;
	string src;
	uint64_t src_sum = 0;
	std::unordered_map<void *, size_t> src_blocks;
	explicit Subject(World &w) : w(w), path(scratch_path("subject.yaml")), out_path(scratch_path("subject.out")) {}
	void set_doc(const string &d) { doc = d; write_scratch(path, d); }
	uint64_t sum() {
		uint64_t h = 0;
		for (auto &b : src_blocks) {
			auto it = w.a.live.find(b.first);
			if (it == w.a.live.end()) violation("a block of the source data was released");
			h += hash_bytes(b.first, it->second, (uint64_t)(uintptr_t)b.first);
		}
		return h;
	}
	void note_source() {
		ExtractCtx x;
		x.a = &w.a;
		Val e = extract(w.top(), (const uint8_t *)&data, count, &x);
		if (!x.err.empty()) violation("%s", x.err.c_str());
		src = repr(e);
		src_blocks = x.reached;
		src_sum = sum();
	}
	bool make_data(Rng &r, bool nulls_ok = false) {
		long budget = 60 + (long)r.below(200);
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		v = gen_val(w.top(), r, o);
		if (v.k == Val::NUL || (is_seq(w.top()) && v.kids.empty())) return false;
		(void)nulls_ok;
		data = build_data(&w.cfg, w.top(), v, &count);
		note_source();
		return true;
	}
	void drop_data() { if (data) w.release(data, count); data = nullptr; src_blocks.clear(); }
	// Carries the operation out, checks what holds for any outcome, and
	// returns all of the outcome as text.
	string run(OpKind k, cyaml_err_t *err_out, const string *other_doc = nullptr) {
		Alloc &a = w.a;
		size_t live = a.live.size();
		string res;
		cyaml_err_t err;
		const char *n = opname[k];
		if (k == LOAD || k == LOAD_FILE) {
			LoadRes l = k == LOAD ? do_load(other_doc ? *other_doc : doc, &w.cfg, w.top()) : do_load_file(other_doc ? *other_doc : path, &w.cfg, w.top());
			err = l.err;
			if (l.fd_after != l.fd_before) violation("%s left a file open", n);
			if (l.mallocs != 0) violation("%s left %ld blocks of the process heap behind", n, l.mallocs);
			if (err != CYAML_OK) { if (l.outputs_touched) violation("failed %s changed the caller's outputs", n); }
			else {
				res = repr(extract_top(w.top(), l.data, l.count, &a)) + sfmt(" count %u", l.count);
				if (a.live.size() != live + last_reached) violation("%s leaves %zu blocks, of which the data make up %zu", n, a.live.size() - live, last_reached);
				w.release(l.data, l.count);
			}
		} else if (k == COPY) {
			CopyRes c = do_copy(&w.cfg, w.top(), data, copy_count(w.top(), count));
			err = c.err;
			if (c.mallocs != 0) violation("%s left %ld blocks of the process heap behind", n, c.mallocs);
			if (err != CYAML_OK) { if (c.outputs_touched) violation("failed %s changed the caller's output", n); }
			else {
				res = repr(extract_top(w.top(), c.data, count, &a));
				if (a.live.size() != live + last_reached) violation("%s leaves %zu blocks, of which the data make up %zu", n, a.live.size() - live, last_reached);
				w.release(c.data, count);
			}
		} else {
			SaveRes s = k == SAVE ? do_save(&w.cfg, w.top(), data, save_count(w.top(), count)) : do_save_file(other_doc ? *other_doc : out_path, &w.cfg, w.top(), data, save_count(w.top(), count));
			err = s.err;
			if (s.mallocs != 0) violation("%s left %ld blocks of the process heap behind", n, s.mallocs);
			if (s.fd_after != s.fd_before) violation("%s left a file open", n);
			if (err != CYAML_OK) {
				if (s.outputs_touched) violation("failed %s changed the caller's outputs", n);
			} else {
				if (k == SAVE_FILE && !other_doc) { string got; if (!read_file(out_path, got)) violation("the saved file cannot be read"); res = got; unlink(out_path.c_str()); }
				else res = s.out;
			}
		}
		if (a.live.size() != live) violation("%s (%s) leaves %zd blocks of the client allocator behind", n, errname(err), (ssize_t)(a.live.size() - live));
		if (!a.err.empty()) violation("%s: %s", n, a.err.c_str());
		if (!src_blocks.empty() && sum() != src_sum) violation("%s changed the source data", n);
		if (err_out) *err_out = err;
		note_outcome(err, n);
		return sfmt("%s: ", errname(err)) + res;
	}
};
// A document that does not conform, of one of many kinds.
string bad_doc(World &w, Rng &r, const string &good) {
	switch (r.below(4)) {
	case 0: return good.substr(0, r.below(good.size() + 1));
	case 1: return mutate_bytes(good, r, w.top());
	case 2: {
		Y y;
		gen_valid_doc(w, r, nullptr, &y);
		mutate(y, r, w.top(), &w.cfg);
		if (r.chance(.3)) { random_anchors(y, r); if (r.chance(.4)) rename_anchors(y, r); }
		return render(y, r, Present::random(r));
	}
	default: return render(gen_garbage(r, 4), r, Present::random(r));
	}
}
bool too_large(World &w, const string &doc) { return model_load(parse_events(doc), w.top(), &w.cfg).skip; }
}

MODE(failures) { // C04
	Prof p = Prof::swarm(r);
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS, CYAML_LOG_ERROR, .3);
	Subject s(w);
	s.set_doc(gen_valid_doc(w, r));
	w.show(s.doc);
	bool data = s.make_data(r);
	string base[OPS];
	for (int k = 0; k < OPS; k++) if (k < COPY || data) base[k] = s.run((OpKind)k, nullptr);
	unsigned rounds = 3 + (unsigned)r.below(10);
	for (unsigned i = 0; i < rounds; i++) {
		cyaml_err_t err = CYAML_OK;
		OpKind k = (OpKind)r.below(data ? OPS : COPY);
		string other;
		unsigned kind = (unsigned)r.below(6);
		if (k == LOAD || k == LOAD_FILE) {
			if (kind == 0) w.vr.rej = {r.next(), 1 + (unsigned)r.below(4)};
			else if (kind == 1) { w.a.reset_faults(); w.a.fail_at = (int64_t)r.below(30); w.a.fail_after = r.chance(.3); }
			else {
				other = bad_doc(w, r, s.doc);
				if (too_large(w, other)) continue;
			}
			w.show(kind < 2 ? s.doc : other);
			if (k == LOAD) s.run(k, &err, kind < 2 ? nullptr : &other);
			else {
				string path = kind < 2 ? s.path : kind == 2 ? RUN.scratch : kind == 3 ? RUN.scratch + "/no/such/file" : scratch_path("bad.yaml");
				if (kind > 3) write_scratch(path, other);
				s.run(k, &err, &path);
				if ((kind == 2 || kind == 3) && err == CYAML_OK) violation("loading a %s succeeded", kind == 2 ? "directory" : "missing file");
			}
			w.vr.rej = {};
			w.a.reset_faults();
		} else {
			w.show("(data) " + s.src);
			if (kind < 2) {
				w.a.reset_faults();
				w.a.fail_at = (int64_t)r.below(20);
				w.a.fail_after = r.chance(.3);
				s.run(k, &err);
				w.a.reset_faults();
			} else if (k == SAVE_FILE && kind < 4) {
				string path = kind == 2 ? "/dev/full" : RUN.scratch;
				s.run(k, &err, &path);
				if (err == CYAML_OK) violation("saving to %s succeeded", path.c_str());
			} else { // other data, which cannot be saved or copied
				Val old = s.v;
				Val v = s.v;
				if (!spoil(w.top(), v, r)) continue;
				s.drop_data();
				s.v = v;
				s.data = build_data(&w.cfg, w.top(), v, &s.count);
				s.note_source();
				w.show("(data) " + s.src);
				s.run(k, &err);
				if (k != COPY && err == CYAML_OK) violation("data which cannot be represented were saved");
				s.drop_data();
				s.v = old;
				s.data = build_data(&w.cfg, w.top(), old, &s.count);
				s.note_source();
			}
		}
		ST["operations"]++;
		if (err != CYAML_OK) ST["failures"]++;
		ST.seen(hash_str(other, w.sum + (uint64_t)err * 131 + k * 17 + kind));
		if (r.chance(.6)) {
			OpKind g = (OpKind)r.below(data ? OPS : COPY);
			w.show(s.doc);
			string now = s.run(g, nullptr);
			if (now != base[g]) violation("%s after a failed %s: %s", opname[g], opname[k], diff_at(now, base[g]).c_str());
			ST["repeated_good"]++;
		}
	}
	if (r.chance(.005)) ST.sample(esc(s.doc, 150));
	s.drop_data();
	w.finish();
}

MODE(oom) { // C05
	Prof p = Prof::swarm(r);
	p.budget = 40;
	p.longs = r.chance(.1);
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS, CYAML_LOG_ERROR, .1);
	Subject s(w);
	bool data = s.make_data(r);
	string doc;
	if (r.chance(.3)) { // with anchors
		Y y;
		gen_valid_doc(w, r, nullptr, &y);
		random_anchors(y, r);
		doc = render(y, r, Present::random(r));
		if (too_large(w, doc)) { s.drop_data(); return; }
	} else doc = gen_valid_doc(w, r);
	s.set_doc(doc);
	w.show(doc + "\n(data) " + s.src);
	for (int k = 0; k < OPS; k++) {
		if (k >= COPY && !data) break;
		if (r.chance(.3)) continue;
		cyaml_err_t base_err, err;
		w.a.reset_faults();
		string base = s.run((OpKind)k, &base_err);
		uint64_t n = w.a.reqs;
		ST["requests"] += n;
		ST["operations"]++;
		ST["max_requests"] = std::max(ST["max_requests"], n);
		if (n == 0 && base_err == CYAML_OK) violation("%s without a single request for memory", opname[k]);
		uint64_t cap = RUN.thorough ? 400 : 60;
		vector<uint64_t> at;
		if (n <= cap) { for (uint64_t i = 0; i < n; i++) at.push_back(i); ST["exhausted"]++; }
		else {
			std::set<uint64_t> c;
			for (uint64_t i = 0; i < cap / 4; i++) { c.insert(i); c.insert(n - 1 - i); }
			while (c.size() < cap) c.insert(r.below(n));
			at.assign(c.begin(), c.end());
		}
		for (uint64_t i : at) for (int after = 0; after < 2; after++) {
			w.a.reset_faults();
			w.a.fail_at = (int64_t)i;
			w.a.fail_after = after;
			string got = s.run((OpKind)k, &err);
			if (w.a.injected == 0) violation("%s asks for memory %llu times once and %llu times another time", opname[k], (unsigned long long)n, (unsigned long long)w.a.reqs);
			if (err == CYAML_OK) violation("%s succeeded although memory request %llu%s was refused", opname[k], (unsigned long long)i, after ? " and all later ones" : "");
			if (base_err == CYAML_OK && err != CYAML_ERR_OOM) violation("%s gave \"%s\" when memory request %llu of %llu%s was refused", opname[k], errname(err), (unsigned long long)i, (unsigned long long)n, after ? " and all later ones" : "");
			ST["refusals"]++;
			ST.seen(hash_str(doc, w.sum + (uint64_t)k * 1000003 + i * 2 + (uint64_t)after));
		}
		w.a.reset_faults();
		string again = s.run((OpKind)k, nullptr);
		if (again != base) violation("%s after refusals: %s", opname[k], diff_at(again, base).c_str());
		ST["repeated_good"]++;
	}
	if (data) { // releasing needs no memory
		w.a.reset_faults();
		w.a.fail_at = 0;
		w.a.fail_after = true;
		s.drop_data();
		w.a.reset_faults();
		ST["freed_without_memory"]++;
	}
	if (r.chance(.01)) ST.sample(esc(doc, 150));
	w.finish();
}

// Histories with several allocators.
MODE(memory) { // C06
	unsigned nw = 1 + (unsigned)r.below(3);
	vector<std::unique_ptr<World>> ws;
	struct Obj { World *w; void *data; unsigned count; string src; size_t blocks; };
	vector<Obj> objs;
	for (unsigned i = 0; i < nw; i++) {
		Prof p = Prof::swarm(r);
		p.budget = 50;
		ws.emplace_back(new World(r, p, random_cfg_flags(r)));
		ws.back()->a.pool = r.chance(.3);
	}
	auto show = [&](World *w, const string &what) {
		w->show(what);
	};
	auto check_all = [&](const char *after) {
		for (auto &w : ws) {
			size_t n = 0;
			for (auto &o : objs) if (o.w == w.get()) n += o.blocks;
			if (w->a.live.size() != n) violation("after %s, the allocator holds %zu blocks instead of the %zu of the data", after, w->a.live.size(), n);
			if (!w->a.err.empty()) violation("%s", w->a.err.c_str());
		}
	};
	auto view = [&](World *w, void *d, unsigned c) { return repr(extract_top(w->top(), d, c, &w->a)); };
	unsigned steps = 5 + (unsigned)r.below(40);
	for (unsigned i = 0; i < steps; i++) {
		World *w = ws[r.below(nw)].get();
		unsigned op = (unsigned)r.below(10);
		ST["operations"]++;
		if (op < 3) {
			string doc = gen_valid_doc(*w, r);
			if (r.chance(.3)) { doc = bad_doc(*w, r, doc); if (too_large(*w, doc)) continue; }
			show(w, doc);
			LoadRes l = do_load(doc, &w->cfg, w->top());
			if (l.mallocs != 0) violation("load left %ld blocks of the process heap behind", l.mallocs);
			if (l.err == CYAML_OK) {
				string src = view(w, l.data, l.count);
				objs.push_back({w, l.data, l.count, src, last_reached});
				ST["blocks_loaded"] += last_reached;
				ST.seen(hash_str(doc, w->sum));
			}
			check_all("load");
		} else if (op < 5 && !objs.empty()) {
			Obj o = objs[r.below(objs.size())];
			show(o.w, "(copy of) " + o.src);
			CopyRes c = do_copy(&o.w->cfg, o.w->top(), o.data, copy_count(o.w->top(), o.count));
			if (c.err == CYAML_OK) {
				string src = view(o.w, c.data, o.count);
				objs.push_back({o.w, c.data, o.count, src, last_reached});
				ST["blocks_copied"] += last_reached;
			}
			check_all("copy");
		} else if (op < 6 && !objs.empty()) {
			Obj o = objs[r.below(objs.size())];
			show(o.w, "(save of) " + o.src);
			if (r.chance(.5)) do_save(&o.w->cfg, o.w->top(), o.data, save_count(o.w->top(), o.count));
			else do_save_file(scratch_path("memory.yaml"), &o.w->cfg, o.w->top(), o.data, save_count(o.w->top(), o.count));
			ST["saves"]++;
			check_all("save");
		} else if (!objs.empty()) {
			size_t n = r.below(objs.size());
			Obj o = objs[n];
			show(o.w, "(free of) " + o.src);
			if (view(o.w, o.data, o.count) != o.src) violation("data changed while other calls were made");
			uint64_t reqs = o.w->a.reqs, frees = o.w->a.frees;
			o.w->release(o.data, o.count);
			objs.erase(objs.begin() + (long)n);
			if (o.w->a.frees - frees != o.blocks) violation("free released %llu blocks instead of %zu", (unsigned long long)(o.w->a.frees - frees), o.blocks);
			ST["blocks_freed"] += o.blocks;
			(void)reqs;
			check_all("free");
		}
	}
	while (!objs.empty()) { Obj o = objs.back(); objs.pop_back(); show(o.w, "(free of) " + o.src); o.w->release(o.data, o.count); check_all("free"); }
	for (auto &w : ws) w->finish();
}

// The memory function that comes with the library.
MODE(libmem) { // C06
	allow_direct = true;
	auto count = [](const std::function<void()> &f) { lib_mallocs = lib_frees = 0; in_lib = 1; f(); in_lib = 0; return lib_mallocs - lib_frees; };
	{
		void *ctx = r.chance(.5) ? &r : nullptr;
		size_t n = 1 + r.below(300), m = 1 + r.below(300);
		void *p = nullptr;
		if (count([&] { p = cyaml_mem(ctx, nullptr, n); }) != 1 || !p) violation("cyaml_mem did not allocate: %p %ld %ld", p, lib_mallocs, lib_frees);
		memset(p, 0x5a, n);
		if (count([&] { p = cyaml_mem(ctx, p, m); }) != 0 || !p) violation("cyaml_mem did not resize");
		for (size_t i = 0; i < std::min(n, m); i++) if (((uint8_t *)p)[i] != 0x5a) violation("cyaml_mem lost data");
		memset(p, 0x5a, m);
		void *q = p;
		if (count([&] { q = cyaml_mem(ctx, p, 0); }) != -1 || q) violation("cyaml_mem did not release");
		if (count([&] { q = cyaml_mem(ctx, nullptr, 0); }) != 0 && q == nullptr) violation("cyaml_mem allocated for nothing");
		if (q) free(q);
	}
	Prof p = Prof::swarm(r);
	p.budget = 60;
	World w(r, p, random_cfg_flags(r));
	w.cfg.mem_fn = cyaml_mem;
	w.cfg.mem_ctx = nullptr;
	unsigned rounds = 1 + (unsigned)r.below(4);
	for (unsigned i = 0; i < rounds; i++) {
		string doc = gen_valid_doc(w, r);
		if (r.chance(.25)) { doc = bad_doc(w, r, doc); if (too_large(w, doc)) continue; }
		w.show(doc);
		LoadRes l = do_load(doc, &w.cfg, w.top());
		ST["loads"]++;
		ST.seen(hash_str(doc, w.sum));
		if (l.err != CYAML_OK) { if (l.mallocs != 0) violation("failed load leaves %ld blocks behind", l.mallocs); continue; }
		string src = repr(extract_top(w.top(), l.data, l.count, nullptr, false));
		size_t n = last_reached;
		if (l.mallocs != (long)n) violation("load leaves %ld blocks; the data are made of %zu", l.mallocs, n);
		CopyRes c = do_copy(&w.cfg, w.top(), l.data, copy_count(w.top(), l.count));
		if (c.mallocs != (c.err == CYAML_OK ? (long)n : 0)) violation("copy (%s) leaves %ld blocks; the data are made of %zu", errname(c.err), c.mallocs, n);
		char *out = nullptr;
		size_t len = 0;
		cyaml_err_t se = CYAML_OK;
		long net = count([&] { se = cyaml_save_data(&out, &len, &w.cfg, w.top(), l.data, save_count(w.top(), l.count)); });
		if (net != (se == CYAML_OK)) violation("save (%s) leaves %ld blocks behind", errname(se), net);
		if (se == CYAML_OK && out && count([&] { cyaml_mem(nullptr, out, 0); }) != -1) violation("the saved document was not a block");
		for (int k = 0; k < 2; k++) {
			void *d = k ? c.data : l.data;
			if (k && c.err != CYAML_OK) break;
			if (repr(extract_top(w.top(), d, l.count, nullptr, false)) != src) violation("data changed");
			cyaml_err_t e = CYAML_OK;
			net = count([&] { e = cyaml_free(&w.cfg, w.top(), d, l.count); });
			if (e != CYAML_OK || net != -(long)n) violation("free released %ld of %zu blocks", -net, n);
			ST["blocks_freed"] += n;
		}
	}
	allow_direct = false;
	w.finish();
}

MODE(resources) { // C16
	Prof p = Prof::swarm(r);
	p.budget = 50;
	World w(r, p, random_cfg_flags(r), CYAML_LOG_ERROR, .1);
	Subject s(w);
	s.set_doc(gen_valid_doc(w, r));
	bool data = s.make_data(r);
	int fd = fd_probe();
	unsigned steps = 10 + (unsigned)r.below(30);
	for (unsigned i = 0; i < steps; i++) {
		OpKind k = (OpKind)r.below(data ? OPS : COPY);
		string other;
		const string *op = nullptr;
		bool fault = r.chance(.25);
		IO = IoPlan();
		if (k == LOAD) {
			if (r.chance(.7)) { other = bad_doc(w, r, s.doc); if (too_large(w, other)) continue; op = &other; }
			w.show(op ? other : s.doc);
		} else if (k == LOAD_FILE) {
			unsigned kind = (unsigned)r.below(6);
			string d = kind < 3 ? bad_doc(w, r, s.doc) : s.doc;
			if (too_large(w, d)) continue;
			w.show(d);
			if (kind == 5) { other = r.chance(.5) ? RUN.scratch : RUN.scratch + "/none"; op = &other; }
			else if (kind < 3 || r.chance(.5)) { // through a stream of ours
				IO.armed = true;
				IO.content = d;
				IO.rng = Rng(r.next());
				IO.short_io = r.chance(.5);
				IO.fail_at = r.chance(.3) ? (int64_t)r.below(d.size() + 2) : -1;
				IO.fail_close = r.chance(.1);
				IO.bufsize = r.pick(vector<int>{-1, 0, 1, 7, 4096});
			}
		} else if (k == SAVE_FILE) {
			if (r.chance(.3)) { other = r.pick({"/dev/full", "/dev/null", "/nonexistent/x", ""}); op = &other; }
			else if (r.chance(.4)) { IO.armed = true; IO.fail_at = (int64_t)r.below(200); IO.fail_close = r.chance(.2); IO.bufsize = r.pick(vector<int>{-1, 0, 16}); other = s.out_path; op = &other; }
		}
		if (fault) { w.a.reset_faults(); w.a.fail_at = (int64_t)r.below(r.chance(.5) ? 8 : 60); w.a.fail_after = r.chance(.5); }
		if (r.chance(.2)) w.vr.rej = {r.next(), 3};
		cyaml_err_t err;
		s.run(k, &err, op);
		w.vr.rej = {};
		w.a.reset_faults();
		IO.armed = false;
		ST["calls"]++;
		ST.seen(hash_str(other, w.sum + (uint64_t)k * 7 + (uint64_t)err * 101 + fault));
		if (IO.opens != IO.closes && !IO.fail_open && IO.opens && IO.content.size() + IO.calls) violation("%s: %u files opened and %u closed", opname[k], IO.opens, IO.closes);
		if (fd_probe() != fd) violation("%s: a file is still open", opname[k]);
		if (err != CYAML_OK) ST["failed_calls"]++;
		if (k == LOAD_FILE || k == SAVE_FILE) ST["file_calls"]++;
	}
	s.drop_data();
	w.finish();
}

// ------------------------------------------------------------ C20
MODE(params) {
	Prof p = Prof::swarm(r);
	p.budget = 30;
	World w(r, p, random_cfg_flags(r));
	Subject s(w);
	s.set_doc(gen_valid_doc(w, r));
	bool have = s.make_data(r);
	w.show(s.doc + "\n(data) " + s.src);
	const SV *t = w.top();
	cyaml_config_t nomem = w.cfg;
	nomem.mem_fn = nullptr;
	SV flat = *t;
	flat.flags = (cyaml_flag_e)(flat.flags & ~(unsigned)(CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_POINTER_NULL));
	bool seq = t->type == CYAML_SEQUENCE;
	for (unsigned round = 0; round < 40; round++) {
		std::set<cyaml_err_t> ok;
		const cyaml_config_t *cfg = &w.cfg;
		const SV *sc = t;
		unsigned mask = r.chance(.6) ? 1u << r.below(6) : (unsigned)r.below(64);
		if (mask & 1) { cfg = nullptr; ok.insert(CYAML_ERR_BAD_PARAM_NULL_CONFIG); }
		else if (mask & 2) { cfg = &nomem; ok.insert(CYAML_ERR_BAD_CONFIG_NULL_MEMFN); }
		if (mask & 4) { sc = nullptr; ok.insert(CYAML_ERR_BAD_PARAM_NULL_SCHEMA); }
		bool badcount = (mask & 8) != 0, nodata = (mask & 16) != 0, nonptr = (mask & 32) != 0 && sc;
		uint64_t reqs = w.a.reqs, frees = w.a.frees;
		unsigned fn = (unsigned)r.below(6);
		cyaml_err_t err;
		string name;
		uint64_t marker = 0x5eed5eed5eed5eedull, keep = marker;
		unsigned cnt = 0x5eed5eed;
		void *out = (void *)(uintptr_t)marker;
		size_t len = (size_t)marker;
		char *text = (char *)(uintptr_t)marker;
		bool judged = true;
		string path = scratch_path("params.out");
		int fd = fd_probe();
		lib_mallocs = lib_frees = 0;
		long kept = 0;
		if (fn < 2) { // loads
			name = fn ? "cyaml_load_file" : "cyaml_load_data";
			if (nonptr) { sc = &flat; ok.insert(CYAML_ERR_TOP_LEVEL_NON_PTR); }
			if (badcount) ok.insert(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
			if (nodata) ok.insert(CYAML_ERR_BAD_PARAM_NULL_DATA);
			if (ok.empty()) continue;
			unsigned *cp = seq != badcount ? &cnt : nullptr;
			in_lib = 1;
			err = fn ? cyaml_load_file(s.path.c_str(), cfg, sc, nodata ? nullptr : &out, cp) : cyaml_load_data((const uint8_t *)s.doc.data(), s.doc.size(), cfg, sc, nodata ? nullptr : &out, cp);
			in_lib = 0;
			kept = lib_mallocs - lib_frees;
			if ((uintptr_t)out != keep || cnt != 0x5eed5eed) violation("%s with wrong arguments changed the outputs", name.c_str());
		} else if (fn < 4) { // saves
			if (!have) continue;
			name = fn == 3 ? "cyaml_save_file" : "cyaml_save_data";
			if (nonptr) { sc = &flat; ok.insert(CYAML_ERR_TOP_LEVEL_NON_PTR); }
			if (badcount) ok.insert(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
			if (nodata) ok.insert(CYAML_ERR_BAD_PARAM_NULL_DATA);
			if (ok.empty()) continue;
			unsigned c = seq ? (badcount ? 0 : s.count) : badcount ? 1 + (unsigned)r.below(5) : 0;
			in_lib = 1;
			err = fn == 3 ? cyaml_save_file(path.c_str(), cfg, sc, nodata ? nullptr : s.data, c) : cyaml_save_data(&text, &len, cfg, sc, nodata ? nullptr : s.data, c);
			in_lib = 0;
			kept = lib_mallocs - lib_frees;
			if ((uintptr_t)text != keep || len != (size_t)keep) violation("%s with wrong arguments changed the outputs", name.c_str());
			unlink(path.c_str());
		} else if (fn == 4) { // copy
			if (!have) continue;
			name = "cyaml_copy";
			bool target = nonptr; // here: a target that is in use
			void *to = target ? (void *)(uintptr_t)marker : nullptr;
			if (target) ok.insert(CYAML_ERR_DATA_TARGET_NON_NULL);
			if (badcount) ok.insert(CYAML_ERR_BAD_PARAM_SEQ_COUNT);
			if (nodata) ok.insert(CYAML_ERR_BAD_PARAM_NULL_DATA);
			if (nodata && !target && r.chance(.5)) to = nullptr;
			if (ok.empty()) continue;
			bool nullout = nodata && r.chance(.5);
			if (nodata && !nullout && has(t, CYAML_FLAG_POINTER_NULL)) continue; // NULL is what there is to copy
			unsigned c = is_seq(t) ? (badcount ? 0 : copy_count(t, s.count)) : badcount ? 1 + (unsigned)r.below(5) : 0;
			void *before = to;
			in_lib = 1;
			err = cyaml_copy(cfg, sc, nodata && !nullout ? nullptr : s.data, c, nullout ? nullptr : &to);
			in_lib = 0;
			kept = lib_mallocs - lib_frees;
			if (to != before) violation("%s with wrong arguments changed the output", name.c_str());
			judged = !(nodata && !nullout); // may be found out later than the others
		} else { // free
			name = "cyaml_free";
			if (ok.empty()) { // nothing to free is no error
				in_lib = 1;
				err = cyaml_free(cfg, t, nullptr, r.chance(.5) ? 3 : 0);
				in_lib = 0;
				kept = lib_mallocs - lib_frees;
				ok.insert(CYAML_OK);
			} else {
				in_lib = 1;
				err = cyaml_free(cfg, sc, nodata ? nullptr : s.data, seq ? s.count : 0);
				in_lib = 0;
				kept = lib_mallocs - lib_frees;
			}
		}
		ST["calls"]++;
		ST[sfmt("%s: %s", name.c_str(), errname(err))]++;
		if (kept) violation("%s with wrong arguments left %ld blocks of the process heap behind", name.c_str(), kept);
		if (fd_probe() != fd) violation("%s with wrong arguments left a file open", name.c_str());
		ST.seen(mask * 8 + fn + 1000 * (uint64_t)t->type);
		if (!ok.count(err)) violation("%s with wrong arguments (mask %u) gave \"%s\" instead of \"%s\"%s", name.c_str(), mask, errname(err), errname(*ok.begin()), ok.size() > 1 ? " or another of these" : "");
		if (w.a.frees != frees && judged && fn != 5) violation("%s with wrong arguments released memory", name.c_str());
		if (judged && w.a.reqs != reqs && fn != 1 && fn != 3) violation("%s with wrong arguments asked for memory", name.c_str());
		if (have && s.sum() != s.src_sum) violation("%s with wrong arguments changed data", name.c_str());
		if (w.a.live.size() != s.src_blocks.size()) violation("%s with wrong arguments left memory behind or released some", name.c_str());
	}
	s.drop_data();
	w.finish();
}

namespace {
struct Damage { SV *x; SF *f; const char *what; cyaml_err_t load, save, copy; std::function<void()> apply; };
// reached when saved or copied, with something there
bool used(const SV *s, const Val &v, const SV *x, bool copy) {
	if (v.k == Val::NUL) return false;
	if (s == x) return true;
	if (s->type == CYAML_MAPPING) {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			const Val &k = v.kids[i];
			if (f->value.type == CYAML_IGNORE) continue;
			if (has(&f->value, CYAML_FLAG_POINTER) && (k.k == Val::NUL || (f->value.type == CYAML_SEQUENCE && k.kids.empty()))) continue;
			if (used(&f->value, k, x, copy)) return true;
		}
	} else if (is_seq(s)) for (auto &k : v.kids) if (used(s->sequence.entry, k, x, copy)) return true;
	return false;
}
bool visited_mapping(const SV *s, const Val &v, const SF *f) { // the mapping with this field
	if (v.k == Val::NUL) return false;
	if (s->type == CYAML_MAPPING) {
		size_t i = 0;
		for (const SF *q = s->mapping.fields; q->key; q++, i++) {
			if (q == f && !(has(&f->value, CYAML_FLAG_POINTER) && has(&f->value, CYAML_FLAG_OPTIONAL) && (v.kids[i].k == Val::NUL || v.kids[i].kids.empty()))) return true;
			if (q->value.type != CYAML_IGNORE && visited_mapping(&q->value, v.kids[i], f)) return true;
		}
	} else if (is_seq(s)) for (auto &k : v.kids) if (visited_mapping(s->sequence.entry, k, f)) return true;
	return false;
}
bool in_doc(const Y &y, const SV *x) {
	if (y.schema == x) {
		if (y.k != Y::SCALAR && y.k != Y::ALIAS && (!is_seq(x) || !y.kids.empty() || x->type == CYAML_SEQUENCE_FIXED)) return true;
		if (y.k == Y::SCALAR && !has(x, CYAML_FLAG_POINTER_NULL)) return true;
	}
	for (auto &k : y.kids) if (in_doc(k, x)) return true;
	return false;
}
bool bits_in_doc(const Y &y, const SV *x) {
	if (y.schema == x && y.k == Y::MAP && !y.kids.empty()) return true;
	for (auto &k : y.kids) if (bits_in_doc(k, x)) return true;
	return false;
}
}

MODE(badschema) { // C20
	Prof p = Prof::swarm(r);
	p.budget = 40;
	p.p_ign = 0;
	p.p_null *= .3;
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	vector<Damage> ds;
	std::set<SV *> entries; // of sequences
	walk_schema(&w.s.top, [&](SV *s) { if (is_seq(s)) entries.insert((SV *)s->sequence.entry); });
	walk_schema(&w.s.top, [&](SV *s) {
		const cyaml_err_t no = CYAML_ERR__COUNT;
		if (s != &w.s.top) {
			auto bad_type = (cyaml_type_e)r.pick(vector<int>{CYAML__TYPE_COUNT, CYAML__TYPE_COUNT + 1, 99, INT32_MAX});
			ds.push_back({s, nullptr, "type", CYAML_ERR_BAD_TYPE_IN_SCHEMA, CYAML_ERR_BAD_TYPE_IN_SCHEMA, CYAML_ERR_BAD_TYPE_IN_SCHEMA, [s, bad_type] { if (s->data_size == 0) s->data_size = 8; s->type = bad_type; }});
		}
		switch (s->type) {
		case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: case CYAML_ENUM: case CYAML_FLAGS: case CYAML_BITFIELD: {
			uint32_t size = r.pick(vector<uint32_t>{0, 9, 16, 64, 255, 256, 257, 264});
			ds.push_back({s, nullptr, "data size", CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, [s, size] { s->data_size = size; }});
			if (s->type == CYAML_BITFIELD && s->bitfield.count) {
				auto *b = (cyaml_bitdef_t *)s->bitfield.bitdefs;
				uint8_t bits = b->bits, off = b->offset;
				switch (r.below(4)) {
				case 0: bits = 0; break;
				case 1: bits = (uint8_t)(s->data_size * 8 - off + 1); break;
				case 2: off = (uint8_t)(s->data_size * 8 - bits + 1); break;
				default: off = 255; bits = (uint8_t)r.pick(vector<int>{1, 2, 64, 255});
				}
				ds.push_back({s, nullptr, "bit definition", CYAML_ERR_BAD_BITVAL_IN_SCHEMA, CYAML_ERR_BAD_BITVAL_IN_SCHEMA, no, [b, bits, off] { b->bits = bits; b->offset = off; }});
			}
			break;
		}
		case CYAML_FLOAT: {
			uint32_t size = r.pick(vector<uint32_t>{0, 1, 2, 3, 5, 7, 9, 16});
			ds.push_back({s, nullptr, "data size", CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, [s, size] { s->data_size = size; }});
			break;
		}
		case CYAML_STRING: {
			uint32_t mn = s->string.max == UINT32_MAX ? 1 : s->string.max + 1;
			bool cut = s->string.max == UINT32_MAX;
			ds.push_back({s, nullptr, "limits", CYAML_ERR_BAD_MIN_MAX_SCHEMA, no, no, [s, mn, cut] { if (cut) s->string.max = 0; s->string.min = mn; }});
			break;
		}
		case CYAML_SEQUENCE_FIXED:
			ds.push_back({s, nullptr, "fixed limits", CYAML_ERR_SEQUENCE_FIXED_COUNT, CYAML_ERR_SEQUENCE_FIXED_COUNT, CYAML_ERR_SEQUENCE_FIXED_COUNT, [s, &r] { s->sequence.min = r.chance(.5) ? s->sequence.max - 1 : s->sequence.max + 1; }});
			if (entries.count(s)) ds.push_back({s, nullptr, "sequence in sequence", CYAML_ERR_SEQUENCE_IN_SEQUENCE, CYAML_ERR_SEQUENCE_IN_SEQUENCE, CYAML_ERR_SEQUENCE_IN_SEQUENCE, [s] { s->type = CYAML_SEQUENCE; }});
			break;
		case CYAML_MAPPING:
			for (SF *f = (SF *)s->mapping.fields; f->key; f++) if (f->value.type == CYAML_SEQUENCE) {
				uint8_t size = (uint8_t)r.pick(vector<int>{0, 9, 12, 255});
				ds.push_back({&f->value, f, "count size", CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, CYAML_ERR_INVALID_DATA_SIZE, [f, size] { f->count_size = size; }});
			}
			break;
		default: break;
		}
	});
	if (ds.empty()) { ST["nothing_to_damage"]++; return; }
	Subject s(w);
	bool data = s.make_data(r);
	Y tree;
	Val dv;
	string doc = gen_valid_doc(w, r, &dv, &tree);
	unsigned rounds = 1 + (unsigned)r.below(6);
	for (unsigned i = 0; i < rounds; i++) {
		Damage &d = ds[r.below(ds.size())];
		bool bits = !strcmp(d.what, "bit definition");
		bool doc_uses = bits ? bits_in_doc(tree, d.x) : in_doc(tree, d.x);
		bool save_uses = data && (d.f ? visited_mapping(w.top(), s.v, d.f) : used(w.top(), s.v, d.x, false));
		// an optional one without a value is passed over
		auto is_null_seq = [&] { return d.f != nullptr; };
		SV keep = *d.x;
		SF keepf;
		cyaml_bitdef_t keepb;
		if (d.f) keepf = *d.f;
		if (bits) keepb = *d.x->bitfield.bitdefs;
		OpKind k = (OpKind)r.below(data ? 4 : 1);
		if (k == LOAD_FILE) k = LOAD;
		string before = w.s.dump();
		(void)before;
		string what = sfmt("%s damaged in schema value of type %d", d.what, (int)keep.type);
		d.apply();
		uint64_t sum = w.s.arena.checksum();
		uint64_t sum_was = w.sum;
		RUN.lazy = [&, what, before] { return what + "\nschema: " + before + "document: \"" + esc(doc, 8000) + "\"\ndata: " + esc(s.src, 8000); };
		size_t live = w.a.live.size();
		cyaml_err_t err, want;
		bool use;
		if (k == LOAD) {
			want = d.load;
			use = doc_uses;
			in_lib = 1; lib_mallocs = lib_frees = 0;
			void *out = &w; unsigned cnt = 77;
			err = cyaml_load_data((const uint8_t *)doc.data(), doc.size(), &w.cfg, w.top(), &out, w.top()->type == CYAML_SEQUENCE ? &cnt : nullptr);
			in_lib = 0;
			if (err == CYAML_OK) w.release(out, w.top()->type == CYAML_SEQUENCE ? cnt : 0);
			else if (out != &w || cnt != 77) violation("failed load changed the outputs");
		} else if (k == COPY) {
			want = d.copy;
			use = save_uses;
			void *out = nullptr;
			in_lib = 1; lib_mallocs = lib_frees = 0;
			err = cyaml_copy(&w.cfg, w.top(), s.data, copy_count(w.top(), s.count), &out);
			in_lib = 0;
			if (err == CYAML_OK) w.release(out, s.count);
			else if (out) violation("failed copy changed the output");
		} else {
			want = d.save;
			use = save_uses;
			char *out = (char *)&w; size_t len = 77;
			in_lib = 1; lib_mallocs = lib_frees = 0;
			err = cyaml_save_data(&out, &len, &w.cfg, w.top(), s.data, save_count(w.top(), s.count));
			in_lib = 0;
			if (err == CYAML_OK) w.cfg.mem_fn(w.cfg.mem_ctx, out, 0);
			else if (out != (char *)&w || len != 77) violation("failed save changed the outputs");
		}
		(void)is_null_seq;
		if (lib_mallocs != lib_frees) violation("%s with a bad schema left %ld blocks of the process heap behind", opname[k], lib_mallocs - lib_frees);
		if (w.a.live.size() != live) violation("%s with a bad schema (%s) leaves %zd blocks behind", opname[k], errname(err), (ssize_t)(w.a.live.size() - live));
		if (w.s.arena.checksum() != sum) violation("the schema was modified");
		ST["calls"]++;
		if (use && want != CYAML_ERR__COUNT) {
			ST[sfmt("%s: %s: %s", opname[k], d.what, errname(err))]++;
			ST.seen(hash_str(before, (uint64_t)k + 5 * (uint64_t)(&d - &ds[0])));
			bool either = keep.type == CYAML_BITFIELD && !strcmp(d.what, "data size") && err == CYAML_ERR_BAD_BITVAL_IN_SCHEMA; // both are true
			if ((keep.type == CYAML_ENUM || keep.type == CYAML_FLAGS) && k == LOAD && err == CYAML_ERR_INVALID_VALUE) either = true; // read as a number, which failed
			if (keep.type == CYAML_SEQUENCE && !strcmp(d.what, "type") && k >= COPY && (err == CYAML_ERR_MAPPING_FIELD_MISSING || err == CYAML_ERR_INVALID_VALUE)) either = true; // NULL for no entries, seen first
			if (err != want && !either) violation("%s with bad %s in a value of type %d gave \"%s\" instead of \"%s\"", opname[k], d.what, (int)keep.type, errname(err), errname(want));
		} else ST["not_used"]++;
		*d.x = keep;
		if (d.f) *d.f = keepf;
		if (bits) *(cyaml_bitdef_t *)d.x->bitfield.bitdefs = keepb;
		if (w.s.arena.checksum() != sum_was) harness_error("the schema was not restored");
		if (r.chance(.3)) { LoadRes l = do_load(doc, &w.cfg, w.top()); if (l.err != CYAML_OK) violation("load with the repaired schema failed: %s", errname(l.err)); w.release(l.data, l.count); }
	}
	RUN.lazy = nullptr;
	s.drop_data();
	w.finish();
}

// ------------------------------------------------------------ C21
static string no_addresses(const string &s) {
	string o;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') {
			size_t j = i + 2;
			while (j < s.size() && isxdigit((unsigned char)s[j])) j++;
			if (j - i >= 8) { o += "ADDR"; i = j; continue; }
		}
		o += s[i++];
	}
	return o;
}
static void __attribute__((noinline)) dirty_stack(uint8_t b) {
	volatile uint8_t buf[60000];
	for (size_t i = 0; i < sizeof buf; i++) buf[i] = b;
	(void)buf[17];
}
MODE(determinism) {
	Prof p = Prof::swarm(r);
	p.budget = 60;
	unsigned flags = random_cfg_flags(r);
	World w(r, p, flags, (cyaml_log_t)r.pick(vector<int>{0, 0, 2, 4}), .1);
	Subject s(w);
	string doc = gen_valid_doc(w, r);
	if (r.chance(.4)) { doc = bad_doc(w, r, doc); if (too_large(w, doc)) return; }
	s.set_doc(doc);
	bool data = s.make_data(r);
	if (r.chance(.2)) w.vr.rej = {r.next(), 5};
	w.show(doc + "\n(data) " + s.src);
	cyaml_config_t was = w.cfg;
	unsigned n = 2 + (unsigned)r.below(3);
	string base[OPS];
	bool seen[OPS] = {};
	for (unsigned i = 0; i < n * OPS; i++) {
		OpKind k = (OpKind)(i < OPS ? i : r.below(OPS));
		if (k >= COPY && !data) continue;
		if (i) { // other surroundings
			w.a.poison = (uint8_t)r.pick(vector<int>{0, 0xff, 0x01, 0x80, 0x7f, 0x5a, (int)r.below(256)});
			dirty_stack((uint8_t)r.next());
			errno = (int)r.pick(vector<int>{0, ERANGE, EINVAL, ENOMEM});
			if (r.chance(.3)) { // an unrelated call in between
				Prof q = Prof::swarm(r);
				q.budget = 20;
				auto lazy = RUN.lazy;
				{
					World o(r, q, random_cfg_flags(r));
					string d = gen_valid_doc(o, r);
					LoadRes l = do_load(d, &o.cfg, o.top());
					if (l.err == CYAML_OK) { o.a.fail_at = r.chance(.5) ? (int64_t)(o.a.reqs + r.below(20)) : -1; do_save(&o.cfg, o.top(), l.data, save_count(o.top(), l.count)); o.release(l.data, l.count); }
				}
				RUN.lazy = lazy;
			}
		}
		bool pool = i && r.chance(.4);
		std::unique_ptr<Alloc> other;
		if (pool && (k == LOAD || k == LOAD_FILE)) { // memory that was used before, in place resizing
			w.a.pool = w.a.live.empty();
		}
		w.log.lines.clear();
		w.vr.calls.clear();
		string got = s.run(k, nullptr);
		w.a.pool = false;
		for (auto &c : w.a.spare) for (auto b : c.second) { (void)b; }
		string lg;
		for (auto &l : w.log.lines) lg += sfmt("%d:", (int)l.level) + no_addresses(l.text);
		// file and memory name the source of the log differently only by address
		got += "\nlog:\n" + lg;
		for (auto &c : w.vr.calls) got += "call " + c.what + "\n";
		ST["calls"]++;
		ST["log_lines_compared"] += w.log.lines.size();
		ST.seen(hash_str(got, (uint64_t)k));
		if (!seen[k]) { base[k] = got; seen[k] = true; }
		else { if (got != base[k]) violation("%s gives another result than before: %s", opname[k], diff_at(got, base[k]).c_str()); ST["repeats_compared"]++; }
		if (memcmp(&was, &w.cfg, sizeof was)) violation("the configuration was modified");
		if (w.s.arena.checksum() != w.sum) violation("%s modified the schema", opname[k]);
	}
	if (data && seen[SAVE] && seen[SAVE_FILE]) { // bytes are the same either way
		auto cut = [](const string &x) { return x.substr(0, x.find("\nlog:\n")); };
		if (cut(base[SAVE]) != cut(base[SAVE_FILE])) violation("saving to memory and to a file differ: %s", diff_at(cut(base[SAVE_FILE]), cut(base[SAVE])).c_str());
	}
	if (seen[LOAD] && seen[LOAD_FILE] && base[LOAD] != base[LOAD_FILE]) violation("loading from memory and from a file differ: %s", diff_at(base[LOAD_FILE], base[LOAD]).c_str());
	if (r.chance(.005)) ST.sample(esc(doc, 150));
	s.drop_data();
	w.finish();
}

// ------------------------------------------------------------ C15
namespace {
// Where a save or a copy must stop: innermost last
struct Where { char kind; string key; uint64_t idx; };
bool stops(const SV *s, const Val &v, bool field, bool copy, vector<Where> &path) {
	if (v.k == Val::NUL) {
		if (has(s, CYAML_FLAG_POINTER_NULL)) return false;
		return !(field && has(s, CYAML_FLAG_OPTIONAL));
	}
	if (s->type == CYAML_MAPPING) {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			const Val &k = v.kids[i];
			if (f->value.type == CYAML_IGNORE) continue;
			path.push_back({'f', f->key, 0});
			if (stops(&f->value, k, true, copy, path)) return true;
			path.pop_back();
		}
		return false;
	}
	if (is_seq(s)) {
		for (size_t i = 0; i < v.kids.size(); i++) {
			path.push_back({'s', "", i + 1});
			if (stops(s->sequence.entry, v.kids[i], false, copy, path)) return true;
			path.pop_back();
		}
		return false;
	}
	return !copy && !save_accepts(s, v);
}
vector<string> backtrace_of(const LogRec &log, const char *head, bool &found) {
	vector<string> o;
	found = false;
	for (auto &l : log.lines) {
		if (l.text == head) { if (found) o.push_back("(a second backtrace)"); found = true; continue; }
		if (!found || l.level != CYAML_LOG_ERROR) continue;
		if (l.text.compare(0, 5, "  in ") == 0) o.push_back(l.text);
	}
	return o;
}
string join(const vector<string> &v) { string s; for (auto &x : v) s += x; return s; }
}
static size_t far_down(Rng &r) { return r.chance(.3) ? 65500 + r.below(100) : r.chance(.3) ? 200000 : ((size_t)1 << r.below(18)) + r.below(4); }
// Something wrong behind a great number of entries, or a great way to the right
static void far_off(Rng &r) {
	Alloc a;
	LogRec log;
	cyaml_config_t cfg = mk_config(&a, &log, nullptr, random_cfg_flags(r));
	cfg.log_level = CYAML_LOG_ERROR;
	a.pool = true;
	Arena ar;
	SV u, list, rec, top;
	for (SV *s : {&u, &list, &rec, &top}) memset(s, 0, sizeof *s);
	u.type = CYAML_UINT; u.data_size = 4;
	auto ptr = (cyaml_flag_e)CYAML_FLAG_POINTER;
	list.type = CYAML_SEQUENCE; list.flags = ptr; list.data_size = 4; list.sequence.entry = &u; list.sequence.max = CYAML_UNLIMITED;
	SF f[3];
	memset(f, 0, sizeof f);
	f[0].key = "list"; f[0].data_offset = 0; memcpy(&f[0].value, &list, sizeof list); f[0].count_offset = 8; f[0].count_size = 8;
	f[1].key = "number"; f[1].data_offset = 16; memcpy(&f[1].value, &u, sizeof u);
	f[1].value.flags = CYAML_FLAG_OPTIONAL;
	rec.type = CYAML_MAPPING; rec.data_size = 24; rec.mapping.fields = f;
	top.type = CYAML_SEQUENCE; top.flags = ptr; top.data_size = 24; top.sequence.entry = &rec; top.sequence.max = CYAML_UNLIMITED;
	size_t outer = r.chance(.5) ? 1 + r.below(3) : far_down(r) / 16, inner = r.chance(.2) ? r.below(3) : far_down(r);
	if (outer > 5000 || (outer > 1000 && inner > 70000)) inner = r.below(10);
	bool wide = r.chance(.5);
	string doc;
	for (size_t i = 0; i + 1 < outer; i++) doc += "- {list: []}\n";
	string item = wide ? "7, " : "\n    - 7";
	doc += wide ? "- list: [" : "- number: 2\n  list:";
	for (size_t i = 0; i < inner; i++) doc += item;
	doc += wide ? "x]\n" : "\n    - x\n";
	RUN.lazy = [&] { return sfmt("%zu entries, %zu entries in the last, %s", outer, inner, wide ? "in one line" : "in lines of their own"); };
	if (r.chance(.3)) { doc.erase(doc.size() - (wide ? 3 : 2), 1); doc.insert(doc.size() - (wide ? 2 : 1), "1"); doc += "  nothing: 1\n"; } // or behind it
	Outcome m = model_load(parse_events(doc), &top, &cfg, nullptr);
	LoadRes l = do_load(doc, &cfg, &top);
	if (m.skip) harness_error("far off: too large");
	if (l.err == CYAML_OK) {
		if (m.err != CYAML_OK) violation("accepted: %s", errname(m.err));
		do_free(&cfg, &top, l.data, l.count);
		return;
	}
	if (m.err != l.err) violation("load: %s instead of %s", errname(l.err), errname(m.err));
	vector<string> want;
	for (size_t i = m.path.size(); i-- > 0;) {
		auto &e = m.path[i];
		if (e.kind == 'f') want.push_back(sfmt("  in mapping field '%s' (line: %zu, column: %zu)\n", e.key.c_str(), e.line + 1, e.col + 1));
		else if (e.kind == 'm') want.push_back(sfmt("  in mapping (line: %zu, column: %zu)\n", e.line + 1, e.col + 1));
		else want.push_back(sfmt("  in sequence entry '%u' (line: %zu, column: %zu)\n", e.idx, e.line + 1, e.col + 1));
	}
	bool found;
	vector<string> bt = backtrace_of(log, "Load: Backtrace:\n", found);
	if (bt != want) violation("load (%s): backtrace %s", errname(l.err), diff_at(join(bt), join(want)).c_str());
	ST["far_off"]++;
	ST.seen(hash_str(join(want), inner));
	check_alloc(a, "after a failed load");
}
MODE(logs) {
	if (r.chance(.01)) { far_off(r); RUN.lazy = nullptr; return; }
	Prof p = Prof::swarm(r);
	p.budget = 60;
	World w(r, p, random_cfg_flags(r), CYAML_LOG_ERROR, .15);
	Subject s(w);
	string doc = gen_valid_doc(w, r);
	if (r.chance(.75)) { doc = bad_doc(w, r, doc); if (too_large(w, doc)) return; }
	if (r.chance(.1) && (unsigned char)doc[0] < 0x80 && doc[0] && doc.size() > 1 && doc[1]) { // somewhere further down
		doc.insert(0, far_down(r), '\n');
		ST["far_down"]++;
	}
	s.set_doc(doc);
	bool data = s.make_data(r);
	if (data && r.chance(.5)) {
		Val v = s.v;
		if (spoil(w.top(), v, r)) {
			s.drop_data();
			s.v = v;
			s.data = build_data(&w.cfg, w.top(), v, &s.count);
			s.note_source();
		}
	}
	if (r.chance(.2)) w.vr.rej = {r.next(), 4};
	w.show(doc + "\n(data) " + s.src);
	int ops[] = {r.chance(.3) ? LOAD_FILE : LOAD, COPY, r.chance(.2) ? SAVE_FILE : SAVE};
	for (int k : ops) {
		if (k >= COPY && !data) break;
		// all there is to say
		vector<LogLine> all;
		string base;
		cyaml_err_t err = CYAML_OK;
		vector<int> levels = {CYAML_LOG_DEBUG, CYAML_LOG_ERROR, CYAML_LOG_INFO, CYAML_LOG_NOTICE, CYAML_LOG_WARNING, 99};
		for (int level : levels) {
			if (level != CYAML_LOG_DEBUG && level != CYAML_LOG_ERROR && r.chance(.4)) continue;
			w.log.lines.clear();
			bool none = level == 99;
			if (none) { w.cfg.log_fn = nullptr; w.cfg.log_level = (cyaml_log_t)r.below(5); w.cfg.log_ctx = nullptr; }
			else { w.cfg.log_fn = LogRec::fn; w.cfg.log_ctx = &w.log; w.cfg.log_level = (cyaml_log_t)level; }
			int min = level;
			w.log.hook = [&, min](cyaml_log_t l) { if ((int)l < min || (int)l > CYAML_LOG_ERROR) violation("message of level %d with the level set to %d", (int)l, min); };
			string got = s.run((OpKind)k, &err);
			ST["runs"]++;
			ST["messages"] += w.log.lines.size();
			if (level == CYAML_LOG_DEBUG) { base = got; all = w.log.lines; continue; }
			if (got != base) violation("%s at log level %d: %s", opname[k], level, diff_at(got, base).c_str());
			if (none) { if (!w.log.lines.empty()) violation("messages without a log function"); continue; }
			string a, b;
			for (auto &l : all) if ((int)l.level >= level) a += sfmt("%d:", (int)l.level) + no_addresses(l.text);
			for (auto &l : w.log.lines) b += sfmt("%d:", (int)l.level) + no_addresses(l.text);
			if (a != b) violation("%s: messages at level %d are not those of that level and above: %s", opname[k], level, diff_at(b, a).c_str());
		}
		w.log.lines = all;
		bool found;
		if (k == LOAD || k == LOAD_FILE) {
			vector<string> bt = backtrace_of(w.log, "Load: Backtrace:\n", found);
			Outcome m = model_load(parse_events(doc), w.top(), &w.cfg, &w.vr.rej);
			if (err == CYAML_OK) { if (found) violation("backtrace after a successful load"); continue; }
			// whether defaults are put to the callbacks is not specified
			bool refused_default = !w.vr.calls.empty() && w.vr.rej(w.vr.calls.back().what) && has(w.vr.calls.back().schema, CYAML_FLAG_OPTIONAL) && w.vr.calls.back().what == repr(default_val(w.vr.calls.back().schema));
			if (m.skip || m.unspecified || m.any_error || m.err != err || refused_default) { ST["backtraces_not_judged"]++; continue; }
			vector<string> want;
			for (size_t i = m.path.size(); i-- > 0;) {
				auto &e = m.path[i];
				if (e.kind == 'f') want.push_back(sfmt("  in mapping field '%s' (line: %zu, column: %zu)\n", e.key.c_str(), e.line + 1, e.col + 1));
				else if (e.kind == 'm') want.push_back(sfmt("  in mapping (line: %zu, column: %zu)\n", e.line + 1, e.col + 1));
				else want.push_back(sfmt("  in sequence entry '%u' (line: %zu, column: %zu)\n", e.idx, e.line + 1, e.col + 1));
			}
			if (bt != want && err == CYAML_ERR_SEQUENCE_ENTRIES_MAX && !want.empty() && m.path.back().kind == 's') { // one too many: the entry in excess or the last good one
				auto &e = m.path.back();
				want[0] = sfmt("  in sequence entry '%u' (line: %zu, column: %zu)\n", e.idx - 1, e.line + 1, e.col + 1);
				if (bt != want) want[0] = sfmt("  in sequence entry '%u' (line: %zu, column: %zu)\n", e.idx + 1, e.line + 1, e.col + 1);
			}
			if (bt != want) violation("load (%s): backtrace %s", errname(err), diff_at(join(bt), join(want)).c_str());
			ST["load_backtraces"]++;
			ST["backtrace_lines"] += want.size();
			ST.seen(hash_str(join(want), hash_str(doc)));
			if (r.chance(.01)) ST.sample(esc(join(want), 200));
		} else {
			vector<string> bt = backtrace_of(w.log, k == COPY ? "Copy: Backtrace:\n" : "Save: Backtrace:\n", found);
			if (err == CYAML_OK) { if (found) violation("backtrace after a successful %s", opname[k]); continue; }
			vector<Where> path;
			if (!stops(w.top(), s.v, false, k == COPY, path)) { ST["backtraces_not_judged"]++; continue; }
			vector<string> want;
			for (size_t i = path.size(); i-- > 0;) {
				if (path[i].kind == 'f') want.push_back("  in mapping field: " + path[i].key + "\n");
				else want.push_back(sfmt("  in sequence entry: %llu\n", (unsigned long long)path[i].idx));
			}
			if (bt != want) violation("%s (%s): backtrace %s", opname[k], errname(err), diff_at(join(bt), join(want)).c_str());
			ST[k == COPY ? "copy_backtraces" : "save_backtraces"]++;
			ST["backtrace_lines"] += want.size();
			ST.seen(hash_str(join(want), hash_str(s.src)));
		}
	}
	w.cfg.log_fn = nullptr;
	s.drop_data();
	w.finish();
}
