// Modes about saving and copying: C07 C08 C09 C13 C18
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>

// What a document saved without the ignored fields needs to be loaded again.
static void ignored_optional(World &w) {
	walk_schema(&w.s.top, [](SV *s) { if (s->type == CYAML_IGNORE) s->flags = (cyaml_flag_e)(s->flags | CYAML_FLAG_OPTIONAL); });
	w.seal();
}
// Client data for saving; false if there is nothing that can be saved.
static bool make_data(World &w, Rng &r, void **data, unsigned *count, Val *val, bool longs = false) {
	long budget = 150 + (long)r.below(500);
	ValOpts o = random_valopts(r, &budget);
	o.for_save = true;
	if (longs) o.longs = true;
	Val v = gen_val(w.top(), r, o);
	if (v.k == Val::NUL || (w.top()->type == CYAML_SEQUENCE && v.kids.empty())) return false;
	*data = build_data(&w.cfg, w.top(), v, count);
	*val = std::move(v);
	return true;
}
static string top_repr(World &w, void *data, unsigned count, bool check = true) { return repr(extract_top(w.top(), data, count, &w.a, check)); }
static uint64_t blocks_sum(Alloc &a, const ExtractCtx &x) {
	uint64_t h = 0;
	for (auto &b : x.reached) h += hash_bytes(b.first, a.live.at(b.first), (uint64_t)(uintptr_t)b.first);
	return h;
}

MODE(roundtrip) { // C07
	Prof p = Prof::swarm(r);
	p.p_sstyle = r.pick(vector<double>{0, .3, .7});
	p.p_style = r.pick(vector<double>{0, .3, .7});
	p.longs = r.chance(.2);
	World w(r, p, random_cfg_flags(r));
	ignored_optional(w);
	void *data;
	unsigned count;
	Val v;
	if (!make_data(w, r, &data, &count, &v, p.longs)) { ST["nothing_to_save"]++; return; }
	string src = top_repr(w, data, count);
	w.show("(not saved yet) " + src);
	vector<SEv> evs = save_events(w.top(), v, &w.cfg);
	bool file = r.chance(.25);
	string path = scratch_path("roundtrip.yaml");
	SaveRes s;
	if (file) {
		s = do_save_file(path, &w.cfg, w.top(), data, save_count(w.top(), count));
		if (s.err == CYAML_OK && !read_file(path, s.out)) violation("the saved file cannot be read");
		ST["files"]++;
	} else s = do_save(&w.cfg, w.top(), data, save_count(w.top(), count));
	note_outcome(s.err, "save");
	bool good = reference_good(evs, &w.cfg);
	if (!good) { ST["libyaml_limit"]++; w.release(data, count); w.finish(); return; }
	if (s.err != CYAML_OK) violation("data which the schema can represent were not saved: %s; %s", errname(s.err), esc(src, 3000).c_str());
	w.show(s.out);
	LoadRes l;
	if (file && r.chance(.5)) l = do_load_file(path, &w.cfg, w.top());
	else l = do_load(s.out, &w.cfg, w.top());
	ST["round_trips"]++;
	ST.seen(hash_str(s.out, w.sum));
	if (l.err != CYAML_OK) violation("the saved document does not load again: %s", errname(l.err));
	string back = top_repr(w, l.data, l.count);
	if (back != src || l.count != count * (w.top()->type == CYAML_SEQUENCE)) violation("data changed on the way: %s", diff_at(back, src).c_str());
	if (top_repr(w, data, count) != src) violation("saving or loading changed the source data");
	ST["values_compared"] += (uint64_t)std::count(src.begin(), src.end(), ',') + 1;
	if (r.chance(.005)) ST.sample(esc(s.out, 200));
	w.release(l.data, l.count);
	w.release(data, count);
	w.finish();
}

// Scalars of each kind by themselves, many per case.
MODE(scalars) { // C07
	Schema s;
	memset(&s.top, 0, sizeof s.top);
	SV *t = &s.top;
	vector<cyaml_strval_t> names;
	vector<cyaml_bitdef_t> bits;
	vector<string> text;
	static const vector<int> types = {CYAML_INT, CYAML_UINT, CYAML_FLOAT, CYAML_FLOAT, CYAML_STRING, CYAML_STRING, CYAML_ENUM, CYAML_FLAGS, CYAML_BITFIELD};
	t->type = (cyaml_type_e)r.pick(types);
	unsigned fl = CYAML_FLAG_POINTER;
	if (r.chance(.6)) fl |= 1u << (9 + r.below(5));
	if (r.chance(.2)) fl |= r.chance(.5) ? CYAML_FLAG_POINTER_NULL : CYAML_FLAG_POINTER_NULL_STR;
	if (r.chance(.3)) fl |= CYAML_FLAG_STRICT;
	t->flags = (cyaml_flag_e)fl;
	t->data_size = t->type == CYAML_FLOAT ? (r.chance(.5) ? 4 : 8) : 1 + (uint32_t)r.below(8);
	unsigned nb = t->data_size * 8;
	text.reserve(16);
	if (t->type == CYAML_ENUM || t->type == CYAML_FLAGS) {
		for (unsigned i = 0, n = 1 + (unsigned)r.below(8); i < n; i++) text.push_back(sfmt("v%u", i));
		for (auto &x : text) {
			uint64_t u = r.next() & (UINT64_MAX >> (64 - nb));
			if (r.chance(.6)) u = (uint64_t)1 << r.below(nb);
			if (t->type == CYAML_ENUM && r.chance(.7)) { uint64_t b = (uint64_t)1 << (nb - 1); u = (u ^ b) - b; }
			names.push_back({x.c_str(), (int64_t)u});
		}
		t->enumeration.strings = names.data();
		t->enumeration.count = (uint32_t)names.size();
	} else if (t->type == CYAML_BITFIELD) {
		unsigned pos = 0;
		for (unsigned i = 0; i < 12 && pos < nb; i++) {
			unsigned n = 1 + (unsigned)r.below(r.chance(.3) ? nb - pos : std::min(nb - pos, 9u));
			text.push_back(sfmt("b%u", i));
			bits.push_back({text.back().c_str(), (uint8_t)pos, (uint8_t)n});
			pos += n;
		}
		t->bitfield.bitdefs = bits.data();
		t->bitfield.count = (uint32_t)bits.size();
	} else if (t->type == CYAML_STRING) { t->data_size = 0; t->string.max = UINT32_MAX; }
	Alloc a; LogRec log;
	a.poison = (uint8_t)(r.next() | 1);
	cyaml_config_t cfg = mk_config(&a, &log, nullptr, random_cfg_flags(r));
	for (int k = 0; k < 20; k++) {
		long budget = 10;
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		Val v;
		do v = gen_val(t, r, o); while (v.k == Val::NUL);
		string src = repr(v), doc;
		RUN.lazy = [&] { return s.dump() + "value: " + src + "\ndocument: \"" + esc(doc, 4000) + "\""; };
		unsigned count;
		void *data = build_data(&cfg, t, v, &count);
		SaveRes sv = do_save(&cfg, t, data, 0);
		note_outcome(sv.err, "save");
		vector<SEv> evs = save_events(t, v, &cfg);
		if (!reference_good(evs, &cfg)) { ST["libyaml_limit"]++; do_free(&cfg, t, data, 0); continue; }
		if (sv.err != CYAML_OK) violation("a value which the schema can represent was not saved: %s", errname(sv.err));
		doc = sv.out;
		LoadRes l = do_load(doc, &cfg, t);
		ST["round_trips"]++;
		ST.seen(hash_str(doc, t->type * 31 + t->data_size));
		if (l.err != CYAML_OK) violation("the saved document does not load again: %s", errname(l.err));
		string back = repr(extract_top(t, l.data, 0, &a));
		if (back != src) violation("value changed on the way: %s", diff_at(back, src).c_str());
		if (k == 0 && r.chance(.005)) ST.sample(src.substr(0, 100) + " <=> " + esc(doc, 100));
		do_free(&cfg, t, l.data, 0);
		do_free(&cfg, t, data, 0);
		check_alloc(a, "after a round trip");
	}
	RUN.lazy = nullptr;
}

MODE(copy) { // C08
	Prof p = Prof::swarm(r);
	p.p_null = std::max(p.p_null, .2);
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	bool flat = false;
	if (r.chance(.25) && w.top()->type != CYAML_STRING) { // the target is the caller's own storage
		w.s.top.flags = (cyaml_flag_e)(w.s.top.flags & ~(CYAML_FLAG_POINTER | CYAML_FLAG_POINTER_NULL_STR));
		if (w.s.top.type == CYAML_SEQUENCE) w.s.top.sequence.max = std::min(w.s.top.sequence.max, 40u);
		if (w.s.top.type == CYAML_SEQUENCE) w.s.top.sequence.min = std::min(w.s.top.sequence.min, w.s.top.sequence.max);
		if (w.s.top.type != CYAML_SEQUENCE || w.s.top.sequence.max > 0) flat = true;
		else return;
		w.seal();
	}
	const SV *top = w.top();
	void *data = nullptr;
	unsigned count = 0;
	size_t size = 0;
	if (flat) {
		long budget = 300;
		ValOpts o = random_valopts(r, &budget);
		o.for_save = r.chance(.5);
		Val v = gen_val(top, r, o);
		v = expected_of(top, v);
		if (top->type == CYAML_SEQUENCE && v.kids.empty()) return;
		count = (unsigned)v.kids.size() * (unsigned)is_seq(top);
		size = is_seq(top) ? (size_t)top->data_size * count : top->data_size;
		data = calloc(1, size);
		store(top, v, (uint8_t *)data, [&](size_t n) { void *m = w.cfg.mem_fn(w.cfg.mem_ctx, nullptr, n ? n : 1); memset(m, 0, n ? n : 1); return m; });
	} else if (r.chance(.5)) {
		Val v;
		if (!make_data(w, r, &data, &count, &v)) return;
	} else {
		string doc = gen_valid_doc(w, r);
		w.show(doc);
		LoadRes l = do_load(doc, &w.cfg, top);
		if (l.err != CYAML_OK) violation("a conforming document was rejected: %s", errname(l.err));
		data = l.data;
		count = l.count;
	}
	if (copy_count(top, count) == 0 && is_seq(top)) { if (flat) harness_error("no entries"); w.release(data, count); return; }
	bool whole = false;
	void *taken = nullptr;
	auto view = [&](void *d, ExtractCtx &x) {
		x.a = &w.a;
		Val v = extract(top, flat ? (const uint8_t *)d : (const uint8_t *)&d, count, &x);
		if (!x.err.empty()) violation("%s", x.err.c_str());
		if (&x.reached == taken) whole = copy_accepts(top, v);
		return repr(v);
	};
	ExtractCtx x, y;
	taken = &x.reached;
	string src = view(data, x);
	w.show("(no document) " + src);
	uint64_t sum = blocks_sum(w.a, x), flat_sum = flat ? hash_bytes(data, size) : 0;
	void *out = nullptr;
	if (flat) { out = malloc(size); memset(out, 0x77, size); }
	cyaml_err_t err;
	void *target = out;
	in_lib = 1; lib_mallocs = lib_frees = 0;
	err = cyaml_copy(&w.cfg, top, data, copy_count(top, count), (cyaml_data_t **)&target);
	in_lib = 0;
	if (lib_mallocs != lib_frees) violation("copy left %ld blocks of the process heap behind", lib_mallocs - lib_frees);
	note_outcome(err, "copy");
	bool null_top = data == nullptr;
	if (!whole) { // required pointers are NULL, in something optional that is stored inline
		ST["required_null"]++;
		if (err == CYAML_OK) { ST["required_null_copied"]++; if (!flat) out = target; do_free(&w.cfg, top, out, count); }
		else if (target != out) violation("failed copy changed the caller's output");
		if (w.a.live.size() != x.reached.size()) violation("failed copy leaves %zu blocks behind", w.a.live.size() - x.reached.size());
		if (do_free(&w.cfg, top, data, count) != CYAML_OK) violation("free failed");
		if (flat) { free(data); free(out); }
		return w.finish();
	}
	if (err != CYAML_OK) violation("copy failed: %s", errname(err));
	if (flat && target != out) violation("copy replaced the caller's target");
	if (!flat) out = target;
	ST["copies"]++;
	ST.seen(hash_str(src, w.sum));
	string got = view(out, y);
	if (got != src) violation("the copy differs: %s", diff_at(got, src).c_str());
	for (auto &b : y.reached) if (x.reached.count(b.first)) violation("copy and source share memory");
	if (w.a.live.size() != x.reached.size() + y.reached.size()) violation("copying leaves %zu blocks; source and copy are made of %zu", w.a.live.size(), x.reached.size() + y.reached.size());
	if (blocks_sum(w.a, x) != sum || (flat && hash_bytes(data, size) != flat_sum)) violation("the source was modified by the copy");
	ST["blocks_copied"] += y.reached.size();
	if (!null_top && r.chance(.3)) { // strings and numbers of one changed, the other must stay
		bool which = r.chance(.5);
		ExtractCtx &m = which ? x : y;
		vector<std::pair<void *, string>> keep;
		for (auto &b : m.reached) { keep.push_back({b.first, string((char *)b.first, w.a.live.at(b.first))}); memset(b.first, 0x5a, w.a.live.at(b.first)); }
		ExtractCtx z;
		string other = view(which ? out : data, z);
		if (other != src) violation("altering the %s changed the other: %s", which ? "source" : "copy", diff_at(other, src).c_str());
		for (auto &k : keep) memcpy(k.first, k.second.data(), k.second.size());
		ST["altered"]++;
	}
	bool first = r.chance(.5);
	auto drop = [&](void *d) {
		if (do_free(&w.cfg, top, d, count) != CYAML_OK) violation("free failed");
	};
	drop(first ? data : out);
	ExtractCtx z;
	string rest = view(first ? out : data, z);
	if (rest != src) violation("releasing the %s changed the other: %s", first ? "source" : "copy", diff_at(rest, src).c_str());
	if (r.chance(.3)) { // a copy of what is left
		void *again = nullptr;
		if (flat) { again = malloc(size); memset(again, 0x11, size); }
		void *t2 = again;
		err = cyaml_copy(&w.cfg, top, first ? out : data, copy_count(top, count), (cyaml_data_t **)&t2);
		if (err != CYAML_OK) violation("copy of a copy failed: %s", errname(err));
		ExtractCtx q;
		string g = view(t2, q);
		if (g != src) violation("the copy of a copy differs: %s", diff_at(g, src).c_str());
		drop(t2);
		if (flat) free(again);
	}
	drop(first ? out : data);
	if (flat) { free(data); free(out); ST["flat_targets"]++; }
	if (r.chance(.005)) ST.sample(esc(src, 200));
	w.finish();
}

MODE(save) { // C09
	Prof p = Prof::swarm(r);
	p.p_sstyle = r.pick(vector<double>{0, .3, .8});
	p.p_style = r.pick(vector<double>{0, .3, .8});
	World w(r, p, random_cfg_flags(r));
	void *data;
	unsigned count;
	Val v;
	if (r.chance(.7)) {
		if (!make_data(w, r, &data, &count, &v)) { ST["nothing_to_save"]++; return; }
	} else {
		long budget = 150 + (long)r.below(500);
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		v = gen_val(w.top(), r, o);
		if (v.k == Val::NUL || (w.top()->type == CYAML_SEQUENCE && v.kids.empty())) return;
		if (spoil(w.top(), v, r)) ST["unsavable_data"]++;
		data = build_data(&w.cfg, w.top(), v, &count);
	}
	bool can = save_accepts(w.top(), v);
	string src = top_repr(w, data, count);
	w.show("(not saved yet) " + src);
	SaveRes s = do_save(&w.cfg, w.top(), data, save_count(w.top(), count));
	note_outcome(s.err, "save");
	ST["saves"]++;
	ST.seen(hash_str(src, w.sum));
	if (s.mallocs != 0) violation("save left %ld blocks of the process heap behind", s.mallocs);
	if (s.err != CYAML_OK) {
		if (s.outputs_touched) violation("failed save changed the caller's outputs");
		if (s.blocks) violation("failed save left %zu blocks behind", s.blocks);
	}
	vector<SEv> evs;
	bool good = false;
	if (can) {
		evs = save_events(w.top(), v, &w.cfg);
		good = reference_good(evs, &w.cfg);
		if (good && s.err != CYAML_OK) violation("data which can be saved were refused: %s", errname(s.err));
		if (!good) ST["libyaml_limit"]++;
	} else if (s.err == CYAML_OK) violation("data which cannot be represented were saved: %s", esc(s.out, 2000).c_str());
	else if (s.err != (all_text(v) ? CYAML_ERR_INVALID_VALUE : CYAML_ERR_LIBYAML_EVENT_INIT)) violation("data which cannot be represented gave %s", errname(s.err));
	if (s.err == CYAML_OK) {
		w.show(s.out);
		string e = compare_saved(s.out, evs, &w.cfg, true);
		if (!e.empty()) violation("%s", e.c_str());
		ST["nodes_compared"] += evs.size();
		if (r.chance(.005)) ST.sample(esc(s.out, 200));
	}
	if (r.chance(.4)) {
		string path = scratch_path("save.yaml"), got;
		if (r.chance(.5)) write_scratch(path, "old contents\n" + string(r.below(3000), 'x'));
		SaveRes f = do_save_file(path, &w.cfg, w.top(), data, save_count(w.top(), count));
		if (f.err != s.err) violation("saving to a file: %s; to memory: %s", errname(f.err), errname(s.err));
		if (f.mallocs != 0) violation("save to a file left %ld blocks of the process heap behind", f.mallocs);
		if (f.fd_before != f.fd_after) violation("save to a file left a file open");
		if (f.blocks) violation("save to a file left %zu blocks behind", f.blocks);
		if (f.err == CYAML_OK) {
			if (!read_file(path, got)) violation("the saved file cannot be read");
			if (got != s.out) violation("saving to a file wrote other bytes: %s", diff_at(got, s.out).c_str());
			ST["files_compared"]++;
		}
		unlink(path.c_str());
	}
	if (top_repr(w, data, count) != src) violation("saving changed the source data");
	w.release(data, count);
	w.finish();
}

MODE(iofault) { // C13
	Prof p = Prof::swarm(r);
	World w(r, p, random_cfg_flags(r));
	ignored_optional(w);
	void *data;
	unsigned count;
	Val v;
	if (!make_data(w, r, &data, &count, &v, r.chance(.3))) { ST["nothing_to_save"]++; return; }
	SaveRes s = do_save(&w.cfg, w.top(), data, save_count(w.top(), count));
	if (s.err != CYAML_OK) { ST["not_saved_at_all"]++; w.release(data, count); return; }
	const string &want = s.out;
	w.show(want);
	string path = scratch_path("iofault.yaml"), got;
	auto common = [&](const SaveRes &f, const char *what) {
		note_outcome(f.err, what);
		if (f.mallocs != 0) violation("%s: save left %ld blocks of the process heap behind", what, f.mallocs);
		if (f.fd_before != f.fd_after) violation("%s: save left a file open", what);
		if (f.blocks) violation("%s: save left %zu blocks behind", what, f.blocks);
	};
	unsigned rounds = 3 + (unsigned)r.below(6);
	for (unsigned i = 0; i < rounds; i++) {
		int64_t at = -1;
		switch (r.below(5)) {
		case 0: at = 0; break;
		case 1: at = (int64_t)want.size() - 1; break;
		case 2: at = (int64_t)r.below(want.size()); break;
		case 3: at = (int64_t)(want.size() / 4096 * 4096); if (at >= (int64_t)want.size()) at = 0; break;
		default: at = (int64_t)r.below(std::min<uint64_t>(want.size(), 20)); break;
		}
		unsigned kind = (unsigned)r.below(8);
		ST["faulted_saves"]++;
		ST.seen(hash_str(want, (uint64_t)at * 16 + kind));
		if (kind < 4) { // a stream that fails on the way or when closed
			IO = IoPlan();
			IO.armed = true;
			IO.rng = Rng(r.next());
			IO.bufsize = r.pick(vector<int>{-1, 0, 1, 16, 512, 4096, 65536});
			IO.err = r.pick(vector<int>{EIO, ENOSPC, EDQUOT, EPIPE, EFBIG});
			if (kind < 2) { IO.fail_at = at; IO.once = r.chance(.3); }
			else if (kind == 2) IO.fail_close = true;
			else if (r.chance(.5)) IO.fail_open = true;
			string what = kind < 2 ? "write error" : kind == 2 ? "close error" : IO.fail_open ? "open error" : "no error";
			string out, ctx = sfmt("%s at byte %lld, stream buffer %d: ", what.c_str(), (long long)IO.fail_at, IO.bufsize);
			SaveRes f = do_save_file(path, &w.cfg, w.top(), data, save_count(w.top(), count));
			IO.armed = false;
			if (IO.opens == 0) { ST["stream_not_used"]++; continue; }
			common(f, what.c_str());
			if (f.err == CYAML_OK && IO.errors && !IO.once) violation("%ssaving reported success", ctx.c_str());
			if (f.err == CYAML_OK && IO.written != want) violation("%ssaving reported success with %zu of %zu bytes written", ctx.c_str(), IO.written.size(), want.size());
			if (f.err != CYAML_OK && !IO.errors) violation("%ssaving failed without any fault: %s", ctx.c_str(), errname(f.err));
			if (IO.fail_open && f.err != CYAML_ERR_FILE_OPEN) violation("opening failed, and the result was: %s", errname(f.err));
			if (!IO.fail_open && IO.closes != 1) violation("%sthe stream was closed %u times", ctx.c_str(), IO.closes);
			if (IO.errors) ST["stream_errors"]++;
			if (kind == 2) ST["close_errors"]++;
		} else if (kind == 4) { // size limit of the process
			struct rlimit old, lim;
			getrlimit(RLIMIT_FSIZE, &old);
			lim = old;
			lim.rlim_cur = (rlim_t)at;
			unlink(path.c_str());
			if (setrlimit(RLIMIT_FSIZE, &lim)) { ST["no_rlimit"]++; continue; }
			SaveRes f = do_save_file(path, &w.cfg, w.top(), data, save_count(w.top(), count));
			setrlimit(RLIMIT_FSIZE, &old);
			common(f, "file size limit");
			if (f.err == CYAML_OK) violation("saving reported success with %zu bytes where only %lld could be written", want.size(), (long long)at);
			ST["size_limited"]++;
		} else if (kind == 5) {
			SaveRes f = do_save_file("/dev/full", &w.cfg, w.top(), data, save_count(w.top(), count));
			common(f, "full device");
			if (f.err == CYAML_OK) violation("saving to a full device reported success");
			ST["full_device"]++;
		} else if (kind == 6) {
			string bad = r.pick({"missing/dir/x.yaml", "", "file/x.yaml", "."});
			if (!bad.empty()) bad = bad == "." ? RUN.scratch : RUN.scratch + "/" + bad;
			if (r.chance(.2)) bad = RUN.scratch + "/" + string(300, 'n');
			write_scratch(RUN.scratch + "/file", "x");
			SaveRes f = do_save_file(bad, &w.cfg, w.top(), data, save_count(w.top(), count));
			common(f, "bad path");
			if (f.err == CYAML_OK) violation("saving to \"%s\" reported success", bad.c_str());
			if (f.err != CYAML_ERR_FILE_OPEN) violation("opening failed, and the result was: %s", errname(f.err));
			ST["bad_paths"]++;
		} else { // all is well
			if (r.chance(.4)) { // something is there already
				string old(r.below(want.size() * 2 + 20), 'o');
				if (r.chance(.5)) for (auto &c : old) c = (char)r.below(256);
				write_scratch(path, old);
				ST["replaced_files"]++;
			}
			SaveRes f = do_save_file(path, &w.cfg, w.top(), data, save_count(w.top(), count));
			common(f, "good file");
			if (f.err != CYAML_OK) violation("saving to a good file failed: %s", errname(f.err));
			if (!read_file(path, got) || got != want) violation("saving reported success, but the file holds other bytes: %s", diff_at(got, want).c_str());
			ST["good_files"]++;
		}
	}
	if (r.chance(.005)) ST.sample(sfmt("%u saves of %zu bytes: ", rounds, want.size()) + esc(want, 100));
	unlink(path.c_str());
	w.release(data, count);
	w.finish();
}

// replace scalars by what may denote NULL
static void nullify(Y &y, Rng &r, double p) {
	if (y.k == Y::SCALAR) {
		if (y.schema && r.chance(p)) { y.text = r.pick({"", "", "~", "null", "Null", "NULL", "nULL", "nul", " ", "~ ", "none", "nil", "NIL"}); y.quoted = r.chance(.4); }
		return;
	}
	if (y.schema && r.chance(p * .3)) { const SV *s = y.schema; y = mk_scalar(r.pick({"", "~", "null", "NULL", "NuLL"})); y.schema = s; y.quoted = r.chance(.3); return; }
	for (size_t i = 0; i < y.kids.size(); i++) if (y.k != Y::MAP || i % 2) nullify(y.kids[i], r, p);
}
static uint64_t count_nulls(const Val &v) {
	if (v.k == Val::NUL) return 1;
	uint64_t n = 0;
	for (auto &k : v.kids) n += count_nulls(k);
	return n;
}
MODE(nulls) { // C18
	Prof p = Prof::swarm(r);
	p.p_ptr = r.pick(vector<double>{.5, .9});
	p.p_null = r.pick(vector<double>{.3, .8});
	p.p_nullstr = r.pick(vector<double>{0, .25, .5});
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	if (r.chance(.5)) { // loading
		Y y;
		gen_valid_doc(w, r, nullptr, &y);
		unsigned rounds = 1 + (unsigned)r.below(4);
		for (unsigned i = 0; i < rounds; i++) {
			Y z = y;
			nullify(z, r, r.pick(vector<double>{.03, .15, .6}));
			if (r.chance(.15)) random_anchors(z, r);
			if (r.chance(.15) && w.cfg.flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS) ST["anchored_where_ignored"] += anchor_unread(z, r, 2, &w.cfg);
			string doc = render(z, r, Present::random(r));
			w.show(doc);
			Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
			if (m.skip) continue;
			LoadRes l = do_load(doc, &w.cfg, w.top());
			ST["loads"]++;
			note_outcome(l.err, "load");
			ST.seen(hash_str(doc, w.sum));
			string e = judge_load(m, l, w.top(), &w.a);
			if (!e.empty()) violation("%s", e.c_str());
			if (l.err == CYAML_OK) {
				Val v = extract_top(w.top(), l.data, l.count, &w.a);
				ST["nulls_loaded"] += count_nulls(v);
				if (r.chance(.005)) ST.sample(esc(doc, 150));
				string src = repr(v);
				if (l.data || !is_seq(w.top())) {
					unsigned cc = copy_count(w.top(), l.count);
					if (!(is_seq(w.top()) && cc == 0)) {
						CopyRes c = do_copy(&w.cfg, w.top(), l.data, cc);
						bool null_top_ok = copy_accepts(w.top(), v);
						if (c.err != CYAML_OK && null_top_ok) violation("copy of data with NULLs failed: %s", errname(c.err));
						if (c.err == CYAML_OK) {
							string g = repr(extract_top(w.top(), c.data, l.count, &w.a));
							if (g != src) violation("copy of data with NULLs differs: %s", diff_at(g, src).c_str());
							ST["nulls_copied"] += count_nulls(v);
							w.release(c.data, l.count);
						}
					}
				}
				w.release(l.data, l.count);
			} else w.check_failed(l, "load");
		}
	} else { // saving
		long budget = 200 + (long)r.below(300);
		ValOpts o = random_valopts(r, &budget);
		o.for_save = true;
		o.p_null = r.pick(vector<double>{.3, .8});
		o.p_absent = r.pick(vector<double>{.2, .8});
		Val v = gen_val(w.top(), r, o);
		if (v.k == Val::NUL || (w.top()->type == CYAML_SEQUENCE && v.kids.empty())) return;
		if (r.chance(.35)) spoil(w.top(), v, r);
		unsigned count;
		void *data = build_data(&w.cfg, w.top(), v, &count);
		bool can = save_accepts(w.top(), v);
		w.show("(not saved yet) " + repr(v));
		SaveRes s = do_save(&w.cfg, w.top(), data, save_count(w.top(), count));
		note_outcome(s.err, "save");
		ST["saves"]++;
		ST.seen(hash_str(repr(v), w.sum));
		if (can) {
			vector<SEv> evs = save_events(w.top(), v, &w.cfg);
			if (!reference_good(evs, &w.cfg)) ST["libyaml_limit"]++;
			else {
				if (s.err != CYAML_OK) violation("data with NULLs where they may be were refused: %s", errname(s.err));
				w.show(s.out);
				string e = compare_saved(s.out, evs, &w.cfg, false);
				if (!e.empty()) violation("%s", e.c_str());
				ST["nulls_saved"] += count_nulls(v);
			}
		} else if (s.err != (all_text(v) ? CYAML_ERR_INVALID_VALUE : CYAML_ERR_LIBYAML_EVENT_INIT)) violation("a NULL, or a value, that cannot be represented gave %s", errname(s.err));
		else ST["refused"]++;
		unsigned cc = copy_count(w.top(), count);
		if (!is_seq(w.top()) || cc) {
			string src = repr(extract_top(w.top(), data, count, &w.a));
			size_t held = w.a.live.size();
			CopyRes c = do_copy(&w.cfg, w.top(), data, cc);
			note_outcome(c.err, "copy");
			if (copy_accepts(w.top(), v)) {
				if (c.err != CYAML_OK) violation("copy of data with NULLs where they may be failed: %s", errname(c.err));
				string g = repr(extract_top(w.top(), c.data, count, &w.a));
				if (g != src) violation("copy of data with NULLs differs: %s", diff_at(g, src).c_str());
				ST["nulls_copied"] += count_nulls(v);
				w.release(c.data, count);
			} else {
				if (c.err == CYAML_OK) violation("data with a NULL where one may not be were copied");
				if (c.outputs_touched || w.a.live.size() != held) violation("a refused copy left something behind");
				ST["copies_refused"]++;
			}
		}
		w.release(data, count);
	}
	w.finish();
}
