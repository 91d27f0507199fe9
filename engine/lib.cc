// Running the library under the monitors.
#include "core.h"
#include <unistd.h>

static void *const SENT_P = (void *)(uintptr_t)0x5eedbeef5eed0000ull;
static const unsigned SENT_C = 0x5eed5eedu;


cyaml_config_t mk_config(Alloc *a, LogRec *log, ValRec *val, unsigned flags, cyaml_log_t level) {
	cyaml_config_t c;
	memset(&c, 0, sizeof c);
	c.mem_fn = Alloc::fn;
	c.mem_ctx = a;
	c.log_fn = log ? LogRec::fn : nullptr;
	c.log_ctx = log;
	c.log_level = level;
	c.flags = (cyaml_cfg_flags_t)flags;
	c.validation_ctx = val;
	return c;
}
unsigned random_cfg_flags(Rng &r) {
	unsigned f = 0;
	if (r.chance(.35)) f |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	if (r.chance(.25)) f |= CYAML_CFG_STYLE_BLOCK;
	if (r.chance(.25)) f |= CYAML_CFG_STYLE_FLOW;
	if (r.chance(.3)) f |= CYAML_CFG_DOCUMENT_DELIM;
	if (r.chance(.35)) f |= CYAML_CFG_CASE_INSENSITIVE;
	if (r.chance(.08)) f |= CYAML_CFG_NO_ALIAS;
	if (r.chance(.3)) f |= CYAML_CFG_IGNORED_KEY_WARNING;
	return f;
}

namespace {
struct Enter {
	int saved;
	Enter() : saved(in_lib) { lib_mallocs = lib_frees = 0; in_lib = 1; }
	~Enter() { in_lib = saved; }
};
struct Guarded { // a byte buffer of exactly that size, watched for changes
	uint8_t *p; size_t n; uint64_t h;
	explicit Guarded(const string &s) : n(s.size()) {
		p = (uint8_t *)malloc(n ? n : 1);
		memcpy(p, s.data(), n);
		h = hash_bytes(p, n);
	}
	bool same() const { return hash_bytes(p, n) == h; }
	~Guarded() { free(p); }
};
}
static void result_code(cyaml_err_t e, const char *what) {
	if ((unsigned)e >= CYAML_ERR__COUNT) violation("%s returned %d, which is no result code", what, (int)e);
}

static LoadRes load_any(const string *doc, const string *path, const cyaml_config_t *cfg, const SV *top) {
	LoadRes l;
	void *data = SENT_P;
	unsigned count = SENT_C;
	cyaml_config_t before = *cfg;
	unsigned *cp = top->type == CYAML_SEQUENCE ? &count : nullptr;
	l.fd_before = fd_probe();
	if (doc) {
		Guarded g(*doc);
		{ Enter e; l.err = cyaml_load_data(g.p, g.n, cfg, top, &data, cp); }
		l.mallocs = lib_mallocs - lib_frees;
		if (!g.same()) violation("the input document was modified by the load");
	} else {
		{ Enter e; l.err = cyaml_load_file(path->c_str(), cfg, top, &data, cp); }
		l.mallocs = lib_mallocs - lib_frees;
	}
	l.fd_after = fd_probe();
	result_code(l.err, "load");
	if (memcmp(&before, cfg, sizeof before)) violation("the configuration was modified by the load");
	l.outputs_touched = data != SENT_P || count != SENT_C;
	l.data = l.err == CYAML_OK ? data : nullptr;
	l.count = l.err == CYAML_OK && cp ? count : 0;
	if (l.err == CYAML_OK && data == SENT_P) violation("load reported success without setting the data output");
	if (l.err == CYAML_OK && cp && count == SENT_C) violation("load reported success without setting the count output");
	return l;
}
LoadRes do_load(const string &doc, const cyaml_config_t *cfg, const SV *top) { return load_any(&doc, nullptr, cfg, top); }
LoadRes do_load_file(const string &path, const cyaml_config_t *cfg, const SV *top) { return load_any(nullptr, &path, cfg, top); }

SaveRes do_save(const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count) {
	SaveRes s;
	char *out = (char *)SENT_P;
	size_t len = 0x5eed5eed5eedull;
	Alloc *a = (Alloc *)cfg->mem_ctx;
	size_t live = a ? a->live.size() : 0;
	s.fd_before = fd_probe();
	{ Enter e; s.err = cyaml_save_data(&out, &len, cfg, top, data, count); }
	s.mallocs = lib_mallocs - lib_frees;
	s.fd_after = fd_probe();
	result_code(s.err, "save");
	s.outputs_touched = out != (char *)SENT_P || len != 0x5eed5eed5eedull;
	s.blocks = a ? a->live.size() - live : 0;
	if (s.err == CYAML_OK) {
		if (out == (char *)SENT_P || len == 0x5eed5eed5eedull) violation("save reported success without setting its outputs");
		if (a && out) {
			auto it = a->live.find(out);
			if (it == a->live.end()) violation("saved document is not a live block of the client allocator");
			if (it->second < len) violation("saved document of %zu bytes in a block of %zu", len, it->second);
		}
		if (out) s.out.assign(out, len);
		cfg->mem_fn(cfg->mem_ctx, out, 0);
	}
	return s;
}
SaveRes do_save_file(const string &path, const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count) {
	SaveRes s;
	Alloc *a = (Alloc *)cfg->mem_ctx;
	size_t live = a ? a->live.size() : 0;
	s.fd_before = fd_probe();
	{ Enter e; s.err = cyaml_save_file(path.c_str(), cfg, top, data, count); }
	s.mallocs = lib_mallocs - lib_frees;
	s.fd_after = fd_probe();
	result_code(s.err, "save to file");
	s.outputs_touched = false;
	s.blocks = a ? a->live.size() - live : 0;
	return s;
}
CopyRes do_copy(const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count) {
	CopyRes c;
	void *out = nullptr;
	{ Enter e; c.err = cyaml_copy(cfg, top, data, count, &out); }
	c.mallocs = lib_mallocs - lib_frees;
	result_code(c.err, "copy");
	c.outputs_touched = out != nullptr;
	c.data = c.err == CYAML_OK ? out : nullptr;
	return c;
}
cyaml_err_t do_free(const cyaml_config_t *cfg, const SV *top, void *data, unsigned count) {
	cyaml_err_t e;
	{ Enter en; e = cyaml_free(cfg, top, data, count); }
	long net = lib_mallocs - lib_frees;
	result_code(e, "free");
	if (net != 0) violation("free left %ld blocks of the process heap behind", net);
	return e;
}
size_t last_reached;
Val extract_top(const SV *top, void *data, unsigned count, Alloc *a, bool check) {
	ExtractCtx x;
	x.a = check ? a : nullptr;
	x.heap = !x.a;
	Val v = extract(top, (const uint8_t *)&data, count, &x);
	if (!x.err.empty()) violation("%s", x.err.c_str());
	last_reached = x.reached.size();
	return v;
}
void *build_data(const cyaml_config_t *cfg, const SV *top, const Val &v, unsigned *count) {
	void *p = nullptr;
	uint64_t n = store(top, v, (uint8_t *)&p, [&](size_t size) {
		void *m = cfg->mem_fn(cfg->mem_ctx, nullptr, size ? size : 1);
		if (m == nullptr) harness_error("no memory for client data");
		memset(m, 0, size ? size : 1);
		return m;
	});
	*count = (unsigned)n;
	return p;
}
string judge_load(const Outcome &m, const LoadRes &l, const SV *top, Alloc *a, bool strict_code) {
	if (m.skip) { ST["unjudged_large"]++; return ""; }
	if (m.unspecified) { ST["unjudged_unspecified"]++; return ""; }
	if (l.err != CYAML_OK && m.err == CYAML_OK) return sfmt("a conforming document was rejected: %s", errname(l.err));
	if (l.err == CYAML_OK && m.err != CYAML_OK) return sfmt("a document that does not conform was accepted (should be: %s)", errname(m.err));
	if (m.err != CYAML_OK) {
		if (strict_code && !m.any_error && m.err != l.err) return sfmt("wrong error: %s instead of %s", errname(l.err), errname(m.err));
		return "";
	}
	Val v = extract_top(top, l.data, l.count, a);
	string got = repr(v), want = repr(m.val);
	if (got != want) return "loaded value differs: " + diff_at(got, want);
	if (l.count != m.seq_count) return sfmt("sequence count %u instead of %u", l.count, m.seq_count);
	return "";
}

// ------------------------------------------------------------ cases
World::World(Rng &r, const Prof &p, unsigned fl, cyaml_log_t level, double p_valid) : prof(p), flags(fl) {
	gen_schema(r, p, s);
	if (p_valid > 0) set_validators(&s.top, r, p_valid);
	cfg = mk_config(&a, &log, &vr, flags, level);
	a.poison = (uint8_t)(r.next() | 1);
	seal();
	show("");
}
World::World(const SV &top, unsigned fl) : flags(fl) {
	s.top = top;
	cfg = mk_config(&a, &log, &vr, flags, CYAML_LOG_WARNING);
	seal();
	show("");
}
void World::show(const string &doc) {
	auto f = [this, doc] {
		string lg;
		for (size_t i = log.lines.size() > 12 ? log.lines.size() - 12 : 0; i < log.lines.size(); i++) lg += "log " + sfmt("%d: ", (int)log.lines[i].level) + esc(log.lines[i].text, 300) + "\n";
		return lg + sfmt("config flags 0x%x\nschema: ", flags) + s.dump() + "document (" + sfmt("%zu bytes", doc.size()) + "): \"" + esc(doc, 20000) + "\""; };
	RUN.lazy = f;
	if (RUN.verbose) { printf("%s\n", f().c_str()); fflush(stdout); }
}
void World::finish() {
	check_alloc(a, "at the end");
	if (s.arena.checksum() != sum) violation("the schema was modified");
}
void World::check_failed(const LoadRes &l, const char *when) {
	if (l.outputs_touched) violation("%s: failed load changed the caller's outputs", when);
	if (l.mallocs != 0) violation("%s: failed load left %ld blocks of the process heap behind", when, l.mallocs);
	if (l.fd_after != l.fd_before) violation("%s: failed load left a file open", when);
}
string scratch_path(const char *name) { return RUN.scratch + "/" + name; }
void write_scratch(const string &path, const string &data) { if (!write_file(path, data)) harness_error("cannot write %s", path.c_str()); }
ValOpts random_valopts(Rng &r, long *budget) {
	ValOpts o;
	o.budget = budget;
	o.p_absent = r.pick(vector<double>{0, .4, .9});
	o.p_null = r.pick(vector<double>{0, .25, .6});
	o.p_extreme = r.pick(vector<double>{.1, .5});
	o.max_seq = 1 + (int)r.below(8);
	o.longs = r.chance(.1);
	if (r.chance(.06)) { o.max_depth = 60; o.p_absent = .05; o.max_seq = 2; }
	return o;
}
string gen_valid_doc(World &w, Rng &r, Val *val, Y *tree) {
	long budget = 150 + (long)r.below(500);
	ValOpts o = random_valopts(r, &budget);
	Val v = gen_val(w.top(), r, o);
	Y y = doc_of(w.top(), v, r, &w.cfg);
	string doc = render(y, r, Present::random(r));
	if (val) *val = std::move(v);
	if (tree) *tree = std::move(y);
	return doc;
}
string mutate_bytes(const string &in, Rng &r, const SV *top) {
	string d = in;
	unsigned n = 1 + (unsigned)r.below(r.chance(.2) ? 12 : 3);
	(void)top;
	for (unsigned i = 0; i < n; i++) {
		size_t at = r.below(d.size() + 1);
		switch (r.below(9)) {
		case 0: if (at < d.size()) d[at] = (char)r.next(); break;
		case 1: if (at < d.size()) d.erase(at, 1 + r.below(4)); break;
		case 2: d.insert(at, r.pick({" ", "\n", ":", ": ", "- ", "[", "]", "{", "}", ",", "&a ", "*a", "!t ", "#", "\"", "'", "|", ">", "?", "---\n", "...\n", "~", "\t", "%", "0", "\xff", "\xc3", "\\", "null", "-1"})); break;
		case 3: { size_t b = r.below(d.size() + 1), len = r.below(40); d.insert(at, d.substr(b, len)); break; }
		case 4: d.resize(at); break;
		case 5: if (at < d.size()) d.erase(at, r.below(30)); break;
		case 6: if (at < d.size()) d[at] = (char)(d[at] ^ (1 << r.below(8))); break;
		case 7: d.insert(at, string(1 + r.below(20), r.pick({" ", "[", "-", "{", "a", "\n"})[0])); break;
		default: if (at < d.size() && !d.empty()) std::swap(d[at], d[r.below(d.size())]);
		}
	}
	return d;
}
void note_outcome(cyaml_err_t e, const char *what) { ST[string(what) + ": " + errname(e)]++; }
