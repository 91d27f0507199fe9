// Modes about what the header gives beside the calls: C25, C26
#include "core.h"
#include <fcntl.h>
#include <unistd.h>

// Written by macros_gen.py, where the build asks for it.
extern "C" {
extern const cyaml_schema_value_t *const macro_schemas[] __attribute__((weak));
extern const cyaml_schema_value_t *const plain_schemas[] __attribute__((weak));
extern const unsigned n_macro_schemas __attribute__((weak));
}

MODE(macros) { // C25: a schema made by the macros does what one written out does
	if (!&n_macro_schemas || !n_macro_schemas) harness_error("built without the schemas");
	{ SV u; memset(&u, 0xff, sizeof u); if (CYAML_UNLIMITED < u.sequence.max || CYAML_UNLIMITED < u.string.max) violation("CYAML_UNLIMITED is a limit below the numbers a schema can give"); }
	unsigned k = (unsigned)(RUN.cur % n_macro_schemas);
	const SV *mac = macro_schemas[k];
	if (!(plain_schemas[k]->flags & CYAML_FLAG_POINTER)) { // not for the top: refused, so the macro has not made it a pointer
		SV ptr = *plain_schemas[k];
		ptr.flags = (cyaml_flag_e)(ptr.flags | CYAML_FLAG_POINTER);
		World w(ptr, random_cfg_flags(r));
		LoadRes l = do_load("{}", &w.cfg, mac);
		if (l.err != CYAML_ERR_TOP_LEVEL_NON_PTR) violation("by the macros' schema %u, which is no pointer, a load gives: %s", k, errname(l.err));
		ST["non-pointer tops"]++;
		w.check_failed(l, "load by the macros' schema");
		return;
	}
	World w(*plain_schemas[k], random_cfg_flags(r));
	string doc;
	long budget = 150 + (long)r.below(500);
	{ // load
		ValOpts o = random_valopts(r, &budget);
		Val v = gen_val(w.top(), r, o);
		Y y = doc_of(w.top(), v, r, &w.cfg);
		if (r.chance(.35)) for (unsigned i = 0, n = 1 + (unsigned)r.below(2); i < n; i++) mutate(y, r, w.top(), &w.cfg);
		doc = render(y, r, Present::random(r));
	}
	w.show(doc);
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
	bool file = r.chance(.1);
	LoadRes l;
	if (file) {
		string path = scratch_path("macros.yaml");
		write_scratch(path, doc);
		l = do_load_file(path, &w.cfg, mac);
	} else l = do_load(doc, &w.cfg, mac);
	note_outcome(l.err, "load");
	string e = judge_load(m, l, w.top(), &w.a, false);
	if (!e.empty()) violation("by the macros' schema %u: %s", k, e.c_str());
	if (l.err == CYAML_OK) {
		ST["loaded"]++;
		if (do_free(&w.cfg, mac, l.data, l.count) != CYAML_OK) violation("free failed");
		check_alloc(w.a, "after loading and releasing by the macros' schema");
	} else w.check_failed(l, "load by the macros' schema");
	ST.seen(hash_str(doc, k));
	// save, copy
	ValOpts o = random_valopts(r, &budget);
	budget = 150 + (long)r.below(500);
	o.for_save = true;
	Val v = gen_val(w.top(), r, o);
	if (v.k == Val::NUL || (w.top()->type == CYAML_SEQUENCE && v.kids.empty())) { w.finish(); return; }
	unsigned count;
	void *data = build_data(&w.cfg, w.top(), v, &count);
	string src = repr(extract_top(w.top(), data, count, &w.a));
	w.show("(data) " + src);
	vector<SEv> evs = save_events(w.top(), v, &w.cfg);
	if (reference_good(evs, &w.cfg)) {
		SaveRes s = do_save(&w.cfg, mac, data, save_count(w.top(), count));
		note_outcome(s.err, "save");
		if (s.err != CYAML_OK) violation("by the macros' schema %u, data were not saved: %s", k, errname(s.err));
		e = compare_saved(s.out, evs, &w.cfg, true);
		if (!e.empty()) violation("saved by the macros' schema %u: %s", k, e.c_str());
		ST["saved"]++;
		ST.seen(hash_str(s.out, k));
	}
	CopyRes c = do_copy(&w.cfg, mac, data, copy_count(w.top(), count));
	note_outcome(c.err, "copy");
	if ((c.err == CYAML_OK) != copy_accepts(w.top(), v)) violation("by the macros' schema %u, copying gives: %s", k, errname(c.err));
	if (c.err == CYAML_OK) {
		string got = repr(extract_top(w.top(), c.data, count, &w.a));
		if (got != src) violation("copied by the macros' schema %u: %s", k, diff_at(got, src).c_str());
		ST["copied"]++;
		if (do_free(&w.cfg, mac, c.data, count) != CYAML_OK) violation("free failed");
	}
	if (do_free(&w.cfg, mac, data, count) != CYAML_OK) violation("free failed");
	w.finish();
	if (r.chance(.003)) ST.sample(esc(doc, 200));
}

namespace {
struct Stderr { // what goes to the standard error stream meanwhile
	string path = scratch_path("stderr");
	int saved;
	Stderr() {
		fflush(stderr);
		saved = dup(2);
		int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (saved < 0 || fd < 0 || dup2(fd, 2) < 0) harness_error("stderr cannot be redirected");
		close(fd);
	}
	string end() {
		string s;
		fflush(stderr);
		dup2(saved, 2);
		close(saved);
		saved = -1;
		if (!read_file(path, s)) harness_error("no output");
		return s;
	}
	~Stderr() { if (saved >= 0) { dup2(saved, 2); close(saved); } }
};
const char *level_name[] = {"DEBUG", "INFO", "NOTICE", "WARNING", "ERROR"};
string judge_log(const string &out, const vector<LogLine> &lines) {
	size_t at = 0;
	for (size_t i = 0; i < lines.size(); i++) {
		auto &l = lines[i];
		// a short introduction that names the level, then the message
		size_t p = string::npos;
		for (size_t n = 0; n <= 60 && at + n <= out.size(); n++)
			if (out.compare(at + n, l.text.size(), l.text) == 0 && out.substr(at, n).find(level_name[l.level]) != string::npos) { p = at + n; break; }
		if (p == string::npos) return sfmt("message %zu (%s: %s) is not there; from its place on there is \"%s\"", i, level_name[l.level], esc(l.text, 200).c_str(), esc(out.substr(at, 200)).c_str());
		for (int k = 0; k < 5; k++) if (k != l.level && out.substr(at, p - at).find(level_name[k]) != string::npos) return sfmt("message %zu has the wrong level", i);
		at = p + l.text.size();
	}
	if (at != out.size()) return "there is more than the messages: \"" + esc(out.substr(at, 200)) + "\"";
	return "";
}
void default_log(cyaml_log_t level, void *ctx, const char *fmt, ...) {
	va_list a;
	va_start(a, fmt);
	cyaml_log(level, ctx, fmt, a);
	va_end(a);
}
}

MODE(deflog) { // C26: the standard log function
	{ // by itself
		vector<LogLine> lines;
		Stderr s;
		for (unsigned i = 0, n = 1 + (unsigned)r.below(6); i < n; i++) {
			cyaml_log_t level = (cyaml_log_t)r.below(5);
			void *ctx = r.chance(.5) ? &lines : nullptr;
			string t = "<"; // nothing that could be part of the introduction
			for (unsigned k = 0, m = (unsigned)r.below(r.chance(.1) ? 20000 : 60); k < m; k++) t += (char)r.range(1, 255);
			switch (r.below(4)) {
			case 0: default_log(level, ctx, "%s", t.c_str()); lines.push_back({level, t}); break;
			case 1: { unsigned long u = (unsigned long)r.next(); default_log(level, ctx, "<a %d of %lu is %s (%5.2f)\n", (int)i, u, t.c_str(), 1.5); lines.push_back({level, sfmt("<a %d of %lu is %s (%5.2f)\n", (int)i, u, t.c_str(), 1.5)}); break; }
			case 2: default_log(level, ctx, "<100%% plain\n"); lines.push_back({level, "<100% plain\n"}); break;
			default: default_log(level, ctx, "%s%c", "", '<'); lines.push_back({level, "<"});
			}
		}
		string out = s.end();
		string e = judge_log(out, lines);
		if (!e.empty()) violation("standard log function: %s", e.c_str());
		ST["messages_made"] += lines.size();
		ST.seen(hash_str(out));
	}
	// in the calls
	Prof p = Prof::swarm(r);
	p.budget = 60;
	World w(r, p, random_cfg_flags(r), (cyaml_log_t)r.below(5));
	string doc = gen_valid_doc(w, r);
	if (r.chance(.6)) doc = mutate_bytes(doc, r, w.top());
	w.show(doc);
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
	if (m.skip || m.unspecified) return;
	w.a.pool = true; // the same addresses in both runs, where they are logged
	LoadRes a = do_load(doc, &w.cfg, w.top());
	vector<LogLine> lines = w.log.lines;
	string va;
	if (a.err == CYAML_OK) { va = repr(extract_top(w.top(), a.data, a.count, &w.a)); w.release(a.data, a.count); }
	size_t text = lines.size();
	w.cfg.log_fn = cyaml_log;
	w.cfg.log_ctx = nullptr;
	string out, vb;
	LoadRes b;
	{
		Stderr s;
		b = do_load(doc, &w.cfg, w.top());
		out = s.end();
	}
	if (b.err == CYAML_OK) { vb = repr(extract_top(w.top(), b.data, b.count, &w.a)); w.release(b.data, b.count); }
	if (a.err != b.err || va != vb) violation("with the standard log function: %s, without: %s", errname(b.err), errname(a.err));
	// addresses may differ
	auto plain = [](const string &s) {
		string o;
		for (size_t i = 0; i < s.size();) {
			if (s.compare(i, 2, "0x") == 0) { i += 2; while (i < s.size() && isxdigit((unsigned char)s[i])) i++; o += "0x"; }
			else o += s[i++];
		}
		return o;
	};
	for (auto &l : lines) l.text = plain(l.text);
	string e = judge_log(plain(out), lines);
	if (!e.empty()) violation("standard log function, during a load: %s", e.c_str());
	ST["messages_of_loads"] += text;
	if (r.chance(.003) && !out.empty()) ST.sample(esc(out, 200));
	w.finish();
}

MODE(info) { // C26: descriptions of results, and the version
	static const std::pair<cyaml_err_t, vector<const char *>> say[] = { // one of these words has to be there
		{CYAML_OK, {"success", "ok"}}, {CYAML_ERR_OOM, {"memory", "alloc"}}, {CYAML_ERR_ALIAS, {"alias"}}, {CYAML_ERR_FILE_OPEN, {"open", "file"}},
		{CYAML_ERR_INVALID_KEY, {"key"}}, {CYAML_ERR_INVALID_VALUE, {"value"}}, {CYAML_ERR_INVALID_ALIAS, {"anchor", "alias"}}, {CYAML_ERR_INTERNAL_ERROR, {"internal"}},
		{CYAML_ERR_UNEXPECTED_EVENT, {"event"}}, {CYAML_ERR_STRING_LENGTH_MIN, {"short"}}, {CYAML_ERR_STRING_LENGTH_MAX, {"long"}}, {CYAML_ERR_INVALID_DATA_SIZE, {"size"}},
		{CYAML_ERR_TOP_LEVEL_NON_PTR, {"pointer", "ptr"}}, {CYAML_ERR_BAD_TYPE_IN_SCHEMA, {"type"}}, {CYAML_ERR_BAD_MIN_MAX_SCHEMA, {"min"}}, {CYAML_ERR_BAD_PARAM_SEQ_COUNT, {"count"}},
		{CYAML_ERR_BAD_PARAM_NULL_DATA, {"data"}}, {CYAML_ERR_BAD_BITVAL_IN_SCHEMA, {"bit"}}, {CYAML_ERR_SEQUENCE_ENTRIES_MIN, {"few"}}, {CYAML_ERR_SEQUENCE_ENTRIES_MAX, {"many"}},
		{CYAML_ERR_SEQUENCE_FIXED_COUNT, {"fixed"}}, {CYAML_ERR_SEQUENCE_IN_SEQUENCE, {"sequence"}}, {CYAML_ERR_MAPPING_FIELD_MISSING, {"missing"}}, {CYAML_ERR_BAD_CONFIG_NULL_MEMFN, {"mem"}},
		{CYAML_ERR_BAD_PARAM_NULL_CONFIG, {"config"}}, {CYAML_ERR_BAD_PARAM_NULL_SCHEMA, {"schema"}}, {CYAML_ERR_DATA_TARGET_NON_NULL, {"target"}}, {CYAML_ERR_LIBYAML_EMITTER_INIT, {"emitter init"}},
		{CYAML_ERR_LIBYAML_PARSER_INIT, {"parser init"}}, {CYAML_ERR_LIBYAML_EVENT_INIT, {"event init"}}, {CYAML_ERR_LIBYAML_EMITTER, {"emitter"}}, {CYAML_ERR_LIBYAML_PARSER, {"parser"}},
	};
	static const std::map<int, string> first = [] { // as at the beginning
		std::map<int, string> f;
		std::map<string, int> seen;
		for (int i = 0; i < CYAML_ERR__COUNT; i++) {
			const char *s = cyaml_strerror((cyaml_err_t)i);
			if (!s || !*s) violation("result %d has no description", i);
			if (!seen.insert({s, i}).second) violation("results %d and %d have the same description", i, seen[s]);
			f[i] = s;
		}
		for (auto &x : say) {
			string low;
			for (char c : f[x.first]) low += (char)tolower((unsigned char)c);
			bool ok = false;
			for (auto w : x.second) ok |= low.find(w) != string::npos;
			if (!ok) violation("result %d is described as \"%s\"", (int)x.first, f[x.first].c_str());
		}
		return f;
	}();
	static const string none = cyaml_strerror(CYAML_ERR__COUNT);
	if (none.empty()) violation("a code out of range has no description");
	for (auto &f : first) if (f.second == none) violation("result %d is described like an invalid code", f.first);
	for (int i = 0; i < 50; i++) {
		int c = i < 10 ? (int)r.next() : i < 30 ? (int)r.range(-3, CYAML_ERR__COUNT + 3) : r.pick(vector<int>{INT32_MIN, INT32_MAX, -1, -128, 255, 256, 65536, 1 << 24, 0x40000000, (int)CYAML_ERR__COUNT}) + (int)r.range(0, 40) * (i % 2);
		const char *s = cyaml_strerror((cyaml_err_t)c);
		if (!s) violation("code %d has no description", c);
		string want = c >= 0 && c < CYAML_ERR__COUNT ? first.at(c) : none;
		if (want != s) violation("code %d is described as \"%s\" instead of \"%s\"", c, s, want.c_str());
		ST["codes"]++;
		ST.seen((uint64_t)(uint32_t)c);
	}
	unsigned a, b, c;
	char rest[32] = "";
	if (!cyaml_version_str || sscanf(cyaml_version_str, "%u.%u.%u%31s", &a, &b, &c, rest) < 3) violation("version \"%s\"", cyaml_version_str ? cyaml_version_str : "(none)");
	if ((cyaml_version & 0x7fffffff) != (a << 16 | b << 8 | c)) violation("version number %#x for version \"%s\"", cyaml_version, cyaml_version_str);
	if ((cyaml_version >> 31 != 0) != (rest[0] == 0)) violation("version number %#x for version \"%s\": is it a release?", cyaml_version, cyaml_version_str);
	ST[rest[0] ? "development_version" : "release_version"]++;
}
