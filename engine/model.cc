#include "core.h"
#include <cfloat>
#include <cerrno>

// ------------------------------------------------------------ events of a document
EvStream parse_events(const string &bytes) {
	EvStream es;
	yaml_parser_t p;
	yaml_event_t e;
	if (!yaml_parser_initialize(&p)) harness_error("yaml_parser_initialize");
	yaml_parser_set_input_string(&p, (const unsigned char *)bytes.data(), bytes.size());
	for (;;) {
		if (!yaml_parser_parse(&p, &e)) { es.error = true; break; }
		Ev v;
		v.type = e.type;
		v.line = e.start_mark.line; v.col = e.start_mark.column;
		auto S = [](const yaml_char_t *s) { return s ? string((const char *)s) : string(); };
		switch (e.type) {
		case YAML_SCALAR_EVENT:
			v.value.assign((const char *)e.data.scalar.value, e.data.scalar.length);
			v.anchor = S(e.data.scalar.anchor); v.tag = S(e.data.scalar.tag);
			v.style = e.data.scalar.style;
			break;
		case YAML_SEQUENCE_START_EVENT: v.anchor = S(e.data.sequence_start.anchor); v.tag = S(e.data.sequence_start.tag); v.style = e.data.sequence_start.style; break;
		case YAML_MAPPING_START_EVENT: v.anchor = S(e.data.mapping_start.anchor); v.tag = S(e.data.mapping_start.tag); v.style = e.data.mapping_start.style; break;
		case YAML_ALIAS_EVENT: v.value = S(e.data.alias.anchor); break;
		case YAML_DOCUMENT_START_EVENT: v.implicit = e.data.document_start.implicit; break;
		case YAML_DOCUMENT_END_EVENT: v.implicit = e.data.document_end.implicit; break;
		default: break;
		}
		bool end = e.type == YAML_STREAM_END_EVENT;
		yaml_event_delete(&e);
		es.evs.push_back(std::move(v));
		if (end) break;
	}
	yaml_parser_delete(&p);
	return es;
}

// ------------------------------------------------------------ reference interpreter
namespace {
struct Stop {};
struct Model {
	const EvStream &es;
	const cyaml_config_t *cfg;
	const Rejector *rej;
	Outcome &o;
	// expanded events: aliases are replaced by what their anchor stands for
	vector<uint32_t> x;
	size_t raw = 0, pos = 0;
	struct Open { string name; size_t start; bool anchored; };
	vector<Open> open;
	std::map<string, std::pair<size_t, size_t>> anchors;
	struct Frame { char kind; const SF *field; uint32_t idx; size_t line, col; };
	vector<Frame> fr;
	size_t limit = 300000;

	Model(const EvStream &e, const cyaml_config_t *c, const Rejector *r, Outcome &o) : es(e), cfg(c), rej(r), o(o) {}

	[[noreturn]] void fail(cyaml_err_t e) { o.err = e; path(); throw Stop(); }
	[[noreturn]] void fail_any() { o.err = CYAML_ERR_INTERNAL_ERROR; o.any_error = true; path(); throw Stop(); }
	void path() {
		o.path.clear();
		for (auto &f : fr) o.path.push_back({f.kind == 's' ? 's' : f.field ? 'f' : 'm', f.field ? f.field->key : "", f.idx, f.line, f.col});
	}
	const Ev &next() {
		while (pos >= x.size()) {
			if (raw >= es.evs.size()) fail(CYAML_ERR_LIBYAML_PARSER);
			const Ev &e = es.evs[raw];
			bool alias_on = !(cfg->flags & CYAML_CFG_NO_ALIAS);
			if (e.type == YAML_ALIAS_EVENT) {
				if (!alias_on) fail(CYAML_ERR_ALIAS);
				auto it = anchors.find(e.value);
				if (it == anchors.end()) fail(CYAML_ERR_INVALID_ALIAS);
				size_t a = it->second.first, b = it->second.second;
				if (x.size() + (b - a) > limit) { o.skip = true; throw Stop(); }
				for (size_t i = a; i < b; i++) x.push_back(x[i]);
				o.replayed += b - a;
				raw++;
				continue;
			}
			x.push_back((uint32_t)raw);
			raw++;
			size_t at = x.size() - 1;
			switch (e.type) {
			case YAML_SCALAR_EVENT: if (!e.anchor.empty()) anchors[e.anchor] = {at, at + 1}; break;
			case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT: open.push_back({e.anchor, at, !e.anchor.empty()}); break;
			case YAML_SEQUENCE_END_EVENT: case YAML_MAPPING_END_EVENT:
				if (open.back().anchored) anchors[open.back().name] = {open.back().start, at + 1};
				open.pop_back();
				break;
			default: break;
			}
		}
		o.events++;
		return es.evs[x[pos++]];
	}

	void call(const SV *s, const string &what) {
		o.calls.push_back({s, what});
		if (rej && (*rej)(what)) fail(CYAML_ERR_INVALID_VALUE);
	}
	static bool name_eq(const cyaml_config_t *cfg, const SV *s, const string &doc, const char *name) {
		return ref_equal(doc, name, ref_sensitive(cfg, s));
	}
	// whether binary notation is known depends on the C library used
	void binary(const string &t) {
		size_t i = 0;
		while (i < t.size() && (isspace((unsigned char)t[i]) || t[i] == '-' || t[i] == '+')) i++;
		if (i + 1 < t.size() && t[i] == '0' && (t[i + 1] == 'b' || t[i + 1] == 'B')) o.unspecified = true;
	}
	bool parse_i(const string &t, int64_t &out) {
		binary(t);
		char *e; errno = 0;
		long long v = strtoll(t.c_str(), &e, 0);
		if (e == t.c_str() || *e || errno == ERANGE) return false;
		out = v;
		return true;
	}
	bool parse_u(const string &t, uint64_t &out) {
		binary(t);
		char *e; errno = 0;
		unsigned long long v = strtoull(t.c_str(), &e, 0);
		if (e == t.c_str() || *e || errno == ERANGE) return false;
		if (v != 0 && t.find('-') != string::npos) return false;
		out = v;
		return true;
	}
	static bool fits_i(int64_t v, uint32_t size) { return size >= 8 || (v >= -((int64_t)1 << (size * 8 - 1)) && v < (int64_t)1 << (size * 8 - 1)); }
	static bool fits_u(uint64_t v, uint32_t size) { return size >= 8 || v < (uint64_t)1 << (size * 8); }

	void skip_value(const Ev &first) {
		if (first.type == YAML_SCALAR_EVENT) return;
		int level = 1;
		while (level > 0) {
			const Ev &e = next();
			if (e.type == YAML_SEQUENCE_START_EVENT || e.type == YAML_MAPPING_START_EVENT) level++;
			if (e.type == YAML_SEQUENCE_END_EVENT || e.type == YAML_MAPPING_END_EVENT) level--;
		}
	}
	static bool nul(const Ev &e) { return e.value.find('\0') != string::npos; }

	Val scalar(const SV *s, const string &t) {
		Val v;
		switch (s->type) {
		case CYAML_INT:
			v.k = Val::INT;
			if (!parse_i(t, v.i) || !fits_i(v.i, s->data_size)) fail(CYAML_ERR_INVALID_VALUE);
			if ((s->integer.min || s->integer.max) && (v.i < s->integer.min || v.i > s->integer.max)) fail(CYAML_ERR_INVALID_VALUE);
			if (s->integer.validation_cb) call(s, repr(v));
			return v;
		case CYAML_UINT:
			v.k = Val::UINT;
			if (!parse_u(t, v.u) || !fits_u(v.u, s->data_size)) fail(CYAML_ERR_INVALID_VALUE);
			if ((s->unsigned_integer.min || s->unsigned_integer.max) && (v.u < s->unsigned_integer.min || v.u > s->unsigned_integer.max)) fail(CYAML_ERR_INVALID_VALUE);
			if (s->unsigned_integer.validation_cb) call(s, repr(v));
			return v;
		case CYAML_BOOL: {
			v.k = Val::BOOL;
			v.u = 1;
			for (auto f : {"false", "no", "off", "disable", "0"}) if (ref_equal(t, f, false)) v.u = 0;
			return v;
		}
		case CYAML_ENUM: {
			v.k = Val::INT;
			bool found = false;
			for (unsigned i = 0; i < s->enumeration.count && !found; i++) if (name_eq(cfg, s, t, s->enumeration.strings[i].str)) { v.i = s->enumeration.strings[i].val; found = true; }
			if (!found && !has(s, CYAML_FLAG_STRICT)) found = parse_i(t, v.i);
			if (!found || !fits_enum(v.i, s->data_size)) fail(CYAML_ERR_INVALID_VALUE);
			if (s->enumeration.validation_cb) call(s, repr(v));
			v.i = sext((uint64_t)v.i, s->data_size);
			return v;
		}
		case CYAML_FLOAT: {
			v.k = Val::FLT;
			char *e; errno = 0;
			double d = strtod(t.c_str(), &e);
			bool strict = has(s, CYAML_FLAG_STRICT);
			if (e == t.c_str() || *e) fail(CYAML_ERR_INVALID_VALUE);
			if (strict && errno == ERANGE) fail(CYAML_ERR_INVALID_VALUE);
			if (s->data_size == 4) {
				float f = (float)d;
				if (strict && std::isinf(d)) o.unspecified = true;
				if (strict && (std::isinf(f) || (f == 0 && d != 0))) fail(CYAML_ERR_INVALID_VALUE);
				d = (double)f;
			}
			v.f = d;
			if (s->floating_point.validation_cb) call(s, repr(v));
			return v;
		}
		case CYAML_STRING:
			v.k = Val::STR;
			v.s = t;
			if (t.size() < s->string.min) fail(CYAML_ERR_STRING_LENGTH_MIN);
			if (t.size() > s->string.max) fail(CYAML_ERR_STRING_LENGTH_MAX);
			if (s->string.validation_cb) call(s, repr(v));
			return v;
		default: harness_error("model: scalar of type %d", (int)s->type);
		}
	}

	Val value(const SV *s, const Ev &e, const SF *field, bool in_seq) {
		if (e.type == YAML_SCALAR_EVENT) {
			if (s->type != CYAML_IGNORE && nul(e)) fail(CYAML_ERR_INVALID_VALUE);
			const string &t = e.value;
			if ((has(s, CYAML_FLAG_POINTER_NULL) && t.empty()) ||
			    (has(s, CYAML_FLAG_POINTER_NULL_STR) && (t == "~" || t == "null" || t == "Null" || t == "NULL")))
				return zero_val(s);
		}
		yaml_event_type_t want;
		switch (s->type) {
		case CYAML_IGNORE: { skip_value(e); Val v; v.k = Val::IGN; return v; }
		case CYAML_FLAGS: case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: want = YAML_SEQUENCE_START_EVENT; break;
		case CYAML_MAPPING: case CYAML_BITFIELD: want = YAML_MAPPING_START_EVENT; break;
		default: want = YAML_SCALAR_EVENT;
		}
		if (e.type != want) fail(CYAML_ERR_INVALID_VALUE);
		switch (s->type) {
		case CYAML_FLAGS: {
			Val v;
			v.k = Val::UINT;
			for (;;) {
				const Ev &n = next();
				if (n.type == YAML_SEQUENCE_END_EVENT) break;
				if (n.type != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
				if (nul(n)) fail(CYAML_ERR_INVALID_VALUE);
				bool found = false;
				for (unsigned i = 0; i < s->enumeration.count && !found; i++) if (name_eq(cfg, s, n.value, s->enumeration.strings[i].str)) { v.u |= (uint64_t)s->enumeration.strings[i].val; found = true; }
				if (!found) {
					uint64_t u;
					if (has(s, CYAML_FLAG_STRICT) || !parse_u(n.value, u) || !fits_u(u, s->data_size)) fail(CYAML_ERR_INVALID_VALUE);
					v.u |= u;
				}
			}
			if (!fits_u(v.u, s->data_size)) fail(CYAML_ERR_INVALID_VALUE);
			if (s->enumeration.validation_cb) call(s, repr(v));
			return v;
		}
		case CYAML_BITFIELD: {
			Val v;
			v.k = Val::UINT;
			std::set<unsigned> seen;
			for (;;) {
				const Ev &n = next();
				if (n.type == YAML_MAPPING_END_EVENT) break;
				if (n.type != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
				if (nul(n)) fail(CYAML_ERR_INVALID_VALUE);
				unsigned i = 0;
				for (; i < s->bitfield.count; i++) if (name_eq(cfg, s, n.value, s->bitfield.bitdefs[i].name)) break;
				if (i == s->bitfield.count) fail(CYAML_ERR_INVALID_VALUE);
				if (!seen.insert(i).second) o.unspecified = true; // repeated names are not specified
				const Ev &m = next();
				if (m.type != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
				uint64_t u;
				if (nul(m) || !parse_u(m.value, u)) fail(CYAML_ERR_INVALID_VALUE);
				auto &b = s->bitfield.bitdefs[i];
				if (u > UINT64_MAX >> (64 - b.bits)) fail(CYAML_ERR_INVALID_VALUE);
				v.u |= u << b.offset;
			}
			if (s->bitfield.validation_cb) call(s, repr(v));
			return v;
		}
		case CYAML_MAPPING: return mapping(s, e);
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return sequence(s, e, field, in_seq);
		default: return scalar(s, e.value);
		}
	}
	Val mapping(const SV *s, const Ev &start) {
		Val v;
		v.k = Val::MAP;
		unsigned n = field_count(s->mapping.fields);
		v.kids.resize(n);
		vector<bool> seen(n);
		fr.push_back({'m', nullptr, 0, start.line, start.col});
		size_t me = fr.size() - 1;
		for (;;) {
			const Ev &k = next();
			if (k.type == YAML_MAPPING_END_EVENT) break;
			if (k.type != YAML_SCALAR_EVENT) fail_any();
			unsigned i = n;
			if (!nul(k)) for (i = 0; i < n; i++) if (name_eq(cfg, s, k.value, s->mapping.fields[i].key)) break;
			if (i == n) {
				fr[me].field = nullptr;
				if (!(cfg->flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) fail(CYAML_ERR_INVALID_KEY);
				o.ignored.push_back(k.value.c_str());
				skip_value(next());
				continue;
			}
			const SF *f = &s->mapping.fields[i];
			fr[me].field = f;
			if (f->value.type == CYAML_IGNORE) o.ignored.push_back(f->key);
			else if (seen[i]) fail(CYAML_ERR_UNEXPECTED_EVENT);
			fr[me].line = k.line; fr[me].col = k.col;
			const Ev &e = next();
			fr[me].line = e.line; fr[me].col = e.col;
			seen[i] = true;
			v.kids[i] = value(&f->value, e, f, false);
		}
		for (unsigned i = 0; i < n; i++) {
			const SF *f = &s->mapping.fields[i];
			if (seen[i]) continue;
			if (!has(&f->value, CYAML_FLAG_OPTIONAL)) fail(CYAML_ERR_MAPPING_FIELD_MISSING);
			v.kids[i] = default_val(&f->value);
		}
		if (s->mapping.validation_cb) call(s, repr(v));
		fr.pop_back();
		return v;
	}
	Val sequence(const SV *s, const Ev &start, const SF *field, bool in_seq) {
		Val v;
		v.k = Val::SEQ;
		if (s->type == CYAML_SEQUENCE && in_seq) fail(CYAML_ERR_SEQUENCE_IN_SEQUENCE);
		fr.push_back({'s', nullptr, 0, start.line, start.col});
		size_t me = fr.size() - 1;
		uint64_t lim = s->sequence.max;
		if (s->type == CYAML_SEQUENCE) {
			unsigned w = field ? field->count_size : sizeof(unsigned);
			if (w < 4) lim = std::min<uint64_t>(lim, ((uint64_t)1 << (8 * w)) - 1);
		}
		for (;;) {
			const Ev &e = next();
			if (e.type == YAML_SEQUENCE_END_EVENT) break;
			fr[me].line = e.line; fr[me].col = e.col;
			fr[me].idx++;
			if (v.kids.size() + 1 > lim) fail(CYAML_ERR_SEQUENCE_ENTRIES_MAX);
			v.kids.emplace_back();
			Val k = value(s->sequence.entry, e, nullptr, true);
			v.kids.back() = std::move(k);
		}
		if (v.kids.size() < s->sequence.min) fail(CYAML_ERR_SEQUENCE_ENTRIES_MIN);
		if (s->sequence.validation_cb) call(s, repr(v));
		fr.pop_back();
		return v;
	}
	void run(const SV *top) {
		const Ev &ss = next();
		if (ss.type != YAML_STREAM_START_EVENT) harness_error("model: no stream start");
		const Ev &d = next();
		if (d.type == YAML_STREAM_END_EVENT) { o.val = zero_val(top); return; }
		Val v = value(top, next(), nullptr, false);
		const Ev &e = next();
		if (e.type != YAML_DOCUMENT_END_EVENT) harness_error("model: no document end");
		next(); // the stream has to be good up to what follows the document
		o.val = v;
		if (top->type == CYAML_SEQUENCE) o.seq_count = (unsigned)v.kids.size();
	}
};
}
Outcome model_load(const EvStream &es, const SV *top, const cyaml_config_t *cfg, const Rejector *rej) {
	Outcome o;
	Model m(es, cfg, rej, o);
	try { m.run(top); } catch (Stop &) { }
	return o;
}

// ------------------------------------------------------------ validation callbacks
thread_local ValRec *tl_rec; // recorder of this thread, where all threads have the same context
thread_local void *tl_rec_ctx;
static bool val_note(void *ctx, const SV *s, const Val &v) {
	OutOfLib ol;
	ValRec *rec = (ValRec *)ctx;
	if (tl_rec) { if (ctx != tl_rec_ctx) violation("validation callback called with a context that is not the configured one"); rec = tl_rec; }
	if (rec == nullptr || rec->magic != 0x7a11da7e) violation("validation callback called with a context that is not the configured one");
	string w = repr(v);
	rec->calls.push_back({s, w});
	return !rec->rej(w);
}
static bool cb_int(void *c, const SV *s, int64_t x) { Val v; v.k = s->type == CYAML_FLAGS ? Val::UINT : Val::INT; v.i = x; v.u = (uint64_t)x; return val_note(c, s, v); }
static bool cb_uint(void *c, const SV *s, uint64_t x) { Val v; v.k = Val::UINT; v.u = x; return val_note(c, s, v); }
static bool cb_float(void *c, const SV *s, double x) { Val v; v.k = Val::FLT; v.f = x; return val_note(c, s, v); }
static bool cb_string(void *c, const SV *s, const char *x) { Val v; v.k = Val::STR; v.s = x; return val_note(c, s, v); }
static bool cb_map(void *c, const SV *s, const cyaml_data_t *d) { OutOfLib o; return val_note(c, s, extract_body(s, (const uint8_t *)d, 0, nullptr)); }
static bool cb_seq(void *c, const SV *s, const cyaml_data_t *d, size_t n) {
	OutOfLib o;
	if (n == 0 && d && has(s, CYAML_FLAG_POINTER)) violation("the callback of an empty sequence by pointer is given an address, though there is no block");
	return val_note(c, s, extract_body(s, (const uint8_t *)d, n, nullptr));
}
static void set_rec(SV *s, double p, Rng &r, std::set<const void *> &done) {
	bool on = r.chance(p);
	switch (s->type) {
	case CYAML_INT: s->integer.validation_cb = on ? cb_int : nullptr; break;
	case CYAML_UINT: s->unsigned_integer.validation_cb = on ? cb_uint : nullptr; break;
	case CYAML_ENUM: case CYAML_FLAGS: s->enumeration.validation_cb = on ? cb_int : nullptr; break;
	case CYAML_BITFIELD: s->bitfield.validation_cb = on ? cb_uint : nullptr; break;
	case CYAML_FLOAT: s->floating_point.validation_cb = on ? cb_float : nullptr; break;
	case CYAML_STRING: s->string.validation_cb = on ? cb_string : nullptr; break;
	case CYAML_MAPPING:
		s->mapping.validation_cb = on ? cb_map : nullptr;
		if (done.insert(s->mapping.fields).second)
			for (SF *f = const_cast<SF *>(s->mapping.fields); f->key; f++) set_rec(&f->value, p, r, done);
		break;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		s->sequence.validation_cb = on ? cb_seq : nullptr;
		set_rec(const_cast<SV *>(s->sequence.entry), p, r, done);
		break;
	default: break;
	}
}
void set_validators(SV *s, Rng &r, double p) { std::set<const void *> done; set_rec(s, p, r, done); }

// ------------------------------------------------------------ reference model of saving
static int scalar_style(const SV *s) {
	unsigned f = (unsigned)s->flags;
	if (f & CYAML_FLAG_SCALAR_QUOTE_DOUBLE) return YAML_DOUBLE_QUOTED_SCALAR_STYLE;
	if (f & CYAML_FLAG_SCALAR_QUOTE_SINGLE) return YAML_SINGLE_QUOTED_SCALAR_STYLE;
	if (f & CYAML_FLAG_SCALAR_LITERAL) return YAML_LITERAL_SCALAR_STYLE;
	if (f & CYAML_FLAG_SCALAR_FOLDED) return YAML_FOLDED_SCALAR_STYLE;
	if (f & CYAML_FLAG_SCALAR_PLAIN) return YAML_PLAIN_SCALAR_STYLE;
	return YAML_ANY_SCALAR_STYLE;
}
// 0 default, 1 block, 2 flow
static int coll_style(const SV *s, const cyaml_config_t *cfg) {
	if ((unsigned)s->flags & CYAML_FLAG_BLOCK) return 1;
	if ((unsigned)s->flags & CYAML_FLAG_FLOW) return 2;
	if ((unsigned)cfg->flags & CYAML_CFG_STYLE_BLOCK) return 1;
	if ((unsigned)cfg->flags & CYAML_CFG_STYLE_FLOW) return 2;
	return 0;
}
static void save_rec(const SV *s, const Val &v, const cyaml_config_t *cfg, vector<SEv> &o) {
	int st = scalar_style(s), cs = coll_style(s, cfg);
	if (v.k == Val::NUL || (s->type == CYAML_SEQUENCE && has(s, CYAML_FLAG_POINTER) && v.kids.empty() && v.u != 1 && has(s, CYAML_FLAG_POINTER_NULL))) {
		o.push_back({YAML_SCALAR_EVENT, has(s, CYAML_FLAG_POINTER_NULL_STR) ? "null" : "", 's', st});
		return;
	}
	auto sc = [&](const string &t, char cmp) { o.push_back({YAML_SCALAR_EVENT, t, cmp, st}); };
	switch (s->type) {
	case CYAML_INT: sc(sfmt("%lld", (long long)v.i), 'i'); break;
	case CYAML_UINT: sc(sfmt("%llu", (unsigned long long)v.u), 'i'); break;
	case CYAML_BOOL: sc(v.u ? "true" : "false", 'b'); break;
	case CYAML_ENUM:
		for (unsigned i = 0; i < s->enumeration.count; i++) if (enum_is(s, i, v.i)) { sc(s->enumeration.strings[i].str, 's'); return; }
		sc(sfmt("%lld", (long long)v.i), 'i');
		break;
	case CYAML_FLOAT:
		if (s->data_size == 4) {
			string t = sfmt("%g", v.f);
			if ((float)strtod(t.c_str(), nullptr) != (float)v.f) t = sfmt("%.9g", v.f);
			sc(t, 'f');
		} else sc(sfmt("%.16e", v.f), 'd');
		break;
	case CYAML_STRING: sc(v.s, 's'); break;
	case CYAML_FLAGS: {
		o.push_back({YAML_SEQUENCE_START_EVENT, "", 0, -1});
		uint64_t left = v.u;
		for (unsigned i = 0; i < s->enumeration.count; i++) {
			uint64_t b = (uint64_t)s->enumeration.strings[i].val;
			if ((b & left) && (b & v.u) == b) { sc(s->enumeration.strings[i].str, 's'); left &= ~b; }
		}
		if (left) sc(sfmt("%llu", (unsigned long long)left), 'i');
		o.push_back({YAML_SEQUENCE_END_EVENT, "", 0, 0});
		break;
	}
	case CYAML_BITFIELD:
		o.push_back({YAML_MAPPING_START_EVENT, "", 0, cs});
		for (unsigned i = 0; i < s->bitfield.count; i++) {
			auto &b = s->bitfield.bitdefs[i];
			uint64_t u = v.u >> b.offset & UINT64_MAX >> (64 - b.bits);
			if (!u) continue;
			sc(b.name, 's');
			sc(sfmt("0x%llx", (unsigned long long)u), 'i');
		}
		o.push_back({YAML_MAPPING_END_EVENT, "", 0, 0});
		break;
	case CYAML_MAPPING: {
		o.push_back({YAML_MAPPING_START_EVENT, "", 0, cs});
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			const SV *fs = &f->value;
			if (fs->type == CYAML_IGNORE) continue;
			const Val &k = v.kids[i];
			bool null = k.k == Val::NUL || (fs->type == CYAML_SEQUENCE && k.kids.empty() && k.u != 1);
			if (has(fs, CYAML_FLAG_OPTIONAL) && has(fs, CYAML_FLAG_POINTER) && null) continue;
			sc(f->key, 's');
			save_rec(fs, k, cfg, o);
		}
		o.push_back({YAML_MAPPING_END_EVENT, "", 0, 0});
		break;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		o.push_back({YAML_SEQUENCE_START_EVENT, "", 0, cs});
		for (auto &k : v.kids) save_rec(s->sequence.entry, k, cfg, o);
		o.push_back({YAML_SEQUENCE_END_EVENT, "", 0, 0});
		break;
	default: break;
	}
}
vector<SEv> save_events(const SV *top, const Val &v, const cyaml_config_t *cfg) {
	vector<SEv> o;
	save_rec(top, v, cfg, o);
	return o;
}
static int to_string(void *d, unsigned char *b, size_t n) { ((string *)d)->append((char *)b, n); return 1; }
bool emit_reference(const vector<SEv> &evs, const cyaml_config_t *cfg, string &out) {
	yaml_emitter_t e;
	yaml_event_t ev;
	out.clear();
	yaml_emitter_initialize(&e);
	yaml_emitter_set_output(&e, to_string, &out);
	int implicit = !(cfg->flags & CYAML_CFG_DOCUMENT_DELIM);
	bool ok = yaml_stream_start_event_initialize(&ev, YAML_UTF8_ENCODING) && yaml_emitter_emit(&e, &ev) &&
		yaml_document_start_event_initialize(&ev, nullptr, nullptr, nullptr, implicit) && yaml_emitter_emit(&e, &ev);
	for (auto &s : evs) {
		if (!ok) break;
		switch (s.type) {
		case YAML_SCALAR_EVENT: ok = yaml_scalar_event_initialize(&ev, nullptr, nullptr, (yaml_char_t *)s.value.data(), (int)s.value.size(), 1, 1, (yaml_scalar_style_t)s.style); break;
		case YAML_SEQUENCE_START_EVENT: ok = yaml_sequence_start_event_initialize(&ev, nullptr, nullptr, 1, s.style == 1 ? YAML_BLOCK_SEQUENCE_STYLE : s.style == 2 ? YAML_FLOW_SEQUENCE_STYLE : YAML_ANY_SEQUENCE_STYLE); break;
		case YAML_MAPPING_START_EVENT: ok = yaml_mapping_start_event_initialize(&ev, nullptr, nullptr, 1, s.style == 1 ? YAML_BLOCK_MAPPING_STYLE : s.style == 2 ? YAML_FLOW_MAPPING_STYLE : YAML_ANY_MAPPING_STYLE); break;
		case YAML_SEQUENCE_END_EVENT: ok = yaml_sequence_end_event_initialize(&ev); break;
		default: ok = yaml_mapping_end_event_initialize(&ev);
		}
		ok = ok && yaml_emitter_emit(&e, &ev);
	}
	ok = ok && yaml_document_end_event_initialize(&ev, implicit) && yaml_emitter_emit(&e, &ev) &&
		yaml_stream_end_event_initialize(&ev) && yaml_emitter_emit(&e, &ev) && yaml_emitter_flush(&e);
	yaml_emitter_delete(&e);
	return ok;
}
static bool same_value(const string &got, const SEv &w) {
	if (got == w.value) return true;
	char *e;
	switch (w.cmp) {
	case 'i': {
		errno = 0;
		if (got.empty()) return false;
		if (w.value[0] == '-') { long long v = strtoll(got.c_str(), &e, 0); return !*e && !errno && v == strtoll(w.value.c_str(), nullptr, 0); }
		unsigned long long v = strtoull(got.c_str(), &e, 0);
		return !*e && !errno && got[0] != '-' && v == strtoull(w.value.c_str(), nullptr, 0);
	}
	case 'd': case 'f': {
		if (got.empty()) return false;
		double a = strtod(got.c_str(), &e), b = strtod(w.value.c_str(), nullptr);
		if (*e) return false;
		if (a != a || b != b) return a != a && b != b;
		if (w.cmp == 'f') { float x = (float)a, y = (float)b; return x == y && std::signbit(x) == std::signbit(y); }
		return a == b && std::signbit(a) == std::signbit(b);
	}
	case 'b': {
		bool no = false, want = w.value == "true";
		for (auto f : {"false", "no", "off", "disable", "0"}) if (ref_equal(got, f, false)) no = true;
		return want == !no;
	}
	default: return false;
	}
}
static bool reference(const vector<SEv> &evs, const cyaml_config_t *cfg, EvStream &ref) {
	string text;
	if (!emit_reference(evs, cfg, text)) return false;
	ref = parse_events(text);
	size_t k = 2;
	bool good = !ref.error && ref.evs.size() == evs.size() + 4;
	for (size_t i = 0; good && i < evs.size(); i++, k++) good = ref.evs[k].type == evs[i].type && ref.evs[k].value == evs[i].value;
	return good;
}
bool reference_good(const vector<SEv> &evs, const cyaml_config_t *cfg) { EvStream ref; return reference(evs, cfg, ref); }
bool all_text(const Val &v) {
	vector<unsigned> c;
	if (!utf8_decode(v.s, c)) return false;
	for (auto &k : v.kids) if (!all_text(k)) return false;
	return true;
}
bool save_accepts(const SV *s, const Val &v) {
	bool ptr = has(s, CYAML_FLAG_POINTER);
	if (v.k == Val::NUL) return has(s, CYAML_FLAG_POINTER_NULL);
	switch (s->type) {
	case CYAML_ENUM: {
		if (!has(s, CYAML_FLAG_STRICT)) return true;
		for (unsigned i = 0; i < s->enumeration.count; i++) if (enum_is(s, i, v.i)) return true;
		return false;
	}
	case CYAML_FLAGS: {
		if (!has(s, CYAML_FLAG_STRICT)) return true;
		uint64_t left = v.u;
		for (unsigned i = 0; i < s->enumeration.count; i++) { uint64_t b = (uint64_t)s->enumeration.strings[i].val; if ((b & v.u) == b) left &= ~b; }
		return left == 0;
	}
	case CYAML_MAPPING: {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			const SV *fs = &f->value;
			const Val &k = v.kids[i];
			if (fs->type == CYAML_IGNORE) continue;
			if (has(fs, CYAML_FLAG_OPTIONAL) && has(fs, CYAML_FLAG_POINTER) && (k.k == Val::NUL || (fs->type == CYAML_SEQUENCE && k.kids.empty() && k.u != 1))) continue;
			if (!save_accepts(fs, k)) return false;
		}
		return true;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		for (auto &k : v.kids) if (!save_accepts(s->sequence.entry, k)) return false;
		return true;
	case CYAML_STRING: { vector<unsigned> c; return utf8_decode(v.s, c); }
	default: (void)ptr; return true;
	}
}
bool copy_accepts(const SV *s, const Val &v, bool field) {
	if (v.k == Val::NUL) return has(s, CYAML_FLAG_POINTER_NULL) || (field && has(s, CYAML_FLAG_OPTIONAL));
	if (s->type == CYAML_MAPPING) {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) if (!copy_accepts(&f->value, v.kids[i], true)) return false;
	} else if (is_seq(s)) for (auto &k : v.kids) if (!copy_accepts(s->sequence.entry, k, false)) return false;
	return true;
}
// Compare a saved document with the events it must consist of.
string compare_saved(const string &output, const vector<SEv> &evs, const cyaml_config_t *cfg, bool check_style) {
	EvStream es = parse_events(output), ref;
	// A reference that does not come back as it went in shows a limit of
	// libyaml itself, not of the code under test.
	if (!reference(evs, cfg, ref)) { ST["libyaml_limit"]++; return ""; }
	if (es.error) return "the saved document is not well formed YAML";
	size_t n = es.evs.size();
	if (n < 4) return "the saved document is empty";
	if (es.evs[1].type != YAML_DOCUMENT_START_EVENT || es.evs[n - 2].type != YAML_DOCUMENT_END_EVENT) return "not exactly one document";
	bool delim = cfg->flags & CYAML_CFG_DOCUMENT_DELIM;
	if (es.evs[1].implicit != !delim) return delim ? "document start marker missing" : "document start marker not asked for";
	if (delim && es.evs[n - 2].implicit) return "document end marker missing";
	if (n - 4 != evs.size()) {
		// find where they part
	}
	for (size_t i = 0; i < evs.size() || i + 4 < n; i++) {
		if (i >= evs.size()) return sfmt("saved document goes on after node event %zu", i);
		if (i + 4 >= n) return sfmt("saved document ends at node event %zu of %zu", i, evs.size());
		const Ev &g = es.evs[i + 2];
		const SEv &w = evs[i];
		if (g.type != w.type) return sfmt("node event %zu is of type %d instead of %d", i, (int)g.type, (int)w.type);
		if (!g.anchor.empty()) return sfmt("node event %zu has an anchor", i);
		if (!g.tag.empty()) return sfmt("node event %zu (\"%s\") has the tag \"%s\"", i, esc(g.value, 100).c_str(), esc(g.tag, 100).c_str());
		if (w.type == YAML_SCALAR_EVENT && !same_value(g.value, w)) return sfmt("node event %zu is \"%s\" instead of \"%s\"", i, esc(g.value, 200).c_str(), esc(w.value, 200).c_str());
		if (check_style && g.style != ref.evs[i + 2].style && !(w.style == -1) && !(w.type == YAML_SCALAR_EVENT && g.value != w.value))
			return sfmt("node event %zu (\"%s\") has style %d, where %d was asked for and possible", i, esc(g.value, 100).c_str(), g.style, ref.evs[i + 2].style);
	}
	return "";
}
