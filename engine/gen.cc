#include "core.h"
#include <cfloat>

static bool null_like(const string &s) { return s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL"; }
static int64_t smax(uint32_t n) { return (int64_t)(UINT64_MAX >> ((8 - n) * 8) >> 1); }
static uint64_t umax(uint32_t n) { return UINT64_MAX >> ((8 - n) * 8); }
static bool has_default(const SV *s) {
	switch (s->type) {
	case CYAML_INT: return s->integer.missing != 0;
	case CYAML_ENUM: case CYAML_FLAGS: return s->enumeration.missing != 0;
	case CYAML_UINT: return s->unsigned_integer.missing != 0;
	case CYAML_BITFIELD: return s->bitfield.missing != 0;
	case CYAML_BOOL: return s->boolean.missing;
	case CYAML_FLOAT: return s->floating_point.missing != 0;
	case CYAML_STRING: return s->string.missing != nullptr;
	case CYAML_MAPPING: return s->mapping.missing != nullptr;
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return s->sequence.missing != nullptr;
	default: return false;
	}
}

// ------------------------------------------------------------ values
static string gen_string(const SV *s, Rng &r, const ValOpts &o) {
	size_t mn = s->string.min, mx = s->string.max;
	bool nulls = has(s, CYAML_FLAG_POINTER_NULL);
	for (int tries = 0; tries < 200; tries++) {
		size_t want;
		switch (r.below(8)) {
		case 0: want = mn; break;
		case 1: want = mx < 400 ? mx : mn + 20; break;
		case 2: want = o.longs && mx > 20000 && r.chance(.3) ? 15000 + r.below(30000) : mn + r.below(200); break;
		default: want = mn + r.below(12);
		}
		if (want > mx) want = mx;
		string t;
		unsigned style = (unsigned)r.below(o.no_special_strings ? 2 : 7);
		while (t.size() < want) {
			string c;
			switch (style) {
			case 0: c = string(1, (char)('a' + r.below(26))); break;
			case 1: c = r.chance(.15) ? " " : string(1, (char)('a' + r.below(26))); break;
			case 2: c = string(1, (char)(32 + r.below(95))); break;
			case 3: c = r.chance(.2) ? "\n" : r.chance(.2) ? " " : string(1, (char)('a' + r.below(26))); break;
			case 4: c = r.chance(.5) ? utf8_encode((unsigned)r.range(0xa0, 0x24f)) : utf8_encode(0x4e00 + (unsigned)r.below(500)); break;
			case 5: c = r.chance(.2) ? utf8_encode(r.pick(vector<unsigned>{0x85, 0x2028, 0x2029, 0xfeff, 0xa0, 0x7f, 1, 7, 0x1b, 9, 13, 0x1f600, 0xfffd, 0xd7ff, 0xe000, 0x10ffff, 0x80, 0x9f})) : string(1, (char)(32 + r.below(95))); break;
			default: c = r.pick({"null", "~", "true", "0x1", "- ", ": ", "#", " #", "'", "\"", "\\", "[", "{", "&a", "*a", "!t", "%", "@", "|", ">", "?", "...", "---", "\n", " ", "a", "1", ",", "]", "}"}); break;
			}
			if (t.size() + c.size() > want) {
				if (c.size() > 1) { t += 'x'; continue; }
			}
			t += c;
		}
		if (has(s, CYAML_FLAG_POINTER_NULL_STR) ? null_like(t) : nulls && t.empty()) {
			if (mx == 0) return t;
			if (mx < 4 || tries > 100) return string(std::max<size_t>(mn, 1), 'x');
			continue;
		}
		return t;
	}
	return string(std::max<size_t>(mn, 1), 'x');
}
static double gen_float(const SV *s, Rng &r, const ValOpts &) {
	bool strict = has(s, CYAML_FLAG_STRICT);
	for (;;) {
		double d;
		switch (r.below(8)) {
		case 0: d = 0; break;
		case 1: d = (double)r.range(-1000, 1000); break;
		case 2: d = (double)r.range(-1000000, 1000000) / 1024; break;
		case 3: d = s->data_size == 4 ? (double)FLT_MAX : DBL_MAX; break;
		case 4: d = s->data_size == 4 ? (double)FLT_MIN : DBL_MIN; break;
		case 5: d = r.chance(.1) ? (r.chance(.5) ? (double)INFINITY : (double)NAN) : (double)r.below(10) / 10; break;
		default:
			if (s->data_size == 4) { uint32_t u = (uint32_t)r.next(); float f; memcpy(&f, &u, 4); d = (double)f; }
			else { uint64_t u = r.next(); memcpy(&d, &u, 8); }
		}
		if (r.chance(.3)) d = -d;
		if (s->data_size == 4) {
			if (!std::isinf(d) && !std::isnan(d) && std::fabs(d) > (double)FLT_MAX) continue;
			d = (double)(float)d;
		}
		if (d != d) { if (strict || !r.chance(.1)) continue; d = (double)NAN; }
		if (std::isinf(d) && strict) continue;
		if (s->data_size == 8 && d != 0 && std::fabs(d) < DBL_MIN) { if (strict) continue; }
		return d;
	}
}
Val gen_val(const SV *s, Rng &r, const ValOpts &o, bool opt_ctx) {
	Val v;
	bool ptr = has(s, CYAML_FLAG_POINTER);
	bool tight = o.depth >= o.max_depth || (o.budget && *o.budget <= 0);
	if (o.budget) --*o.budget;
	bool opt = opt_ctx && has(s, CYAML_FLAG_OPTIONAL);
	if (s->type == CYAML_IGNORE) { v.k = Val::IGN; v.absent = (opt && r.chance(o.p_absent)) || o.for_save; if (!opt) v.absent = o.for_save; return v; }
	if (opt) {
		if (!o.for_save && (tight || r.chance(o.p_absent))) { v.absent = true; return v; }
		if (o.for_save && ptr && !has_default(s) && (tight || r.chance(o.p_absent))) { v.k = s->type == CYAML_SEQUENCE ? Val::SEQ : Val::NUL; return v; }
	}
	if (has(s, CYAML_FLAG_POINTER_NULL) && !(opt && o.for_save && has_default(s)) && ((tight && o.depth > 0) || r.chance(o.p_null))) {
		v.k = o.for_save && s->type == CYAML_SEQUENCE ? Val::SEQ : Val::NUL;
		return v;
	}
	ValOpts c = o;
	c.depth++;
	switch (s->type) {
	case CYAML_INT: {
		v.k = Val::INT;
		int64_t mx = smax(s->data_size), mn = -mx - 1;
		if (s->integer.min || s->integer.max) { mn = std::max(mn, s->integer.min); mx = std::min(mx, s->integer.max); }
		if (r.chance(o.p_extreme)) v.i = r.chance(.5) ? mn : mx;
		else if (r.chance(.5)) v.i = r.range(-200, 200);
		else if (r.chance(.2)) v.i = sext((uint64_t)(r.chance(.5) ? 1 : -1) << r.below(s->data_size * 8), s->data_size);
		else v.i = sext(r.next(), s->data_size);
		if (r.chance(o.p_zero)) v.i = 0;
		if (v.i < mn || v.i > mx) v.i = (uint64_t)mx - (uint64_t)mn == UINT64_MAX ? (int64_t)r.next() : (int64_t)((uint64_t)mn + r.below((uint64_t)mx - (uint64_t)mn + 1));
		break;
	}
	case CYAML_UINT: {
		v.k = Val::UINT;
		uint64_t mx = umax(s->data_size), mn = 0;
		if (s->unsigned_integer.min || s->unsigned_integer.max) { mn = s->unsigned_integer.min; mx = std::min(mx, s->unsigned_integer.max); }
		if (r.chance(o.p_extreme)) v.u = r.chance(.3) ? mn : mx;
		else if (r.chance(.5)) v.u = r.below(400);
		else if (r.chance(.2)) v.u = (uint64_t)(r.chance(.5) ? 1 : -1) << r.below(s->data_size * 8) & umax(s->data_size);
		else v.u = r.next() & umax(s->data_size);
		if (r.chance(o.p_zero)) v.u = 0;
		if (v.u < mn || v.u > mx) v.u = mx - mn == UINT64_MAX ? r.next() : mn + r.below(mx - mn + 1);
		break;
	}
	case CYAML_BOOL: v.k = Val::BOOL; v.u = r.below(2); break;
	case CYAML_ENUM: {
		v.k = Val::INT;
		int64_t mx = smax(s->data_size), mn = -mx - 1;
		for (int t = 0; t < 50; t++) {
			v.i = s->enumeration.strings[r.below(s->enumeration.count)].val;
			if (fits_enum(v.i, s->data_size)) { v.i = sext((uint64_t)v.i, s->data_size); break; }
		}
		if (!has(s, CYAML_FLAG_STRICT) && r.chance(.15)) v.i = r.chance(.5) ? sext(r.next(), s->data_size) : r.range(-100, 100);
		if (v.i < mn || v.i > mx) v.i = 0;
		break;
	}
	case CYAML_FLAGS: {
		v.k = Val::UINT;
		unsigned n = (unsigned)r.below(s->enumeration.count + 1);
		if (r.chance(.1)) n = 0;
		for (unsigned i = 0; i < n; i++) v.u |= (uint64_t)s->enumeration.strings[r.below(s->enumeration.count)].val;
		if (!has(s, CYAML_FLAG_STRICT) && r.chance(.15)) v.u |= r.next();
		v.u &= umax(s->data_size);
		break;
	}
	case CYAML_BITFIELD:
		v.k = Val::UINT;
		for (unsigned i = 0; i < s->bitfield.count; i++) {
			auto &b = s->bitfield.bitdefs[i];
			uint64_t m = UINT64_MAX >> (64 - b.bits);
			uint64_t x = r.chance(.3) ? 0 : r.chance(.3) ? m : r.chance(.3) ? (uint64_t)1 << r.below(b.bits) : r.next() & m;
			v.u |= x << b.offset;
		}
		break;
	case CYAML_FLOAT: v.k = Val::FLT; v.f = gen_float(s, r, o); break;
	case CYAML_STRING: v.k = Val::STR; v.s = gen_string(s, r, o); break;
	case CYAML_MAPPING:
		v.k = Val::MAP;
		for (const SF *f = s->mapping.fields; f->key; f++) {
			v.kids.push_back(gen_val(&f->value, r, c, true));
			// respect the width of the count member
			if (f->value.type == CYAML_SEQUENCE && f->count_size < 4) {
				uint64_t lim = (uint64_t)1 << (8 * f->count_size);
				if (v.kids.back().kids.size() >= lim) v.kids.back().kids.resize(lim - 1);
			}
		}
		break;
	case CYAML_SEQUENCE: {
		v.k = Val::SEQ;
		uint64_t mn = s->sequence.min, mx = s->sequence.max, n;
		if (tight) n = mn;
		else if (r.chance(.15)) n = mn;
		else if (r.chance(.2) && mx < 40) n = mx;
		else if (r.chance(.02) && o.depth < 3 && (!o.budget || *o.budget > 300)) n = mn + r.below(260);
		else n = mn + r.below((uint64_t)o.max_seq + 1);
		if (n > mx) n = mx;
		if (o.depth == 0 && n == 0 && o.for_save && mx > 0) n = 1;
		for (uint64_t i = 0; i < n; i++) v.kids.push_back(gen_val(s->sequence.entry, r, c));
		if (n == 0 && ptr && o.for_save) v.u = (opt && has_default(s)) || r.chance(.5);
		if (n == 0 && opt && o.for_save && has_default(s)) v.u = 1;
		if (n == 0 && mn > 0 && o.for_save) v.u = 0;
		break;
	}
	case CYAML_SEQUENCE_FIXED:
		v.k = Val::SEQ;
		for (uint32_t i = 0; i < s->sequence.max; i++) v.kids.push_back(gen_val(s->sequence.entry, r, c));
		break;
	default: break;
	}
	return v;
}
Val expected_of(const SV *s, const Val &v) {
	if (v.absent) return s->type == CYAML_IGNORE ? zero_val(s) : default_val(s);
	if (v.k == Val::NUL) return zero_val(s);
	Val o = v;
	if (s->type == CYAML_MAPPING) {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) o.kids[i] = expected_of(&f->value, v.kids[i]);
	} else if (is_seq(s)) {
		for (auto &k : o.kids) k = expected_of(s->sequence.entry, k);
	}
	return o;
}

// ------------------------------------------------------------ documents
Y mk_scalar(const string &t) { Y y; y.text = t; return y; }
string node_str(const Y &y) {
	switch (y.k) {
	case Y::SCALAR: return sfmt("s%zu:", y.text.size()) + y.text;
	case Y::ALIAS: return "*" + y.text + ";";
	default: {
		string s = y.k == Y::SEQ ? "[" : "{";
		for (auto &k : y.kids) { if (!k.anchor.empty()) s += "&" + k.anchor + " "; s += node_str(k) + ","; }
		return s + (y.k == Y::SEQ ? "]" : "}");
	}
	}
}
// a spelling which matches the name
static std::multimap<unsigned, unsigned> &unfold() {
	static std::multimap<unsigned, unsigned> m;
	if (m.empty()) for (unsigned c = 1; c < 0x250; c++) { m.emplace(ref_fold(c), c); if (ref_fold(c) != c && ref_fold(c) >= 0x250) m.emplace(ref_fold(c), ref_fold(c)); }
	return m;
}
static string respell(const string &s, Rng &r) {
	vector<unsigned> c;
	if (!utf8_decode(s, c)) return s;
	string o;
	for (auto x : c) {
		if (r.chance(.4)) {
			auto e = unfold().equal_range(ref_fold(x));
			size_t n = (size_t)std::distance(e.first, e.second);
			if (n > 1) { auto it = e.first; std::advance(it, (long)r.below(n)); x = it->second; }
		}
		o += utf8_encode(x);
	}
	return o;
}
static string name_text(const char *name, const SV *s, const cyaml_config_t *cfg, Rng &r) {
	if (cfg && !ref_sensitive(cfg, s) && r.chance(.4)) return respell(name, r);
	return name;
}
static string uint_text(uint64_t u, Rng &r) {
	switch (r.below(6)) {
	case 0: return sfmt("0x%llx", (unsigned long long)u);
	case 1: return sfmt("0%llo", (unsigned long long)u);
	case 2: return sfmt("0X%llX", (unsigned long long)u);
	case 3: return r.chance(.2) ? sfmt("+%llu", (unsigned long long)u) : sfmt("%llu", (unsigned long long)u);
	default: return sfmt("%llu", (unsigned long long)u);
	}
}
static string int_text(int64_t i, Rng &r) {
	if (i < 0) {
		string t = uint_text(0 - (uint64_t)i, r);
		if (t[0] == '+') t = t.substr(1);
		return "-" + t;
	}
	return uint_text((uint64_t)i, r);
}
static Y garbage(Rng &r, int depth, bool key = false) {
	Y y;
	if (depth <= 0 || key || r.chance(.5)) {
		y.text = r.pick({"x", "1", "", "null", "a b", "-5", "true", "[", "é", "very long text that goes on and on", "\n", "0x10", "~"});
		if (r.chance(.3)) y.text += sfmt("%u", (unsigned)r.below(1000));
		return y;
	}
	if (r.chance(.5)) {
		y.k = Y::SEQ;
		for (size_t n = r.below(5), i = 0; i < n; i++) y.kids.push_back(garbage(r, depth - 1));
	} else {
		y.k = Y::MAP;
		for (size_t n = r.below(5), i = 0; i < n; i++) { y.kids.push_back(garbage(r, depth - 1, !r.chance(.15))); y.kids.push_back(garbage(r, depth - 1)); }
	}
	return y;
}
Y gen_garbage(Rng &r, int depth) { return garbage(r, depth); }

Y doc_of(const SV *s, const Val &v, Rng &r, const cyaml_config_t *cfg) {
	Y y;
	y.schema = s;
	if (v.k == Val::NUL) {
		y.text = has(s, CYAML_FLAG_POINTER_NULL_STR) && r.chance(.7) ? r.pick({"~", "null", "Null", "NULL"}) : "";
		y.quoted = r.chance(.3);
		return y;
	}
	switch (s->type) {
	case CYAML_INT: y.text = int_text(v.i, r); break;
	case CYAML_UINT: y.text = uint_text(v.u, r); break;
	case CYAML_BOOL:
		y.text = v.u ? r.pick({"true", "yes", "on", "enable", "1", "True", "YES", "y", "falsey", "2", "00", "nope"}) :
			r.pick({"false", "no", "off", "disable", "0", "False", "NO", "oFf", "DISABLE"});
		break;
	case CYAML_ENUM: {
		vector<const char *> n;
		// the first name that matches decides, so only names whose text is not shadowed
		for (unsigned i = 0; i < s->enumeration.count; i++) if (enum_is(s, i, v.i)) n.push_back(s->enumeration.strings[i].str);
		if (n.empty() || (!has(s, CYAML_FLAG_STRICT) && r.chance(.15))) y.text = int_text(s->data_size < 8 && r.chance(.3) ? (int64_t)((uint64_t)v.i & umax(s->data_size)) : v.i, r);
		else y.text = name_text(r.pick(n), s, cfg, r);
		break;
	}
	case CYAML_FLAGS: {
		y.k = Y::SEQ;
		uint64_t left = v.u;
		vector<Y> e;
		for (unsigned i = 0; i < s->enumeration.count; i++) {
			uint64_t b = (uint64_t)s->enumeration.strings[i].val;
			if ((b & v.u) == b && (((b & left) && !r.chance(has(s, CYAML_FLAG_STRICT) ? 0 : .1)) || r.chance(.1))) {
				Y k = mk_scalar(name_text(s->enumeration.strings[i].str, s, cfg, r));
				k.schema = s;
				e.push_back(k);
				left &= ~b;
			}
		}
		if (left && !has(s, CYAML_FLAG_STRICT)) { Y k = mk_scalar(uint_text(left, r)); k.schema = s; e.push_back(k); }
		for (size_t i = e.size(); i > 1; i--) if (r.chance(.3)) std::swap(e[i - 1], e[r.below(i)]);
		y.kids = e;
		break;
	}
	case CYAML_BITFIELD: {
		y.k = Y::MAP;
		vector<unsigned> ord;
		for (unsigned i = 0; i < s->bitfield.count; i++) ord.push_back(i);
		for (size_t i = ord.size(); i > 1; i--) if (r.chance(.3)) std::swap(ord[i - 1], ord[r.below(i)]);
		for (unsigned i : ord) {
			auto &b = s->bitfield.bitdefs[i];
			uint64_t x = v.u >> b.offset & UINT64_MAX >> (64 - b.bits);
			if (x == 0 && r.chance(.6)) continue;
			Y k = mk_scalar(name_text(b.name, s, cfg, r)), e = mk_scalar(uint_text(x, r));
			e.schema = s;
			y.kids.push_back(k); y.kids.push_back(e);
		}
		break;
	}
	case CYAML_FLOAT:
		if (v.f != v.f) y.text = r.pick({"nan", "NaN"});
		else if (std::isinf(v.f)) y.text = string(v.f < 0 ? "-" : "") + r.pick({"inf", "INFINITY"});
		else y.text = r.chance(.2) ? sfmt("%a", v.f) : r.chance(.2) ? sfmt("%.20e", v.f) : sfmt("%.17g", v.f);
		break;
	case CYAML_STRING: y.text = v.s; break;
	case CYAML_MAPPING: {
		y.k = Y::MAP;
		vector<std::pair<Y, Y>> e;
		size_t i = 0;
		bool ign = cfg && (cfg->flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS);
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			if (v.kids[i].absent) continue;
			int reps = 1;
			if (f->value.type == CYAML_IGNORE) reps += (int)r.below(2);
			for (int k = 0; k < reps; k++) {
				Y key = mk_scalar(name_text(f->key, s, cfg, r));
				e.push_back({key, f->value.type == CYAML_IGNORE ? garbage(r, 3) : doc_of(&f->value, v.kids[i], r, cfg)});
			}
		}
		if (ign) for (size_t n = r.chance(.4) ? r.below(4) : 0; n > 0; n--) {
			Y key = mk_scalar("Unknown " + string(1, (char)('a' + r.below(26))) + sfmt("%u", (unsigned)r.below(3)));
			e.push_back({key, garbage(r, 3)});
		}
		for (size_t k = e.size(); k > 1; k--) if (r.chance(.4)) std::swap(e[k - 1], e[r.below(k)]);
		for (auto &p : e) { y.kids.push_back(p.first); y.kids.push_back(p.second); }
		break;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		y.k = Y::SEQ;
		for (auto &k : v.kids) y.kids.push_back(doc_of(s->sequence.entry, k, r, cfg));
		break;
	default: y = garbage(r, 3);
	}
	return y;
}

// ------------------------------------------------------------ mutation
static void collect(Y &y, vector<Y *> &out) { out.push_back(&y); for (auto &k : y.kids) collect(k, out); }
static string interesting(const SV *s, Rng &r, const string &old) {
	if (s && r.chance(.75)) {
		switch (s->type) {
		case CYAML_INT: case CYAML_ENUM: {
			int64_t mx = smax(s->data_size);
			if (s->type == CYAML_INT && (s->integer.min || s->integer.max) && r.chance(.6))
				return r.pick(vector<string>{sfmt("%lld", (long long)s->integer.min), sfmt("%lld", (long long)s->integer.max),
					s->integer.min == INT64_MIN ? "-9223372036854775809" : sfmt("%lld", (long long)s->integer.min - 1), s->integer.max == INT64_MAX ? "9223372036854775808" : sfmt("%lld", (long long)s->integer.max + 1)});
			return r.pick(vector<string>{sfmt("%lld", (long long)mx), sfmt("%llu", (unsigned long long)mx + 1), sfmt("-%llu", (unsigned long long)mx + 1), sfmt("-%llu", (unsigned long long)mx + 2),
				sfmt("0x%llx", (unsigned long long)umax(s->data_size)), "99999999999999999999", "-99999999999999999999", "1.5", "1e3", "0x", "0b1", "08", "1_000", " 7", "7 ", "--1", "+-1", "", "-0", "+0"});
		}
		case CYAML_UINT: case CYAML_FLAGS: {
			uint64_t mx = umax(s->data_size);
			if (s->type == CYAML_UINT && (s->unsigned_integer.min || s->unsigned_integer.max) && r.chance(.6))
				return r.pick(vector<string>{sfmt("%llu", (unsigned long long)s->unsigned_integer.min), sfmt("%llu", (unsigned long long)s->unsigned_integer.max),
					s->unsigned_integer.min ? sfmt("%llu", (unsigned long long)s->unsigned_integer.min - 1) : "-1", s->unsigned_integer.max == UINT64_MAX ? "18446744073709551616" : sfmt("%llu", (unsigned long long)s->unsigned_integer.max + 1)});
			return r.pick(vector<string>{sfmt("%llu", (unsigned long long)mx), mx == UINT64_MAX ? "18446744073709551616" : sfmt("%llu", (unsigned long long)mx + 1), "-1", "-0", "-18446744073709551615", "0xg", "1 2", "", "99999999999999999999999", "0x10000000000000000", "9223372036854775808"});
		}
		case CYAML_BITFIELD: {
			auto &b = s->bitfield.bitdefs[r.below(s->bitfield.count)];
			uint64_t m = UINT64_MAX >> (64 - b.bits);
			return r.pick(vector<string>{sfmt("%llu", (unsigned long long)m), m == UINT64_MAX ? "18446744073709551616" : sfmt("%llu", (unsigned long long)m + 1), "-1", "0", "x", b.name});
		}
		case CYAML_FLOAT: return r.pick({"1e40", "-1e40", "3.5e38", "3.4028235e38", "1e-50", "-1e-46", "1e400", "-1e400", "1e-400", "nan", "inf", "1.5x", ".", "", "1e", "0x1p3", "4.9e-324", "1e308", "3.4028235677973366e38"});
		case CYAML_STRING: {
			size_t n = s->string.max, m = s->string.min;
			if (r.chance(.5) && n < 1000) return string(n + r.below(2), 'm');
			if (m > 0) return string(m - r.below(2), 'n');
			return string(r.below(5), 'q');
		}
		case CYAML_BOOL: return r.pick({"", "FALSE", "No", "ofF", "0", "1", "DISABLE", "disabled", "null", "f", "n", "00"});
		default: break;
		}
	}
	switch (r.below(8)) {
	case 0: return "";
	case 1: return r.pick({"null", "~", "Null", "NULL", "nULL", "null "});
	case 2: return old.empty() ? "x" : old.substr(0, old.size() - 1);
	case 3: return old + r.pick({"x", " ", "0", "\n", ".", "\xc3\xa9"});
	case 4: return old + string("\0tail", 5);
	case 5: return string("\0", 1) + old;
	case 6: return respell(old, r);
	default: return r.pick({"0", "1", "-1", "xyz", "999", "true", "0x7f", "1e5", "[]"});
	}
}
Y gen_garbage(Rng &r, int depth);
void mutate(Y &root, Rng &r, const SV *top, const cyaml_config_t *cfg) {
	(void)top; (void)cfg;
	unsigned times = 1 + (unsigned)(r.chance(.25) ? r.below(3) : 0);
	for (unsigned t = 0; t < times; t++) {
		vector<Y *> all;
		collect(root, all);
		Y *y = all[r.below(all.size())];
		switch (y->k) {
		case Y::SCALAR:
			if (r.chance(.8)) { y->text = interesting(y->schema, r, y->text); y->quoted = r.chance(.3); }
			else if (r.chance(.9)) { string a = y->anchor; const SV *s = y->schema; *y = gen_garbage(r, 2); y->anchor = a; y->schema = s; }
			else { y->k = Y::ALIAS; y->text = "nowhere"; }
			break;
		case Y::SEQ:
			switch (r.below(6)) {
			case 0: if (!y->kids.empty()) y->kids.erase(y->kids.begin() + (long)r.below(y->kids.size())); break;
			case 1: if (!y->kids.empty()) { Y k = y->kids[r.below(y->kids.size())]; size_t n = 1 + (r.chance(.2) && y->kids.size() < 8 ? r.below(9) : 0); for (size_t i = 0; i < n; i++) y->kids.insert(y->kids.begin() + (long)r.below(y->kids.size() + 1), k); } break;
			case 2: y->kids.push_back(gen_garbage(r, 2)); break;
			case 3: y->kids.clear(); break;
			case 4: { Y k = gen_garbage(r, 2); k.schema = y->schema; *y = k; break; }
			default: if (y->schema && y->schema->type == CYAML_FLAGS) { Y k = mk_scalar(interesting(y->schema, r, "x")); k.schema = y->schema; y->kids.push_back(k); } else if (y->kids.size() > 1) std::swap(y->kids[0], y->kids[y->kids.size() - 1]);
			}
			break;
		case Y::MAP: {
			size_t n = y->kids.size() / 2, i = n ? r.below(n) : 0;
			switch (r.below(7)) {
			case 0: case 1: if (n) y->kids.erase(y->kids.begin() + (long)(2 * i), y->kids.begin() + (long)(2 * i + 2)); break;
			case 2: if (n) { Y k = y->kids[2 * i], v = y->kids[2 * i + 1]; y->kids.push_back(r.chance(.5) ? k : mk_scalar(respell(k.text, r))); y->kids.push_back(v); } break;
			case 3: if (n) { Y &k = y->kids[2 * i]; k.text = r.chance(.4) ? respell(k.text, r) : interesting(nullptr, r, k.text); } break;
			case 4: { size_t at = 2 * r.below(n + 1); Y kv[2] = {mk_scalar(r.chance(.2) ? "" : sfmt("unk%u", (unsigned)r.below(100))), gen_garbage(r, 3)}; if (r.chance(.05)) kv[0] = gen_garbage(r, 2); y->kids.insert(y->kids.begin() + (long)at, kv, kv + 2); break; }
			case 5: { Y k = gen_garbage(r, 2); k.schema = y->schema; *y = k; break; }
			default: if (n) y->kids[2 * i + 1] = gen_garbage(r, 2);
			}
			break;
		}
		default: y->text = "other"; break;
		}
	}
}

// Anchors on random nodes, aliases in place of others.
static void anchors_rec(Y &y, Rng &r, vector<string> &done, double pa, double pl, unsigned &ctr, bool key, bool root) {
	if (!root && !done.empty() && r.chance(pl)) {
		// (done has names that are complete; an unknown name now and then)
		string a = r.chance(.03) ? string("none") : done[r.chance(.5) ? done.size() - 1 : r.below(done.size())];
		const SV *s = y.schema;
		y = Y();
		y.k = Y::ALIAS; y.text = a; y.schema = s;
		return;
	}
	(void)key;
	if (y.k != Y::ALIAS && r.chance(pa)) y.anchor = r.chance(.5) ? sfmt("a%u", (unsigned)r.below(4)) : sfmt("n%u", ctr++);
	for (size_t i = 0; i < y.kids.size(); i++) anchors_rec(y.kids[i], r, done, pa, y.k == Y::MAP && i % 2 == 0 ? pl * .1 : pl, ctr, y.k == Y::MAP && i % 2 == 0, false);
	if (!y.anchor.empty()) done.push_back(y.anchor);
	// now and then an alias of an anchor which is still open
}
void random_anchors(Y &y, Rng &r) {
	vector<string> done;
	unsigned ctr = 0;
	double pa = r.pick(vector<double>{.1, .3, .6}), pl = r.pick(vector<double>{.02, .1, .25});
	anchors_rec(y, r, done, pa, pl, ctr, false, true);
}
// Nodes whose first place is where they are ignored, right or wrong for the
// place of their alias.
unsigned anchor_unread(Y &root, Rng &r, unsigned want, const cyaml_config_t *cfg) {
	unsigned made = 0;
	for (unsigned t = 0; t < want; t++) {
		struct Pick { Y *map, *node; };
		vector<Pick> all;
		std::function<void(Y &, vector<Y *>)> go = [&](Y &n, vector<Y *> maps) {
			if (n.k == Y::MAP && n.schema && n.schema->type == CYAML_MAPPING) maps.push_back(&n);
			if (all.size() > 400) return;
			for (size_t i = 0; i < n.kids.size(); i++) {
				if (n.k == Y::MAP && i % 2 == 0) continue;
				Y &k = n.kids[i];
				if (k.schema && k.k != Y::ALIAS && !maps.empty()) all.push_back({maps[r.below(maps.size())], &k});
				go(k, maps);
			}
		};
		go(root, {});
		if (all.empty()) break;
		Pick p = r.chance(.5) ? all[r.below(all.size())] : all[0];
		if (r.chance(.5)) for (auto &x : all) if (x.node->k != Y::SCALAR && r.chance(.3)) { p = x; break; }
		Y copy = *p.node, al;
		al.k = Y::ALIAS; al.schema = p.node->schema;
		if (r.chance(.4)) mutate(copy, r, p.node->schema, cfg);
		if (copy.k == Y::ALIAS) continue;
		copy.anchor = al.text = sfmt("u%u", t);
		*p.node = al;
		size_t at = 0; // of the child which holds the alias, or before it
		Y kv[2] = {mk_scalar(sfmt("Zz unread %u", t)), copy};
		p.map->kids.insert(p.map->kids.begin() + (long)at, kv, kv + 2);
		made++;
	}
	return made;
}
// Other names for the anchors, which are hard to tell from one another.
void rename_anchors(Y &y, Rng &r) {
	static const vector<size_t> lens = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256, 257, 300, 600};
	size_t len = r.pick(lens);
	unsigned style = (unsigned)r.below(5), ctr = 0;
	string stem;
	for (size_t i = 0; i < len; i++) stem += r.pick(vector<char>{'a', 'b', 'Z', '0', '_', '-'});
	std::map<string, string> names;
	std::function<void(Y &)> go = [&](Y &n) {
		string &a = n.k == Y::ALIAS ? n.text : n.anchor;
		if (!a.empty()) {
			string &to = names[a];
			if (to.empty()) {
				unsigned k = ctr++;
				string num = sfmt("%u", k);
				if (style == 0) to = stem + num;
				else if (style == 1) to = num + stem + "x";
				else if (style == 2) to = stem + string(k + 1, 'x');
				else if (style == 3) { to = stem + "q"; for (size_t i = 0; i < 8; i++) to += k >> i & 1 ? 'P' : 'p'; to += k > 255 ? num : ""; }
				else to = stem + num + stem;
			}
			a = to;
		}
		for (auto &k : n.kids) go(k);
	};
	go(y);
}

// ------------------------------------------------------------ presentation
Present Present::random(Rng &r) {
	Present p;
	p.p_flow = r.pick(vector<double>{0, .3, 1});
	p.p_comment = r.pick(vector<double>{0, .1, .3});
	p.p_dq = r.pick(vector<double>{0, .3, 1});
	p.p_sq = r.pick(vector<double>{0, .3});
	p.p_lit = r.pick(vector<double>{0, .3, .8});
	p.p_tag = r.pick(vector<double>{0, .1});
	p.indent = 1 + (int)r.below(6);
	p.crlf = r.chance(.15);
	p.header = r.chance(.3);
	p.footer = r.chance(.15);
	p.extra_doc = r.chance(.1);
	p.bom = r.chance(.08);
	p.utf16 = r.chance(.08) ? 1 + (int)r.below(2) : 0;
	return p;
}
namespace {
struct Ren {
	Rng &r; const Present &p;
	string out;
	bool plain_ok(const string &t) {
		if (t.empty()) return false;
		for (size_t i = 0; i < t.size(); i++) {
			char c = t[i];
			if (isalnum((unsigned char)c) || c == '_' || c == '/' || c == '.' || (i > 0 && (c == '-' || c == '+'))) continue;
			if (c == '-' && i == 0 && t.size() > 1 && isdigit((unsigned char)t[1])) continue;
			if (c == '+' && i == 0) continue;
			if (c == ' ' && i > 0 && i + 1 < t.size() && t[i - 1] != ' ') continue;
			return false;
		}
		if (t == "..." || t == "---" || t.compare(0, 4, "... ") == 0 || t.compare(0, 4, "--- ") == 0) return false;
		return true;
	}
	bool simple_printable(const string &t) {
		vector<unsigned> c;
		if (!utf8_decode(t, c)) return false;
		for (auto x : c) if (!((x >= 32 && x < 127) || (x >= 0xa1 && x < 0x2000))) return false;
		return true;
	}
	string dq(const string &t, bool oneline, int indent) {
		string o = "\"";
		vector<unsigned> c;
		if (!utf8_decode(t, c)) { // leave the bytes alone
			return "\"" + t + "\"";
		}
		for (size_t i = 0; i < c.size(); i++) {
			unsigned x = c[i];
			if (!oneline && i > 0 && r.chance(.01)) {
				o += "\\\n" + string((size_t)indent + 1, ' ');
				if (x == ' ' || x == '\t') { o += x == ' ' ? "\\x20" : "\\t"; continue; }
			}
			if (x == '"' || x == '\\') { o += '\\'; o += (char)x; }
			else if (x == '\n') o += "\\n";
			else if (x == 0) o += "\\0";
			else if (x == 9) o += "\\t";
			else if (x == 13) o += "\\r";
			else if (x < 32 || x == 127 || r.chance(.02)) o += x < 256 ? sfmt("\\x%02x", x) : x < 0x10000 ? sfmt("\\u%04x", x) : sfmt("\\U%08x", x);
			else if ((x >= 0x80 && x <= 0xa0) || (x >= 0x2000 && x < 0x2100) || x == 0xfeff || x >= 0xfff0) o += x < 256 ? sfmt("\\x%02x", x) : x < 0x10000 ? sfmt("\\u%04x", x) : sfmt("\\U%08x", x);
			else o += utf8_encode(x);
		}
		return o + "\"";
	}
	string scalar(const Y &y, bool oneline, int indent) {
		const string &t = y.text;
		if (!r.chance(p.p_dq)) {
			if (t.empty() && !y.quoted && !oneline && r.chance(.4)) return "";
			if (!y.quoted && plain_ok(t) && r.chance(p.p_plain)) {
				string o;
				for (size_t i = 0; i < t.size(); i++) {
					if (t[i] == ' ' && !oneline && r.chance(.1) && i + 1 < t.size() && t[i + 1] != '-') o += "\n" + string((size_t)indent + 1, ' ');
					else o += t[i];
				}
				return o;
			}
			if (simple_printable(t) && (r.chance(p.p_sq + .3))) {
				string o = "'";
				for (char c : t) { if (c == '\'') o += '\''; o += c; }
				return o + "'";
			}
		}
		return dq(t, oneline, indent);
	}
	string props(const Y &y) {
		string o;
		if (!y.anchor.empty() && y.k != Y::ALIAS) o += "&" + y.anchor;
		if (y.k != Y::ALIAS && r.chance(p.p_tag)) {
			if (!o.empty()) o += " ";
			o += y.k == Y::SCALAR ? r.pick({"!!str", "!local", "!!int", "!<tag:x.org,2000:y>"}) : y.k == Y::SEQ ? "!!seq" : "!!map";
		}
		return o;
	}
	string comment() { return r.chance(p.p_comment) ? string(" # ") + r.pick({"comment", "x: y", "- [", "'"}) : ""; }
	bool kept = false; // a literal scalar which keeps blank lines is in front
	void comment_line() { bool k = kept; kept = false; if (r.chance(p.p_comment * .5)) out += !k && r.chance(.5) ? "\n" : string("# ") + r.pick({"note", "a: b", "\""}) + "\n"; }
	string flow(const Y &y, int indent, bool oneline, bool noprops = false) {
		string pr = noprops ? string() : props(y), o = pr.empty() ? "" : pr + " ";
		if (y.k == Y::ALIAS) return "*" + y.text;
		if (y.k == Y::SCALAR) {
			string t = scalar(y, oneline, indent);
			if (t.empty()) return pr.empty() ? "''" : pr;
			return o + t;
		}
		auto gap = [&]() { return oneline || !r.chance(.1) ? string(r.chance(.5) ? " " : "") : "\n" + string((size_t)indent + 1, ' '); };
		if (y.k == Y::SEQ) {
			o += "[";
			for (size_t i = 0; i < y.kids.size(); i++) { if (i) o += ", "; o += gap() + flow(y.kids[i], indent, oneline) + " "; }
			if (!y.kids.empty() && r.chance(.1)) o += ",";
			return o + "]";
		}
		o += "{";
		for (size_t i = 0; i + 1 < y.kids.size(); i += 2) {
			if (i) o += ", ";
			const Y &k = y.kids[i];
			string ks = flow(k, indent, true);
			bool expl = ks.size() > 900 || (k.k != Y::SCALAR && k.k != Y::ALIAS) || r.chance(.03);
			o += gap() + (expl ? "? " : "") + ks + " : " + flow(y.kids[i + 1], indent, oneline || !expl) + " ";
		}
		return o + "}";
	}
	// text of the node in block context, to follow "- ", "key:" or "? "
	// on the same line; ends with a line feed
	void node(const Y &y, int indent, bool after_key, bool root) {
		string pr = props(y);
		bool blocky = (y.k == Y::SEQ || y.k == Y::MAP) && !y.kids.empty() && !r.chance(p.p_flow);
		if (!blocky) {
			if (y.k == Y::SCALAR && !root && lit_ok(y.text) && r.chance(p.p_lit)) {
				size_t n = y.text.size(), e = n;
				while (e > 0 && y.text[e - 1] == '\n') e--;
				size_t nl = n - e;
				out += " " + (pr.empty() ? "" : pr + " ") + "|" + (nl == 0 ? "-" : nl == 1 ? "" : "+") + "\n";
				kept = nl > 1;
				string pad((size_t)(indent + p.indent), ' ');
				size_t at = 0;
				while (at < n) {
					size_t q = y.text.find('\n', at);
					string line = y.text.substr(at, q == string::npos ? string::npos : q - at);
					out += (line.empty() ? "" : pad + line) + "\n";
					if (q == string::npos) break;
					at = q + 1;
				}
				return;
			}
			string t = (y.k == Y::SCALAR) ? scalar(y, false, indent + 1) : y.k == Y::ALIAS ? "*" + y.text : "";
			if (y.k == Y::SEQ || y.k == Y::MAP) {
				t = flow2(y, indent + 1);
			}
			if (root && t.empty() && pr.empty()) t = "''";
			string s = pr;
			if (!t.empty()) s += (s.empty() ? "" : " ") + t;
			out += (s.empty() ? "" : (root ? "" : " ") + s) + comment() + "\n";
			return;
		}
		int step = p.indent;
		int child = root ? 0 : indent + step;
		if (y.k == Y::SEQ && after_key && indent >= 0 && r.chance(.3)) child = indent;
		bool compact = !after_key && !root && pr.empty() && r.chance(.6);
		if (compact) {
			size_t at = out.size();
			int ci = indent + 2;
			body(y, ci, true);
			// replace leading pad by what follows "- "
			size_t pad = (size_t)ci;
			out.erase(at, pad - 0);
			out.insert(at, " ");
			return;
		}
		if (root) { if (!pr.empty()) out += pr + comment() + "\n"; }
		else out += (pr.empty() ? "" : " " + pr) + comment() + "\n";
		body(y, child, false);
	}
	string flow2(const Y &y, int indent) {
		// the props have been written already
		string s = flow(y, indent, false, true);
		return s;
	}
	bool lit_ok(const string &t) {
		if (t.empty() || t[0] == ' ' || t[0] == '\n' || t[0] == '\t') return false;
		vector<unsigned> c;
		if (!utf8_decode(t, c)) return false;
		for (auto x : c) if (!((x >= 32 && x < 127) || (x >= 0xa1 && x < 0x2000) || x == '\n')) return false;
		size_t e = t.size();
		while (e > 0 && t[e - 1] == '\n') e--;
		if (e == 0) return false;
		return true;
	}
	void body(const Y &y, int indent, bool first_inline) {
		string pad((size_t)indent, ' ');
		if (y.k == Y::SEQ) {
			for (size_t i = 0; i < y.kids.size(); i++) {
				if (!(first_inline && i == 0)) comment_line();
				out += pad + "-";
				node(y.kids[i], indent, false, false);
			}
			return;
		}
		for (size_t i = 0; i + 1 < y.kids.size(); i += 2) {
			if (!(first_inline && i == 0)) comment_line();
			const Y &k = y.kids[i];
			string ks = flow(k, indent + 1, true);
			bool expl = ks.size() > 900 || (k.k != Y::SCALAR && k.k != Y::ALIAS) || r.chance(.03);
			if (expl) {
				out += pad + "? " + ks + "\n" + pad + ":";
				node(y.kids[i + 1], indent, false, false);
			} else {
				out += pad + ks + (k.k == Y::ALIAS ? " :" : ":");
				node(y.kids[i + 1], indent, true, false);
			}
		}
	}
};
}
string render(const Y &y, Rng &r, const Present &p) {
	Ren n{r, p, ""};
	if (p.header) {
		if (r.chance(.3)) n.out += "%YAML 1.1\n";
		if (r.chance(.2)) n.out += "%TAG !e! tag:example.org,2000:\n";
		n.out += "---\n";
	}
	n.node(y, -1, false, true);
	if (p.footer) n.out += "...\n";
	if (p.extra_doc) {
		string body = n.out.compare(0, 1, "%") ? n.out : "";
		for (unsigned i = r.chance(.7) ? 1 : 2 + (unsigned)r.below(3); i > 0; i--) {
			if (r.chance(.4)) n.out += string("...\n") + (r.chance(.5) ? "%YAML 1.1\n" : "") + (r.chance(.3) ? "%TAG !e! tag:example.org,2000:\n" : "");
			n.out += "---\n";
			n.out += r.chance(.3) && body.compare(0, 3, "---") && body.find("...") == string::npos ? body : r.pick({"other: document\n", "- x\n", "text\n", "&a {b: *a}\n", "\n", "? !e!x [\n", "'"});
			if (r.chance(.2)) n.out += "...\n";
		}
	}
	string o = n.out;
	if (p.crlf) { string q; for (char c : o) { if (c == '\n') q += '\r'; q += c; } o = q; }
	vector<unsigned> c;
	if (p.utf16 && utf8_decode(o, c)) {
		string q;
		auto put = [&](unsigned u) { if (p.utf16 == 1) { q += (char)(u & 255); q += (char)(u >> 8); } else { q += (char)(u >> 8); q += (char)(u & 255); } };
		put(0xfeff);
		for (auto x : c) { if (x < 0x10000) put(x); else { x -= 0x10000; put(0xd800 | x >> 10); put(0xdc00 | (x & 0x3ff)); } }
		return q;
	}
	if (p.bom) o = "\xef\xbb\xbf" + o;
	return o;
}
// presentation by libyaml's own emitter
static bool emit_y(yaml_emitter_t *e, const Y &y, Rng &r) {
	yaml_event_t ev;
	yaml_char_t *an = y.anchor.empty() ? nullptr : (yaml_char_t *)y.anchor.c_str();
	if (y.k == Y::ALIAS) return yaml_alias_event_initialize(&ev, (yaml_char_t *)y.text.c_str()) && yaml_emitter_emit(e, &ev);
	if (y.k == Y::SCALAR)
		return yaml_scalar_event_initialize(&ev, an, nullptr, (yaml_char_t *)y.text.data(), (int)y.text.size(), 1, 1, (yaml_scalar_style_t)r.below(6)) && yaml_emitter_emit(e, &ev);
	if (y.k == Y::SEQ) {
		if (!yaml_sequence_start_event_initialize(&ev, an, nullptr, 1, (yaml_sequence_style_t)r.below(3)) || !yaml_emitter_emit(e, &ev)) return false;
		for (auto &k : y.kids) if (!emit_y(e, k, r)) return false;
		return yaml_sequence_end_event_initialize(&ev) && yaml_emitter_emit(e, &ev);
	}
	if (!yaml_mapping_start_event_initialize(&ev, an, nullptr, 1, (yaml_mapping_style_t)r.below(3)) || !yaml_emitter_emit(e, &ev)) return false;
	for (auto &k : y.kids) if (!emit_y(e, k, r)) return false;
	return yaml_mapping_end_event_initialize(&ev) && yaml_emitter_emit(e, &ev);
}
static int to_string(void *d, unsigned char *b, size_t n) { ((string *)d)->append((char *)b, n); return 1; }
string render_libyaml(const Y &y, Rng &r) {
	yaml_emitter_t e;
	yaml_event_t ev;
	string out;
	yaml_emitter_initialize(&e);
	yaml_emitter_set_output(&e, to_string, &out);
	yaml_emitter_set_width(&e, r.chance(.3) ? -1 : (int)(10 + r.below(100)));
	yaml_emitter_set_indent(&e, (int)(2 + r.below(7)));
	yaml_emitter_set_unicode(&e, (int)r.below(2));
	yaml_emitter_set_canonical(&e, r.chance(.1));
	bool ok = yaml_stream_start_event_initialize(&ev, YAML_UTF8_ENCODING) && yaml_emitter_emit(&e, &ev) &&
		yaml_document_start_event_initialize(&ev, nullptr, nullptr, nullptr, (int)r.below(2)) && yaml_emitter_emit(&e, &ev) &&
		emit_y(&e, y, r) &&
		yaml_document_end_event_initialize(&ev, (int)r.below(2)) && yaml_emitter_emit(&e, &ev) &&
		yaml_stream_end_event_initialize(&ev) && yaml_emitter_emit(&e, &ev) && yaml_emitter_flush(&e);
	yaml_emitter_delete(&e);
	return ok ? out : string();
}

struct Spot { const SV *s; Val *v; unsigned count_size; bool text; };
static void spots(const SV *s, Val &v, vector<Spot> &o, bool droppable, unsigned count_size = 0) {
	bool ptr = has(s, CYAML_FLAG_POINTER);
	if (v.k == Val::NUL || v.k == Val::IGN || v.absent) return;
	if (ptr && !has(s, CYAML_FLAG_POINTER_NULL) && (s->type != CYAML_SEQUENCE || count_size) && !droppable) o.push_back({s, &v, count_size, false});
	else if ((s->type == CYAML_ENUM || s->type == CYAML_FLAGS) && has(s, CYAML_FLAG_STRICT)) o.push_back({s, &v, 0, false});
	if (s->type == CYAML_STRING) o.push_back({s, &v, 0, true});
	if (s->type == CYAML_MAPPING) { size_t i = 0; for (const SF *f = s->mapping.fields; f->key; f++, i++) spots(&f->value, v.kids[i], o, has(&f->value, CYAML_FLAG_OPTIONAL), f->value.type == CYAML_SEQUENCE ? f->count_size : 0); }
	else if (is_seq(s)) for (auto &k : v.kids) spots(s->sequence.entry, k, o, false);
}
bool spoil(const SV *s, Val &v, Rng &r) {
	vector<Spot> o;
	spots(s, v, o, true);
	if (o.empty()) return false;
	auto &x = o[r.below(o.size())];
	const SV *t = x.s;
	if (x.text) { // not text
		string bad = r.pick({"\xff", "\x80", "\xc3", "a\xe2\x82", "\xc3(", "\xf0\x9f\x98", "\xfe\xff"});
		size_t room = has(t, CYAML_FLAG_POINTER) ? t->string.max : std::min<size_t>(t->string.max, t->data_size - 1);
		if (x.v->s.size() + bad.size() > room) x.v->s.resize(room > bad.size() ? r.below(room - bad.size()) : 0);
		while (!x.v->s.empty() && (x.v->s.back() & 0x80)) x.v->s.pop_back(); // cut in the middle of a character
		if (x.v->s.size() + bad.size() > room) return false;
		if (x.v->s.size() + bad.size() < t->string.min) return false;
		x.v->s += bad;
		if (r.chance(.2)) // once there is more than the emitter keeps back
			for (int i = 0; i < 6; i++) { auto &y = o[r.below(o.size())]; if (y.text && y.v != x.v && has(y.s, CYAML_FLAG_POINTER) && y.s->string.max > 60000 && r.chance(.5)) y.v->s = string(16000 + r.below(30000), 'y'); }
		ST["not_text"]++;
		return true;
	}
	bool strict = (t->type == CYAML_ENUM || t->type == CYAML_FLAGS) && has(t, CYAML_FLAG_STRICT);
	if (strict && (x.v == &v || !has(t, CYAML_FLAG_POINTER) || r.chance(.5))) {
		for (int i = 0; i < 100; i++) {
			if (t->type == CYAML_ENUM) x.v->i = sext(r.next(), t->data_size);
			else x.v->u |= (uint64_t)1 << r.below(t->data_size * 8);
			if (!save_accepts(t, *x.v)) return true;
		}
		return false;
	}
	*x.v = Val();
	if (t->type == CYAML_SEQUENCE) { // no sequence, but a count all the same
		uint64_t lim = umax(x.count_size);
		x.v->u = r.chance(.5) ? 1 + r.below(std::min<uint64_t>(lim, 300)) : (uint64_t)1 << r.below(std::min(x.count_size, 4u) * 8);
		RUN.lost_counts = true;
		ST["null_with_count"]++;
	}
	return !save_accepts(s, v);
}
