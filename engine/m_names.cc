// Modes about names: C12
#include "core.h"

// The comparison itself, where the library has one of that name.
extern "C" int cyaml_utf8_casecmp(const void *, const void *) __attribute__((weak));

namespace {
const vector<unsigned> &codepoints() { // the folded blocks, what is around them, and look-alikes
	static const vector<unsigned> c = [] {
		vector<unsigned> v;
		for (unsigned i = 1; i < 0x2b0; i++) v.push_back(i);
		for (unsigned i : {0x370u, 0x391u, 0x3b1u, 0x3a9u, 0x3c9u, 0x410u, 0x430u, 0x531u, 0x561u, 0x7ffu, 0x800u, 0x1e00u, 0x1e01u, 0x1e9eu, 0x2126u, 0x212au, 0x212bu, 0x2160u, 0x2170u, 0x24b6u, 0x24d0u,
			0x2c60u, 0x2c61u, 0x2c62u, 0x2c63u, 0x2c64u, 0x2c65u, 0x2c66u, 0x2c6fu, 0x2c7eu, 0x2c7fu, 0xa77du, 0xd7ffu, 0xe000u, 0xff21u, 0xff41u, 0xfffdu, 0x10400u, 0x10428u, 0x1f600u, 0x10ffffu})
			v.push_back(i);
		return v;
	}();
	return c;
}
string quoted(const string &s) {
	vector<unsigned> c;
	if (!utf8_decode(s, c)) harness_error("name is not UTF-8");
	string o = "\"";
	for (unsigned x : c) {
		if (x == '"' || x == '\\') { o += '\\'; o += (char)x; }
		else if (x >= 0x20 && x < 0x7f) o += (char)x;
		else if (x < 0x100) o += sfmt("\\x%02x", x);
		else if (x < 0x10000) o += sfmt("\\u%04x", x);
		else o += sfmt("\\U%08x", x);
	}
	return o + "\"";
}
enum Kind { K_ENUM, K_FLAGS, K_BITS, K_KEYS, KINDS };
const char *kind_name[] = {"enumeration", "flags", "bit field", "mapping"};
// names looked up in a table of names of the given kind
struct Table {
	Kind kind;
	vector<string> names;
	SV value, top;
	Arena *arena;
	vector<const char *> strs;
	Table(Arena &ar, Kind k, const vector<string> &n, unsigned flags, bool strict, Rng &r) : kind(k), names(n), arena(&ar) {
		memset(&value, 0, sizeof value);
		value.flags = (cyaml_flag_e)(flags | CYAML_FLAG_POINTER | (strict ? CYAML_FLAG_STRICT : 0));
		size_t c = names.size();
		switch (k) {
		case K_ENUM: case K_FLAGS: {
			value.type = k == K_ENUM ? CYAML_ENUM : CYAML_FLAGS;
			value.data_size = 4;
			auto *t = (cyaml_strval_t *)ar.get(sizeof(cyaml_strval_t) * (c ? c : 1));
			for (size_t i = 0; i < c; i++) { cyaml_strval_t x = {ar.str(names[i]), k == K_ENUM ? (int64_t)(i + 100) : (int64_t)(i + 1)}; memcpy(&t[i], &x, sizeof x); }
			value.enumeration.strings = t;
			value.enumeration.count = (uint32_t)c;
			break;
		}
		case K_BITS: {
			value.type = CYAML_BITFIELD;
			value.data_size = 8;
			auto *t = (cyaml_bitdef_t *)ar.get(sizeof(cyaml_bitdef_t) * (c ? c : 1));
			for (size_t i = 0; i < c; i++) { cyaml_bitdef_t x; memset(&x, 0, sizeof x); x.name = ar.str(names[i]); x.offset = (uint8_t)(i % 64); x.bits = 1; memcpy(&t[i], &x, sizeof x); }
			value.bitfield.bitdefs = t;
			value.bitfield.count = (uint32_t)c;
			break;
		}
		default: {
			value.type = CYAML_MAPPING;
			value.data_size = (uint32_t)(c * 2 + 2);
			auto *f = (SF *)ar.get(sizeof(SF) * (c + 1));
			for (size_t i = 0; i < c; i++) {
				f[i].key = ar.str(names[i]);
				f[i].data_offset = (uint32_t)(i * 2);
				f[i].value.type = CYAML_UINT;
				f[i].value.data_size = 2;
				f[i].value.flags = CYAML_FLAG_OPTIONAL;
				// the flags of the values have no say about the keys
				if (r.chance(.3)) f[i].value.flags = (cyaml_flag_e)(CYAML_FLAG_OPTIONAL | (r.chance(.5) ? CYAML_FLAG_CASE_INSENSITIVE : CYAML_FLAG_CASE_SENSITIVE));
			}
			value.mapping.fields = f;
		}
		}
		top = value;
		if (k == K_FLAGS) return;
	}
	string doc(const string &text) const {
		switch (kind) {
		case K_ENUM: return quoted(text) + "\n";
		case K_FLAGS: return "[" + quoted(text) + "]\n";
		default: return "{? " + quoted(text) + " : 1}\n";
		}
	}
	// which name was taken: -1 if none
	long taken(const void *d) const {
		uint64_t v;
		if (kind == K_KEYS) {
			long at = -1;
			for (size_t i = 0; i < names.size(); i++) {
				uint16_t x;
				memcpy(&x, (const uint8_t *)d + i * 2, 2);
				if (x == 1) { if (at >= 0) violation("one key set two fields"); at = (long)i; }
				else if (x) violation("field %zu has value %u", i, x);
			}
			return at;
		}
		v = read_num((const uint8_t *)d, value.data_size);
		if (kind == K_ENUM) return (long)v - 100;
		if (kind == K_FLAGS) return (long)v - 1;
		long at = -1;
		for (long i = 0; i < 64; i++) if (v >> i & 1) { if (at >= 0) violation("one name set two bit fields"); at = i; }
		return at;
	}
};
bool sensitive(unsigned cfg_flags, unsigned flags) {
	if (flags & CYAML_FLAG_CASE_INSENSITIVE) return false;
	if (flags & CYAML_FLAG_CASE_SENSITIVE) return true;
	return !(cfg_flags & CYAML_CFG_CASE_INSENSITIVE);
}
struct Lookup {
	Alloc a;
	cyaml_config_t cfg;
	Lookup(unsigned flags) { cfg = mk_config(&a, nullptr, nullptr, flags); }
	// names in use: which one does text select, or -1
	void check(const Table &t, const string &text, bool sens) {
		long want = -1;
		for (size_t i = 0; i < t.names.size() && want < 0; i++) if (ref_equal(text, t.names[i], sens)) want = (long)i;
		bool unknown_ok = t.kind == K_KEYS && (cfg.flags & CYAML_CFG_IGNORE_UNKNOWN_KEYS);
		RUN.lazy = [&, want] {
			string o = sfmt("%s, %s, \"%s\" should select %ld\n", kind_name[t.kind], sens ? "case sensitive" : "case insensitive", esc(text).c_str(), want);
			for (size_t i = 0; i < t.names.size() && i < 60; i++) o += sfmt(" %zu \"%s\"", i, esc(t.names[i]).c_str());
			return o + "\n";
		};
		LoadRes l = do_load(t.doc(text), &cfg, &t.top);
		ST["lookups"]++;
		if (want < 0 && !unknown_ok) {
			if (l.err == CYAML_OK) violation("a name that matches none of the %s was accepted as number %ld", kind_name[t.kind], t.taken(l.data));
			cyaml_err_t e = t.kind == K_KEYS ? CYAML_ERR_INVALID_KEY : CYAML_ERR_INVALID_VALUE;
			if (l.err != e && t.kind != K_BITS) violation("unmatched name gives %s", errname(l.err));
			ST["unmatched"]++;
		} else {
			if (l.err != CYAML_OK) violation("%s name was rejected: %s", want < 0 ? "an ignored" : "a matching", errname(l.err));
			long got = t.taken(l.data);
			if (got != want) violation("name selects %ld instead of %ld of the %s", got, want, kind_name[t.kind]);
			ST[want < 0 ? "ignored" : "matched"]++;
			if (want >= 0 && t.names[(size_t)want] != text) ST["matched_in_other_case"]++;
			do_free(&cfg, &t.top, l.data, 0);
		}
		check_alloc(a, "after the lookup");
		RUN.lazy = nullptr;
	}
};
string recase(const string &s, Rng &r, double p = .5) { // other letters of the same folding
	static const std::map<unsigned, vector<unsigned>> classes = [] {
		std::map<unsigned, vector<unsigned>> m;
		for (unsigned c : codepoints()) m[ref_fold(c)].push_back(c);
		return m;
	}();
	vector<unsigned> c;
	if (!utf8_decode(s, c)) return s;
	string o;
	for (unsigned x : c) {
		auto it = classes.find(ref_fold(x));
		o += utf8_encode(it != classes.end() && r.chance(p) ? r.pick(it->second) : x);
	}
	return o;
}
string random_name(Rng &r) {
	string o;
	unsigned n = (unsigned)r.below(r.chance(.1) ? 40 : 6);
	unsigned style = (unsigned)r.below(4);
	for (unsigned i = 0; i < n; i++) {
		if (style == 0) o += (char)r.range('A', 'Z') ^ (r.chance(.5) ? 32 : 0);
		else if (style == 1) o += (char)r.range(0x21, 0x7e);
		else o += utf8_encode(r.pick(codepoints()));
	}
	return o;
}
string near_miss(const string &s, Rng &r) {
	vector<unsigned> c;
	if (!utf8_decode(s, c)) return s;
	size_t at = r.below(c.size() + 1);
	switch (r.below(7)) {
	case 0: if (at < c.size()) c.erase(c.begin() + (long)at); break;
	case 1: c.insert(c.begin() + (long)at, r.pick(codepoints())); break;
	case 2: if (at < c.size()) c[at] = r.pick(codepoints()); break;
	case 3: if (at < c.size() && c[at] > 1 && c[at] < 0x10ffff && c[at] != 0xd7ff && c[at] != 0xe000) c[at] += r.chance(.5) ? 1 : (unsigned)-1; break;
	case 4: if (at < c.size() && c[at] < 0xd800 && (c[at] ^ 0x20)) c[at] ^= 0x20; break; // like the case of ASCII letters
	case 5: if (c.size() > 1) { size_t b = r.below(c.size()); if (at < c.size()) std::swap(c[at], c[b]); } break;
	default: if (at < c.size()) c.resize(at);
	}
	string o;
	for (unsigned x : c) o += utf8_encode(x);
	return o;
}
}

MODE(fold) { // C12: every letter of the folded blocks against every other
	const auto &cps = codepoints();
	unsigned b = cps[RUN.cur % cps.size()];
	Kind kind = r.chance(.5) ? K_KEYS : K_ENUM;
	bool by_cfg = r.chance(.5);
	string pre = r.chance(.5) ? "" : random_name(r), post = r.chance(.5) ? "" : random_name(r);
	for (int sens = 0; sens < 2; sens++) {
		unsigned cf = 0, vf = 0;
		if (!sens) { if (by_cfg) cf = CYAML_CFG_CASE_INSENSITIVE; else vf = CYAML_FLAG_CASE_INSENSITIVE; }
		else if (!by_cfg) { cf = CYAML_CFG_CASE_INSENSITIVE; vf = CYAML_FLAG_CASE_SENSITIVE; }
		Lookup lk(cf);
		// all others, in any order; then those which do not match at all
		for (int without = 0; without < 2; without++) {
			Arena ar;
			vector<string> names;
			for (unsigned c : cps) {
				if (without && (sens ? c == b : ref_fold(c) == ref_fold(b))) continue;
				names.push_back((sens ? pre : recase(pre, r)) + utf8_encode(c) + (sens ? post : recase(post, r)));
			}
			for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
			Table t(ar, kind, names, vf, true, r);
			lk.check(t, pre + utf8_encode(b) + post, sens);
			ST["pairs_of_letters"] += names.size();
			ST.seen(hash_str(pre + post, b * 16 + (unsigned)sens * 4 + kind + (unsigned)without * 8));
		}
	}
	if (r.chance(.02)) ST.sample(sfmt("U+%04X in \"%s_%s\"", b, esc(pre).c_str(), esc(post).c_str()));
}

MODE(planes) { // C12: every character there is keeps apart from every other that is not its other case
	const unsigned SIZE = 512;
	unsigned first = (unsigned)(RUN.cur % (0x110000 / SIZE)) * SIZE;
	vector<unsigned> cps;
	std::set<unsigned> used;
	auto add = [&](unsigned c) {
		if (c == 0 || c > 0x10ffff || (c >= 0xd800 && c < 0xe000) || !used.insert(c).second) return;
		cps.push_back(c);
	};
	add(0xfffd);
	unsigned bit = (unsigned)r.below(21);
	for (unsigned i = 0; i < SIZE; i++) add(first + i);
	if (cps.size() < 2) { ST["surrogate_blocks"]++; return; }
	size_t block = cps.size();
	for (unsigned i = 0; i < SIZE; i++) add((first + i) ^ (1u << (r.chance(.5) ? bit : r.below(21))));
	size_t all = cps.size();
	for (size_t i = all; i > 1; i--) std::swap(cps[i - 1], cps[r.below(i)]);
	string pre = r.chance(.5) ? "" : random_name(r), post = r.chance(.5) ? "" : random_name(r);
	Arena ar;
	Alloc a;
	bool by_cfg = r.chance(.5);
	cyaml_config_t cfg = mk_config(&a, nullptr, nullptr, by_cfg ? CYAML_CFG_CASE_INSENSITIVE : 0);
	auto *t = (cyaml_strval_t *)ar.get(sizeof(cyaml_strval_t) * all);
	std::map<unsigned, size_t> at;
	for (size_t i = 0; i < all; i++) {
		cyaml_strval_t x = {ar.str(recase(pre, r) + utf8_encode(cps[i]) + recase(post, r)), (int64_t)i};
		memcpy(&t[i], &x, sizeof x);
		at.insert({ref_fold(cps[i]), i});
	}
	SV entry, top;
	memset(&entry, 0, sizeof entry);
	memset(&top, 0, sizeof top);
	entry.type = CYAML_ENUM;
	entry.flags = (cyaml_flag_e)(CYAML_FLAG_STRICT | (by_cfg ? 0 : CYAML_FLAG_CASE_INSENSITIVE));
	entry.data_size = 4;
	entry.enumeration.strings = t;
	entry.enumeration.count = (uint32_t)all;
	top.type = CYAML_SEQUENCE;
	top.flags = CYAML_FLAG_POINTER;
	top.data_size = 4;
	top.sequence.min = 0;
	top.sequence.max = UINT32_MAX;
	top.sequence.entry = &entry;
	string doc;
	vector<unsigned> order;
	for (unsigned c : cps) if (c == 0xfffd || (c >= first && c < first + SIZE) || r.chance(.2)) order.push_back(c);
	for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	for (unsigned c : order) doc += "- " + quoted(recase(pre, r) + utf8_encode(c) + recase(post, r)) + "\n";
	RUN.lazy = [&] { return sfmt("characters U+%04X to U+%04X among %zu, between \"%s\" and \"%s\"\n", first, first + SIZE - 1, all, esc(pre).c_str(), esc(post).c_str()); };
	LoadRes l = do_load(doc, &cfg, &top);
	if (l.err != CYAML_OK) violation("names that are all in the table were rejected: %s", errname(l.err));
	if (l.count != order.size()) violation("%u values where there are %zu", l.count, order.size());
	for (size_t i = 0; i < order.size(); i++) {
		uint32_t v;
		memcpy(&v, (const uint8_t *)l.data + i * 4, 4);
		if (v >= all) violation("value %u is none of the table", v);
		if (v != at[ref_fold(order[i])]) violation("U+%04X selects U+%04X", order[i], cps[v]);
	}
	do_free(&cfg, &top, l.data, l.count);
	check_alloc(a, "after the lookups");
	ST["characters"] += block - 1;
	ST["pairs_of_characters"] += all * order.size();
	for (size_t i = 0; i < order.size(); i++) ST.seen(order[i] + 0x5000000ull);
	RUN.lazy = nullptr;
}

MODE(names) { // C12: tables of names, and texts like them
	Arena ar;
	Kind kind = (Kind)r.below(KINDS);
	unsigned cf = 0, vf = 0;
	if (r.chance(.5)) cf |= CYAML_CFG_CASE_INSENSITIVE;
	if (r.chance(.3)) vf |= CYAML_FLAG_CASE_INSENSITIVE;
	else if (r.chance(.4)) vf |= CYAML_FLAG_CASE_SENSITIVE;
	if (kind == K_KEYS && r.chance(.3)) cf |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	bool sens = sensitive(cf, vf);
	unsigned n = 1 + (unsigned)r.below(r.chance(.2) ? 60 : 8);
	vector<string> names;
	for (unsigned i = 0; i < n; i++) {
		string s = names.empty() || r.chance(.4) ? random_name(r) : r.chance(.5) ? near_miss(r.pick(names), r) : recase(r.pick(names), r, .3);
		if (std::find(names.begin(), names.end(), s) != names.end() && kind != K_ENUM) continue; // the first of two must be taken, but that is for other properties
		names.push_back(s);
	}
	Table t(ar, kind, names, vf, true, r);
	Lookup lk(cf);
	unsigned q = 1 + (unsigned)r.below(12);
	for (unsigned i = 0; i < q; i++) {
		string text = r.pick(names);
		if (r.chance(.5)) text = recase(text, r);
		if (r.chance(.4)) text = near_miss(text, r);
		if (text.find('\0') != string::npos) continue;
		lk.check(t, text, sens);
		ST.seen(hash_str(text, hash_str(names[0], n * 16 + kind * 2 + sens)));
	}
	ST[sens ? "tables_case_sensitive" : "tables_case_insensitive"]++;
	// as part of a larger structure, each level with a rule of its own
	Prof p = Prof::swarm(r);
	p.p_case = .5;
	p.p_exotic = .6;
	p.budget = 40;
	World w(r, p, random_cfg_flags(r) ^ (r.chance(.5) ? CYAML_CFG_CASE_INSENSITIVE : 0));
	Y y;
	string doc = gen_valid_doc(w, r, nullptr, &y);
	std::function<void(Y &)> walk = [&](Y &x) {
		if (x.k == Y::SCALAR && r.chance(.2)) { string o = r.chance(.8) ? recase(x.text, r) : near_miss(x.text, r); if (o.find('\0') == string::npos) { x.text = o; x.quoted = true; } }
		for (auto &k : x.kids) walk(k);
	};
	walk(y);
	doc = render(y, r, Present::random(r));
	w.show(doc);
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
	LoadRes l = do_load(doc, &w.cfg, w.top());
	string e = judge_load(m, l, w.top(), &w.a, false);
	if (!e.empty()) violation("%s", e.c_str());
	ST[l.err == CYAML_OK ? "documents_accepted" : "documents_rejected"]++;
	if (l.err == CYAML_OK) w.release(l.data, l.count);
	w.finish();
	if (r.chance(.003)) ST.sample(sfmt("%s of %zu: ", kind_name[kind], names.size()) + esc(names[0], 80));
}

MODE(casecmp) { // C12: the comparison on its own, for any bytes
	if (!cyaml_utf8_casecmp) { ST["no_such_function"]++; return; }
	auto bytes = [&]() {
		string o;
		unsigned n = (unsigned)r.below(r.chance(.1) ? 60 : 10);
		unsigned style = (unsigned)r.below(4);
		for (unsigned i = 0; i < n; i++) {
			if (style == 0) o += (char)r.range(1, 255);
			else if (style == 1) o += (char)r.pick(vector<int>{0x41, 0x61, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff, 0x9f, 0xa0, 0x8f, 0x90});
			else if (style == 2) { string s = utf8_encode(r.pick(codepoints())); o += r.chance(.3) ? s.substr(0, 1 + r.below(s.size())) : s; }
			else o += utf8_encode(r.pick(codepoints()));
		}
		return o;
	};
	auto variant = [&](string s) {
		vector<unsigned> c;
		if (utf8_decode(s, c)) return r.chance(.6) ? recase(s, r) : near_miss(s, r);
		size_t at = r.below(s.size() + 1);
		switch (r.below(5)) {
		case 0: if (at < s.size()) s[at] = (char)r.range(1, 255); break;
		case 1: if (at < s.size()) s.erase(at, 1); break;
		case 2: s.insert(at, 1, (char)r.range(1, 255)); break;
		case 3: if (at < s.size() && isalpha((unsigned char)s[at])) s[at] ^= 32; break;
		default: s.resize(at);
		}
		return s;
	};
	auto overlong = [&](const string &s) { // one character in more bytes than it takes
		vector<unsigned> c;
		if (!utf8_decode(s, c) || c.empty()) return s;
		size_t at = r.below(c.size());
		string o;
		for (size_t i = 0; i < c.size(); i++) {
			string e = utf8_encode(c[i]);
			if (i != at || e.size() > 3) { o += e; continue; }
			unsigned n = (unsigned)r.range(e.size() + 1, 4);
			o += (char)(0xf00 >> n & 0xff | c[i] >> (n - 1) * 6);
			for (unsigned k = n - 1; k-- > 0;) o += (char)(0x80 | (c[i] >> k * 6 & 63));
			ST["overlong"]++;
		}
		return o;
	};
	vector<string> v = {bytes()};
	for (unsigned i = 0, n = 2 + (unsigned)r.below(4); i < n; i++) v.push_back(r.chance(.8) ? variant(r.pick(v)) : bytes());
	if (r.chance(.3)) v.push_back(overlong(r.pick(v)));
	for (auto &s : v) s = s.substr(0, s.find('\0'));
	size_t n = v.size();
	RUN.lazy = [&] { string o; for (auto &s : v) o += "\"" + esc(s) + "\"\n"; return o; };
	vector<vector<bool>> eq(n, vector<bool>(n));
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
		char *a = strdup(v[i].c_str()), *b = strdup(v[j].c_str()); // blocks of their exact sizes
		int d = cyaml_utf8_casecmp(a, b);
		int e = cyaml_utf8_casecmp(a, b);
		if (d != e) violation("comparing the same strings gives %d and %d", d, e);
		if (i == j && cyaml_utf8_casecmp(a, a)) violation("a string differs from itself");
		free(a); free(b);
		eq[i][j] = d == 0;
		vector<unsigned> x, y;
		if (utf8_decode(v[i], x) && utf8_decode(v[j], y)) {
			ST["valid_pairs"]++;
			if (eq[i][j] != ref_equal(v[i], v[j], false)) violation("strings %zu and %zu %s", i, j, eq[i][j] ? "are taken for equal" : "are taken for different");
		} else {
			ST["invalid_pairs"]++;
			// What is not text may stand for U+FFFD, but for no other character.
			bool vi = utf8_decode(v[i], x), vj = utf8_decode(v[j], y);
			if (vi && std::find(x.begin(), x.end(), 0xfffd) != x.end()) vi = false;
			if (vj && std::find(y.begin(), y.end(), 0xfffd) != y.end()) vj = false;
			if ((vi || vj) && eq[i][j]) violation("strings %zu and %zu are taken for equal, one of which is not UTF-8", i, j);
			if (vi || vj) ST["text_and_other"]++;
		}
		ST["comparisons"]++;
		if (eq[i][j] && i != j) ST["equal"]++;
		ST.seen(hash_str(v[i], hash_str(v[j])));
	}
	for (size_t i = 0; i < n; i++) {
		if (!eq[i][i]) violation("string %zu differs from its copy", i);
		for (size_t j = 0; j < n; j++) {
			if (eq[i][j] != eq[j][i]) violation("strings %zu and %zu are equal one way round only", i, j);
			for (size_t k = 0; k < n; k++) if (eq[i][j] && eq[j][k] && !eq[i][k]) violation("strings %zu, %zu, %zu: equality does not carry over", i, j, k);
		}
	}
	if (r.chance(.001)) ST.sample(esc(v[0], 60) + " / " + esc(v[1], 60));
	RUN.lazy = nullptr;
}
