#include "core.h"
#ifdef HAVE_ASAN
#include <sanitizer/allocator_interface.h>
static bool heap_block(const void *p, size_t &n) { n = __sanitizer_get_ownership(p) ? __sanitizer_get_allocated_size(p) : 0; return n != 0; }
#else
static bool heap_block(const void *, size_t &n) { n = SIZE_MAX; return true; }
#endif

#include "fold_table.h"

// ------------------------------------------------------------ case folding
unsigned ref_fold(unsigned cp) { return cp < 0x250 ? fold_table[cp] : cp; }
string utf8_encode(unsigned c) {
	string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
bool utf8_decode(const string &s, vector<unsigned> &out) {
	out.clear();
	for (size_t i = 0; i < s.size();) {
		unsigned b = (uint8_t)s[i], n, c;
		if (b < 0x80) { n = 1; c = b; }
		else if (b >= 0xc2 && b < 0xe0) { n = 2; c = b & 31; }
		else if (b >= 0xe0 && b < 0xf0) { n = 3; c = b & 15; }
		else if (b >= 0xf0 && b < 0xf5) { n = 4; c = b & 7; }
		else return false;
		if (i + n > s.size()) return false;
		for (unsigned k = 1; k < n; k++) {
			unsigned d = (uint8_t)s[i + k];
			if ((d & 0xc0) != 0x80) return false;
			c = c << 6 | (d & 63);
		}
		if ((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || c > 0x10ffff) return false;
		out.push_back(c);
		i += n;
	}
	return true;
}
string ref_fold_str(const string &s) {
	vector<unsigned> c;
	if (!utf8_decode(s, c)) return s;
	string o;
	for (auto x : c) o += utf8_encode(ref_fold(x));
	return o;
}
bool ref_equal(const string &a, const string &b, bool sensitive) {
	if (sensitive) return a == b;
	return ref_fold_str(a) == ref_fold_str(b);
}
bool ref_sensitive(const cyaml_config_t *cfg, const SV *s) {
	if (has(s, CYAML_FLAG_CASE_INSENSITIVE)) return false;
	if (has(s, CYAML_FLAG_CASE_SENSITIVE)) return true;
	return !(cfg->flags & CYAML_CFG_CASE_INSENSITIVE);
}

// ------------------------------------------------------------ layout
size_t inline_size(const SV *s) {
	if (has(s, CYAML_FLAG_POINTER)) return sizeof(void *);
	if (is_seq(s)) return (size_t)s->data_size * s->sequence.max;
	if (s->type == CYAML_IGNORE) return 0;
	return s->data_size;
}
static size_t num_align(size_t n) { return n == 2 || n == 4 || n == 8 ? n : 1; }
size_t inline_align(const SV *s) {
	if (has(s, CYAML_FLAG_POINTER)) return sizeof(void *);
	switch (s->type) {
	case CYAML_MAPPING: {
		size_t a = 1;
		for (const SF *f = s->mapping.fields; f->key; f++) {
			a = std::max(a, inline_align(&f->value));
			if (f->value.type == CYAML_SEQUENCE) a = std::max(a, num_align(f->count_size));
		}
		return a;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: return inline_align(s->sequence.entry);
	case CYAML_STRING: case CYAML_IGNORE: return 1;
	default: return num_align(s->data_size);
	}
}
void write_num(uint8_t *p, size_t size, uint64_t v) { for (size_t i = 0; i < size; i++) p[i] = (uint8_t)(v >> (8 * i)); }
uint64_t read_num(const uint8_t *p, size_t size) {
	uint64_t v = 0;
	for (size_t i = 0; i < size; i++) v |= (uint64_t)p[i] << (8 * i);
	return v;
}
int64_t sext(uint64_t v, size_t size) {
	if (size >= 8) return (int64_t)v;
	uint64_t b = (uint64_t)1 << (size * 8 - 1);
	v &= UINT64_MAX >> ((8 - size) * 8);
	return (int64_t)((v ^ b) - b);
}

uint64_t Arena::checksum() const {
	uint64_t h = 7;
	for (auto b : blocks) h = hash_bytes(b, sizes.at(b), h);
	return h;
}

// ------------------------------------------------------------ names
static bool null_like(const string &s) { return s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL"; }
static bool number_like(const string &s) {
	if (s.empty()) return false;
	char *e;
	(void)strtoll(s.c_str(), &e, 0);
	if (*e == 0) return true;
	(void)strtod(s.c_str(), &e);
	return *e == 0;
}
static string rand_text(Rng &r, size_t n) {
	string s;
	for (size_t i = 0; i < n; i++) {
		switch (r.below(12)) {
		case 0: s += ' '; break;
		case 1: s += utf8_encode((unsigned)r.range(0xa0, 0x24f)); break;
		case 2: s += r.pick({":", "#", "-", "?", ",", "[", "]", "{", "}", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "\\", "/", ": ", " #", "~", "<", "="}); break;
		case 3: s += r.chance(.3) ? utf8_encode(0x4e00 + (unsigned)r.below(0x100)) : r.chance(.3) ? utf8_encode(0x1f600 + (unsigned)r.below(64)) : "\t"; break;
		default: s += (char)(r.chance(.5) ? 'a' + r.below(26) : r.chance(.5) ? 'A' + r.below(26) : '0' + r.below(10));
		}
	}
	return s;
}
string gen_name(Rng &r, const Prof &p, std::set<string> &used) {
	for (;;) {
		string s;
		if (r.chance(p.p_exotic)) {
			switch (r.below(9)) {
			case 0: s = rand_text(r, 1 + r.below(8)); break;
			case 1: for (unsigned n = 1 + (unsigned)r.below(5), i = 0; i < n; i++) s += utf8_encode((unsigned)r.range(0xc0, 0x24f)); break;
			case 2: s = rand_text(r, 20 + r.below(180)); break;
			case 3: s = r.pick({"<<", "=", "y", "n", "on", "true", "-", "?x", "a b", " lead", "trail ", "a: b", "a #b", "'q'", "\"q\"", "[x]", "{y}", "&a", "*a", "!t", "%d", "@x", "`x`", "---", "...", "# c", ", x"}); break;
			case 4: s = "\xc3\x89" + string(1, (char)('a' + r.below(26))); break;
			case 5: s = utf8_encode(0x1f600 + (unsigned)r.below(40)); break;
			case 6: s = string(r.pick({"line\nbreak", "tab\there", "bell\x07", "nbsp\xc2\xa0", "\xe2\x80\xa8ls", "cr\rx"})) + (char)('a' + r.below(26)); break;
			case 7: s = r.pick({"null", "~", "", "NULL", "Null"}); break;
			default: s = string(30 + r.below(230), (char)('a' + r.below(26))); break;
			}
		} else {
			unsigned n = 1 + (unsigned)r.below(6);
			for (unsigned i = 0; i < n; i++) s += (char)(r.chance(.25) ? 'A' + r.below(26) : 'a' + r.below(26));
			if (r.chance(.3)) s += sfmt("_%u", (unsigned)r.below(100));
		}
		if (used.insert(ref_fold_str(s)).second) return s;
	}
}

// ------------------------------------------------------------ schema generation
Prof Prof::swarm(Rng &r) {
	Prof p;
	p.depth = 1 + (int)r.below(5);
	p.max_fields = 1 + (int)r.below(8);
	p.max_seq = 1 + (int)r.below(8);
	p.big_sizes = r.chance(.4);
	p.p_ptr = r.pick(vector<double>{.1, .4, .8});
	p.p_opt = r.pick(vector<double>{0, .3, .8});
	p.p_null = r.pick(vector<double>{0, .2, .6});
	p.p_dflt = r.pick(vector<double>{0, .5, .9});
	p.p_strict = r.pick(vector<double>{0, .3, .9});
	p.p_range = r.pick(vector<double>{0, .3, .7});
	p.p_case = r.pick(vector<double>{0, .3});
	p.p_style = r.pick(vector<double>{0, 0, .3});
	p.p_sstyle = r.pick(vector<double>{0, 0, .4});
	p.p_wide = r.pick(vector<double>{0, .02, .1});
	p.p_deep = r.pick(vector<double>{0, .03, .15});
	p.p_ign = r.pick(vector<double>{0, .05, .2});
	p.p_exotic = r.pick(vector<double>{0, .2, .6});
	p.p_rec = r.pick(vector<double>{0, .0, .2});
	if (r.chance(.3)) { // leave out some types
		p.types = 0;
		for (int i = 0; i < 3; i++) p.types |= 1u << r.below(12);
		p.types |= 1u << CYAML_MAPPING;
	}
	return p;
}

namespace {
struct Gen {
	Rng &r; const Prof &p; Schema &out;
	int budget;
	uint64_t mult = 1; // copies of the current value which one parent may hold inline
	struct Open { SF *fields; vector<SV *> refs; };
	vector<Open *> open;
	Gen(Rng &r, const Prof &p, Schema &o) : r(r), p(p), out(o), budget(p.budget) {}

	uint32_t num_size() {
		if (p.big_sizes && r.chance(.3)) return (uint32_t)(1 + r.below(8));
		return r.pick(vector<uint32_t>{1, 2, 4, 8, 4, 8});
	}
	int64_t smax(uint32_t n) { return (int64_t)(UINT64_MAX >> ((8 - n) * 8) >> 1); }
	uint64_t umax(uint32_t n) { return UINT64_MAX >> ((8 - n) * 8); }
	int64_t rnd_int(uint32_t n) {
		int64_t mx = smax(n), mn = -mx - 1;
		switch (r.below(7)) {
		case 0: return mx;
		case 1: return mn;
		case 6: { int64_t b = (int64_t)((uint64_t)1 << r.below(n * 8 - 1)); return r.chance(.3) ? -b : b; }
		case 2: return -(int64_t)r.below(100) < mn ? mn : -(int64_t)(r.below(100));
		case 3: return sext(r.next(), n);
		default: return (int64_t)r.below(100);
		}
	}
	uint64_t rnd_uint(uint32_t n) {
		switch (r.below(6)) {
		case 0: return umax(n);
		case 5: { uint64_t b = (uint64_t)1 << r.below(n * 8); return r.chance(.3) ? umax(n) & ~b : b; }
		case 1: return r.next() & umax(n);
		case 2: return umax(n) >> 1;
		default: return r.below(100);
		}
	}
	SV *copy_sv(const SV &s) { SV *p2 = (SV *)out.arena.get(sizeof(SV)); *p2 = s; return p2; }

	void strings(SV &s, bool flags) {
		unsigned n = 1 + (unsigned)r.below(r.chance(.05) ? 60 : 7);
		cyaml_strval_t *t = (cyaml_strval_t *)out.arena.get(n * sizeof *t);
		std::set<string> used;
		std::set<int64_t> vals;
		for (unsigned i = 0; i < n; i++) {
			string nm;
			do {
				if (p.numeric_names && r.chance(.2)) { nm = sfmt(r.chance(.5) ? "%d" : "0x%x", (int)r.below(40)); if (!used.insert(nm).second) nm = ""; }
				else nm = gen_name(r, p, used);
			} while (null_like(nm) || (!p.numeric_names && number_like(nm)));
			t[i].str = out.arena.str(nm);
			if (flags) {
				switch (r.below(8)) {
				case 0: t[i].val = (int64_t)(r.next() & umax(s.data_size)); break;
				case 1: t[i].val = (int64_t)(((uint64_t)1 << r.below(s.data_size * 8)) | ((uint64_t)1 << r.below(s.data_size * 8))); break;
				case 2: t[i].val = (int64_t)((uint64_t)1 << (s.data_size * 8 - 1)); break;
				case 3: t[i].val = r.chance(.3) ? 0 : 3; break;
				default: t[i].val = (int64_t)((uint64_t)1 << r.below(s.data_size * 8));
				}
			} else {
				int64_t v;
				int tries = 0;
				do {
					v = r.chance(.5) ? (int64_t)i : rnd_int(s.data_size);
					if (s.data_size < 8 && r.chance(.2)) v = (int64_t)((uint64_t)v & umax(s.data_size)); // as of an unsigned type
				} while (!vals.insert(v).second && tries++ < 4);
				t[i].val = v;
			}
		}
		s.enumeration.strings = t;
		s.enumeration.count = n;
	}
	void bits(SV &s) {
		unsigned total = s.data_size * 8, pos = 0, n = 0;
		vector<cyaml_bitdef_t> v;
		std::set<string> used;
		while (pos < total && n < 20) {
			unsigned w = r.chance(.1) ? total - pos : 1 + (unsigned)r.below(std::min(total - pos, r.chance(.3) ? 64u : 8u));
			if (!r.chance(.15)) {
				cyaml_bitdef_t b; memset(&b, 0, sizeof b);
				string nm = gen_name(r, p, used);
				b.name = out.arena.str(nm);
				b.offset = (uint8_t)pos; b.bits = (uint8_t)w;
				v.push_back(b);
				n++;
			}
			pos += w;
		}
		if (v.size() > 1 && r.chance(.5)) for (size_t i = v.size() - 1; i > 0; i--) { size_t j = r.below(i + 1); cyaml_bitdef_t x; memcpy(&x, &v[i], sizeof x); memcpy(&v[i], &v[j], sizeof x); memcpy(&v[j], &x, sizeof x); }
		if (v.empty()) { cyaml_bitdef_t b; memset(&b, 0, sizeof b); b.name = out.arena.str("b"); b.offset = 0; b.bits = 1; v.push_back(b); }
		cyaml_bitdef_t *t = (cyaml_bitdef_t *)out.arena.get(v.size() * sizeof *t);
		memcpy(t, v.data(), v.size() * sizeof *t);
		s.bitfield.bitdefs = t;
		s.bitfield.count = (uint32_t)v.size();
	}
	cyaml_type_e pick_type(int depth, bool entry, bool field) {
		for (int tries = 0; tries < 60; tries++) {
			cyaml_type_e t = (cyaml_type_e)r.below(CYAML__TYPE_COUNT);
			if (t == CYAML_IGNORE) { if (!field || !r.chance(p.p_ign * 4)) continue; return t; }
			if (!(p.types >> t & 1)) continue;
			if (t == CYAML_SEQUENCE && entry) continue;
			if ((t == CYAML_MAPPING || t == CYAML_SEQUENCE || t == CYAML_SEQUENCE_FIXED) && (depth <= 0 || budget <= 0)) continue;
			return t;
		}
		return CYAML_UINT;
	}
	// a value; opt allowed for fields only
	SV value(int depth, bool field, bool entry, bool top, cyaml_type_e force = CYAML__TYPE_COUNT) {
		SV s;
		memset(&s, 0, sizeof s);
		budget -= (int)std::min<uint64_t>(mult, 1000);
		out.nodes++;
		if (r.chance(p.p_deep) && budget > 0) depth += 3 + (int)r.below(12);
		s.type = force != CYAML__TYPE_COUNT ? force : pick_type(depth, entry, field);
		unsigned fl = 0;
		if (top || r.chance(p.p_ptr)) fl |= CYAML_FLAG_POINTER;
		if ((top || (fl & CYAML_FLAG_POINTER)) && r.chance(p.p_null)) fl |= r.chance(p.p_nullstr * 2) ? CYAML_FLAG_POINTER_NULL_STR : CYAML_FLAG_POINTER_NULL;
		if (field && r.chance(p.p_opt)) fl |= CYAML_FLAG_OPTIONAL;
		if (r.chance(p.p_strict)) fl |= CYAML_FLAG_STRICT;
		if (r.chance(p.p_case)) fl |= CYAML_FLAG_CASE_SENSITIVE;
		if (r.chance(p.p_case)) fl |= CYAML_FLAG_CASE_INSENSITIVE;
		if (r.chance(p.p_style)) fl |= CYAML_FLAG_BLOCK;
		if (r.chance(p.p_style)) fl |= CYAML_FLAG_FLOW;
		if (r.chance(p.p_sstyle)) fl |= 1u << (9 + r.below(5));
		if (r.chance(p.p_sstyle * .2)) fl |= 1u << (9 + r.below(5));
		bool dflt = field && (fl & CYAML_FLAG_OPTIONAL) && r.chance(p.p_dflt);
		switch (s.type) {
		case CYAML_INT:
			s.data_size = num_size();
			if (r.chance(p.p_range)) {
				int64_t a = rnd_int(s.data_size), b = rnd_int(s.data_size);
				if (r.chance(.25)) a = 0;
				else if (r.chance(.1)) a = b;
				s.integer.min = std::min(a, b); s.integer.max = std::max(a, b);
			}
			if (dflt) s.integer.missing = rnd_int(s.data_size);
			break;
		case CYAML_UINT:
			s.data_size = num_size();
			if (r.chance(p.p_range)) {
				uint64_t a = rnd_uint(s.data_size), b = rnd_uint(s.data_size);
				if (r.chance(.3)) a = 0;
				else if (r.chance(.1)) a = b;
				s.unsigned_integer.min = std::min(a, b); s.unsigned_integer.max = std::max(a, b);
			}
			if (dflt) s.unsigned_integer.missing = rnd_uint(s.data_size);
			break;
		case CYAML_BOOL:
			s.data_size = num_size();
			if (dflt) s.boolean.missing = r.chance(.7);
			break;
		case CYAML_ENUM:
			s.data_size = num_size();
			strings(s, false);
			if (dflt) s.enumeration.missing = r.chance(.7) ? s.enumeration.strings[r.below(s.enumeration.count)].val : rnd_int(s.data_size);
			break;
		case CYAML_FLAGS:
			s.data_size = num_size();
			strings(s, true);
			if (dflt) s.enumeration.missing = (int64_t)(((uint64_t)s.enumeration.strings[r.below(s.enumeration.count)].val | (r.chance(.3) ? r.next() : 0)) & umax(s.data_size));
			break;
		case CYAML_BITFIELD:
			s.data_size = num_size();
			bits(s);
			if (dflt) s.bitfield.missing = rnd_uint(s.data_size);
			break;
		case CYAML_FLOAT:
			s.data_size = r.chance(.5) ? 4 : 8;
			if (dflt) s.floating_point.missing = r.chance(.5) ? (double)((float)r.range(-1000, 1000) / 8) : s.data_size == 8 ? 1.1e-200 : (double)1.5e-20f;
			break;
		case CYAML_STRING: {
			if (fl & CYAML_FLAG_POINTER) {
				s.string.max = r.chance(p.p_range) ? (uint32_t)r.below(31) + ((fl & CYAML_FLAG_POINTER_NULL) == CYAML_FLAG_POINTER_NULL) : UINT32_MAX;
				s.string.min = r.chance(p.p_range) ? (uint32_t)r.below(std::min(s.string.max, 10u) + 1) : 0;
				if (s.string.max != UINT32_MAX && r.chance(.15)) s.string.min = s.string.max;
			} else {
				s.data_size = 1 + (uint32_t)r.below(r.chance(.05) ? 300 : 24);
				s.string.max = r.chance(p.p_range) ? (uint32_t)r.below(s.data_size) : s.data_size - 1;
				s.string.min = r.chance(p.p_range) ? (uint32_t)r.below(s.string.max + 1) : 0;
			}
			if (dflt) {
				size_t n = s.string.min + r.below(std::min(s.string.max - s.string.min, r.chance(.06) ? 5000u : 20u) + 1);
				string t;
				for (size_t i = 0; i < n; i++) t += (char)('a' + r.below(26));
				s.string.missing = out.arena.str(t);
			}
			break;
		}
		case CYAML_MAPPING:
			fields(s, depth - 1);
			break;
		case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
			bool fixed = s.type == CYAML_SEQUENCE_FIXED;
			SV e;
			bool rec = false;
			uint32_t count = 1;
			if (!fixed && !open.empty() && (fl & CYAML_FLAG_POINTER) && r.chance(p.p_rec)) {
				memset(&e, 0, sizeof e);
				e.type = CYAML_MAPPING;
				e.flags = CYAML_FLAG_POINTER;
				rec = true;
			} else {
				bool inl = fixed || !(fl & CYAML_FLAG_POINTER);
				if (inl) { // keep what nests inline at a sensible size
					count = 1 + (uint32_t)r.below(std::min<uint64_t>((uint64_t)p.max_seq, std::max<uint64_t>(1, 100 / mult)));
					mult *= count;
				}
				e = value(depth - 1, false, true, false);
				if (inl) mult /= count;
				while (inl && count > 1 && inline_size(&e) * count > 16384) count--;
			}
			SV *ep = copy_sv(e);
			if (rec) { Open *o = open[r.below(open.size())]; ep->mapping.fields = o->fields; o->refs.push_back(ep); out.recursive = true; }
			s.sequence.entry = ep;
			s.data_size = (uint32_t)(rec ? sizeof(void *) : inline_size(ep));
			if (s.data_size == 0) s.data_size = 1;
			if (fixed) {
				s.sequence.min = s.sequence.max = count;
			} else if (fl & CYAML_FLAG_POINTER) {
				s.sequence.max = r.chance(p.p_range) ? (uint32_t)r.below((uint64_t)p.max_seq + 1) : UINT32_MAX;
				s.sequence.min = !rec && r.chance(p.p_range) ? (uint32_t)r.below(std::min(s.sequence.max, (uint32_t)p.max_seq) + 1) : 0;
			} else {
				s.sequence.max = count;
				s.sequence.min = r.chance(p.p_range) ? (uint32_t)r.below(s.sequence.max + 1) : 0;
			}
			break;
		}
		case CYAML_IGNORE:
			fl = fl & CYAML_FLAG_OPTIONAL;
			break;
		default: break;
		}
		s.flags = (cyaml_flag_e)fl;
		if (dflt && (s.type == CYAML_MAPPING || is_seq(&s)) && !out.recursive) store_default(out.arena, r, p, &s);
		return s;
	}
	void fields(SV &s, int depth) {
		unsigned n = 1 + (unsigned)r.below((uint64_t)p.max_fields);
		bool wide = r.chance(p.p_wide);
		if (wide) n = 20 + (unsigned)r.below((uint64_t)p.wide_max - 19);
		if (r.chance(.02)) n = 0;
		Open o;
		o.fields = (SF *)out.arena.get((n + 1) * sizeof(SF));
		open.push_back(&o);
		std::set<string> used;
		vector<unsigned> order;
		for (unsigned i = 0; i < n; i++) {
			SF *f = &o.fields[i];
			Prof q = p;
			if (wide) q.p_exotic *= .2;
			f->key = out.arena.str(gen_name(r, q, used));
			if (r.chance(p.p_rec)) {
				SV v;
				memset(&v, 0, sizeof v);
				v.type = CYAML_MAPPING;
				v.flags = (cyaml_flag_e)(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL);
				Open *t = open[r.below(open.size())];
				v.mapping.fields = t->fields;
				f->value = v;
				t->refs.push_back(&f->value);
				out.recursive = true;
			} else f->value = value(wide ? std::min(depth, 1) : depth, true, false, false);
			if (f->value.type == CYAML_SEQUENCE) f->count_size = (uint8_t)(p.big_sizes && r.chance(.3) ? 1 + r.below(8) : r.pick(vector<int>{4, 4, 1, 2, 8}));
			order.push_back(i);
		}
		// lay the members out, in any order, with gaps
		for (size_t i = n; i > 1; i--) if (r.chance(.3)) std::swap(order[i - 1], order[r.below(i)]);
		size_t off = 0, align = 1;
		auto place = [&](size_t size, size_t al) {
			if (r.chance(.12)) off += 1 + r.below(9);
			off = (off + al - 1) / al * al;
			align = std::max(align, al);
			size_t at = off;
			off += size;
			return (uint32_t)at;
		};
		for (unsigned i : order) {
			SF *f = &o.fields[i];
			bool before = r.chance(.4);
			bool seq = f->value.type == CYAML_SEQUENCE;
			if (seq && before) f->count_offset = place(f->count_size, num_align(f->count_size));
			f->data_offset = place(inline_size(&f->value), inline_align(&f->value));
			if (seq && !before) f->count_offset = place(f->count_size, num_align(f->count_size));
		}
		off = (off + align - 1) / align * align;
		if (off == 0) off = 1;
		s.data_size = (uint32_t)off;
		s.mapping.fields = o.fields;
		for (auto v : o.refs) v->data_size = s.data_size;
		open.pop_back();
	}
};
}

void gen_schema(Rng &r, const Prof &p, Schema &out) {
	Gen g(r, p, out);
	cyaml_type_e force = CYAML_MAPPING;
	if (r.chance(p.p_seq_top)) force = r.chance(.6) ? CYAML_SEQUENCE : CYAML_SEQUENCE_FIXED;
	else if (r.chance(p.p_scalar_top)) force = (cyaml_type_e)r.pick(vector<int>{CYAML_INT, CYAML_UINT, CYAML_BOOL, CYAML_ENUM, CYAML_FLAGS, CYAML_FLOAT, CYAML_STRING, CYAML_BITFIELD});
	if (!(p.types >> force & 1)) force = CYAML_MAPPING;
	out.top = g.value(p.depth, false, false, true, force);
}

void store_default(Arena &a, Rng &r, const Prof &p, SV *s) {
	ValOpts o;
	o.for_save = true;
	o.max_seq = std::min(p.max_seq, 4);
	long budget = 60;
	o.budget = &budget;
	SV body = *s; // never NULL itself
	body.flags = (cyaml_flag_e)(s->flags & ~(CYAML_FLAG_POINTER_NULL_STR | CYAML_FLAG_OPTIONAL));
	Val v = gen_val(&body, r, o);
	if (s->type == CYAML_SEQUENCE && v.kids.empty()) return;
	auto get = [&](size_t n) { return a.get(n); };
	size_t size = s->type == CYAML_MAPPING ? s->data_size : (size_t)s->data_size * (s->type == CYAML_SEQUENCE_FIXED ? s->sequence.max : v.kids.size());
	uint8_t *m = (uint8_t *)a.get(size);
	store_body(s, v, m, get);
	if (s->type == CYAML_MAPPING) s->mapping.missing = m;
	else { s->sequence.missing = m; s->sequence.missing_count = (uint32_t)v.kids.size(); }
}

static const char *type_name(int t) {
	static const char *n[] = {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING", "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED", "IGNORE"};
	return t >= 0 && t < 12 ? n[t] : "?";
}
static string flag_names(unsigned f) {
	static const std::pair<unsigned, const char *> n[] = {{1, "OPT"}, {2, "PTR"}, {4, "NULL"}, {8, "NULLSTR"}, {16, "STRICT"}, {32, "BLOCK"}, {64, "FLOW"}, {128, "CS"}, {256, "CI"}, {512, "PLAIN"}, {1024, "FOLD"}, {2048, "LIT"}, {4096, "SQ"}, {8192, "DQ"}};
	string s;
	for (auto &x : n) if (f & x.first) { if (!s.empty()) s += '|'; s += x.second; }
	return s;
}
static void dump_rec(const SV *s, int ind, vector<const SF *> &open, string &o) {
	if (o.size() > 30000) return;
	o += sfmt("%s size=%u %s", type_name(s->type), s->data_size, flag_names((unsigned)s->flags).c_str());
	string pad((size_t)ind * 2 + 2, ' ');
	switch (s->type) {
	case CYAML_INT: o += sfmt(" min=%lld max=%lld missing=%lld", (long long)s->integer.min, (long long)s->integer.max, (long long)s->integer.missing); break;
	case CYAML_UINT: o += sfmt(" min=%llu max=%llu missing=%llu", (unsigned long long)s->unsigned_integer.min, (unsigned long long)s->unsigned_integer.max, (unsigned long long)s->unsigned_integer.missing); break;
	case CYAML_BOOL: o += sfmt(" missing=%d", s->boolean.missing); break;
	case CYAML_FLOAT: o += sfmt(" missing=%g", s->floating_point.missing); break;
	case CYAML_STRING: o += sfmt(" min=%u max=%u missing=%s", s->string.min, s->string.max, s->string.missing ? s->string.missing : "-"); break;
	case CYAML_ENUM: case CYAML_FLAGS:
		o += sfmt(" missing=%lld", (long long)s->enumeration.missing);
		for (unsigned i = 0; i < s->enumeration.count; i++) o += sfmt(" \"%s\"=%lld", esc(s->enumeration.strings[i].str).c_str(), (long long)s->enumeration.strings[i].val);
		break;
	case CYAML_BITFIELD:
		o += sfmt(" missing=%llx", (unsigned long long)s->bitfield.missing);
		for (unsigned i = 0; i < s->bitfield.count; i++) o += sfmt(" \"%s\"@%u+%u", esc(s->bitfield.bitdefs[i].name).c_str(), s->bitfield.bitdefs[i].offset, s->bitfield.bitdefs[i].bits);
		break;
	case CYAML_MAPPING: {
		if (s->mapping.missing) o += " (default)";
		if (std::find(open.begin(), open.end(), s->mapping.fields) != open.end()) { o += " (recursive)\n"; return; }
		open.push_back(s->mapping.fields);
		o += "\n";
		for (const SF *f = s->mapping.fields; f->key; f++) {
			o += pad + sfmt("\"%s\" @%u", esc(f->key).c_str(), f->data_offset);
			if (f->value.type == CYAML_SEQUENCE) o += sfmt(" count@%u/%u", f->count_offset, f->count_size);
			o += ": ";
			dump_rec(&f->value, ind + 1, open, o);
		}
		open.pop_back();
		return;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		if (s->sequence.missing) o += sfmt(" (default %u)", s->sequence.missing_count);
		o += sfmt(" min=%u max=%u\n", s->sequence.min, s->sequence.max) + pad + "- ";
		dump_rec(s->sequence.entry, ind + 1, open, o);
		return;
	default: break;
	}
	o += "\n";
}
string dump_schema(const SV *s, int ind) { string o; vector<const SF *> open; dump_rec(s, ind, open, o); return o; }
string Schema::dump() const { return dump_schema(&top); }

// ------------------------------------------------------------ values in memory
Val zero_val(const SV *s) {
	Val v;
	if (has(s, CYAML_FLAG_POINTER)) { v.k = s->type == CYAML_SEQUENCE ? Val::SEQ : Val::NUL; return v; }
	switch (s->type) {
	case CYAML_INT: case CYAML_ENUM: v.k = Val::INT; break;
	case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: v.k = Val::UINT; break;
	case CYAML_BOOL: v.k = Val::BOOL; break;
	case CYAML_FLOAT: v.k = Val::FLT; break;
	case CYAML_STRING: v.k = Val::STR; break;
	case CYAML_MAPPING:
		v.k = Val::MAP;
		for (const SF *f = s->mapping.fields; f->key; f++) v.kids.push_back(zero_val(&f->value));
		break;
	case CYAML_SEQUENCE: v.k = Val::SEQ; break;
	case CYAML_SEQUENCE_FIXED:
		v.k = Val::SEQ;
		for (unsigned i = 0; i < s->sequence.max; i++) v.kids.push_back(zero_val(s->sequence.entry));
		break;
	default: v.k = Val::IGN;
	}
	return v;
}
Val default_val(const SV *s) {
	Val v;
	switch (s->type) {
	case CYAML_INT: v.k = Val::INT; v.i = s->integer.missing; if (v.i) return v; break;
	case CYAML_ENUM: v.k = Val::INT; v.i = sext((uint64_t)s->enumeration.missing, s->data_size); if (v.i) return v; break;
	case CYAML_UINT: v.k = Val::UINT; v.u = s->unsigned_integer.missing; if (v.u) return v; break;
	case CYAML_FLAGS: v.k = Val::UINT; v.u = (uint64_t)s->enumeration.missing; if (v.u) return v; break;
	case CYAML_BITFIELD: v.k = Val::UINT; v.u = s->bitfield.missing; if (v.u) return v; break;
	case CYAML_BOOL: v.k = Val::BOOL; v.u = s->boolean.missing; if (v.u) return v; break;
	case CYAML_FLOAT: v.k = Val::FLT; v.f = s->data_size == 4 ? (double)(float)s->floating_point.missing : s->floating_point.missing; if (s->floating_point.missing != 0) return v; break;
	case CYAML_STRING: if (s->string.missing) { v.k = Val::STR; v.s = s->string.missing; return v; } break;
	case CYAML_MAPPING: if (s->mapping.missing) return extract_body(s, (const uint8_t *)s->mapping.missing, 0, nullptr); break;
	case CYAML_SEQUENCE: if (s->sequence.missing) return extract_body(s, (const uint8_t *)s->sequence.missing, s->sequence.missing_count, nullptr); break;
	case CYAML_SEQUENCE_FIXED: if (s->sequence.missing) return extract_body(s, (const uint8_t *)s->sequence.missing, 0, nullptr); break;
	default: break;
	}
	return zero_val(s);
}

Val extract_body(const SV *s, const uint8_t *b, uint64_t count, ExtractCtx *x) {
	Val v;
	switch (s->type) {
	case CYAML_INT: case CYAML_ENUM: v.k = Val::INT; v.i = sext(read_num(b, s->data_size), s->data_size); break;
	case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: v.k = Val::UINT; v.u = read_num(b, s->data_size); break;
	case CYAML_BOOL: v.k = Val::BOOL; v.u = read_num(b, s->data_size) != 0; break;
	case CYAML_FLOAT:
		v.k = Val::FLT;
		if (s->data_size == 4) { float f; memcpy(&f, b, 4); v.f = (double)f; }
		else memcpy(&v.f, b, 8);
		break;
	case CYAML_STRING:
		v.k = Val::STR;
		if (has(s, CYAML_FLAG_POINTER)) v.s = (const char *)b;
		else {
			const void *e = memchr(b, 0, s->data_size);
			if (!e) { if (x) x->note("inline string without terminator"); v.s.assign((const char *)b, s->data_size); }
			else {
				v.s.assign((const char *)b, (size_t)((const uint8_t *)e - b));
				if (x && x->check_zero) for (const uint8_t *q = (const uint8_t *)e; q < b + s->data_size; q++) if (*q) { x->note("bytes after an inline string are not zero"); break; }
			}
		}
		break;
	case CYAML_MAPPING: {
		v.k = Val::MAP;
		vector<bool> cover(x && x->check_zero ? s->data_size : 0);
		auto mark = [&](size_t off, size_t n) { if (!cover.empty()) for (size_t i = off; i < off + n; i++) cover[i] = true; };
		for (const SF *f = s->mapping.fields; f->key; f++) {
			uint64_t c = 0;
			if (f->value.type == CYAML_SEQUENCE) { c = read_num(b + f->count_offset, f->count_size); mark(f->count_offset, f->count_size); }
			mark(f->data_offset, inline_size(&f->value));
			v.kids.push_back(extract(&f->value, b + f->data_offset, c, x));
		}
		for (size_t i = 0; i < cover.size(); i++) if (!cover[i] && b[i]) { x->note(sfmt("byte %zu of a structure, which the schema does not describe, is not zero", i)); break; }
		break;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
		v.k = Val::SEQ;
		uint64_t n = s->type == CYAML_SEQUENCE_FIXED ? s->sequence.max : count;
		if (!has(s, CYAML_FLAG_POINTER) && n > s->sequence.max) { if (x) x->note("inline sequence with a count beyond its limit"); n = s->sequence.max; }
		for (uint64_t i = 0; i < n; i++) v.kids.push_back(extract(s->sequence.entry, b + s->data_size * i, 0, x));
		if (x && x->check_zero && !has(s, CYAML_FLAG_POINTER))
			for (size_t i = s->data_size * n; i < (size_t)s->data_size * s->sequence.max; i++) if (b[i]) { x->note("unused part of an inline sequence is not zero"); break; }
		break;
	}
	default: v.k = Val::IGN;
	}
	return v;
}
Val extract(const SV *s, const uint8_t *place, uint64_t count, ExtractCtx *x) {
	if (!has(s, CYAML_FLAG_POINTER)) return extract_body(s, place, count, x);
	uint8_t *p;
	memcpy(&p, place, sizeof p);
	Val v;
	if (p == nullptr) {
		if (s->type == CYAML_SEQUENCE) {
			if (count && x && !RUN.lost_counts) x->note("NULL sequence with a count");
			v.k = Val::SEQ;
		}
		return v;
	}
	if (x && (x->a || x->heap)) {
		size_t have = 0, need;
		bool live = x->heap ? heap_block(p, have) : x->a->live.count(p);
		if (!live) { x->note(sfmt("pointer to %s value is not a live block of the client allocator", type_name(s->type))); return v; }
		if (!x->heap) have = x->a->live.at(p);
		if (s->type == CYAML_STRING) {
			if (!memchr(p, 0, have)) { x->note("string without terminator in its block"); return v; }
			need = strlen((char *)p) + 1;
		} else if (s->type == CYAML_SEQUENCE) {
			if (count > have / s->data_size) { x->note(sfmt("sequence block of %zu bytes too small for %llu entries", have, (unsigned long long)count)); return v; }
			need = s->data_size * count;
		} else if (s->type == CYAML_SEQUENCE_FIXED) need = (size_t)s->data_size * s->sequence.max;
		else need = s->data_size;
		if (have < need) { x->note(sfmt("block of %zu bytes too small for %s value of %zu", have, type_name(s->type), need)); return v; }
		if (!x->reached.emplace(p, need).second) { x->note("two pointers to the same block"); return v; }
	}
	return extract_body(s, p, count, x);
}

uint64_t store_body(const SV *s, const Val &v, uint8_t *b, const std::function<void *(size_t)> &get) {
	switch (s->type) {
	case CYAML_INT: case CYAML_ENUM: write_num(b, s->data_size, (uint64_t)v.i); break;
	case CYAML_UINT: case CYAML_FLAGS: case CYAML_BITFIELD: case CYAML_BOOL: write_num(b, s->data_size, v.u); break;
	case CYAML_FLOAT:
		if (s->data_size == 4) { float f = (float)v.f; memcpy(b, &f, 4); } else memcpy(b, &v.f, 8);
		break;
	case CYAML_STRING: memcpy(b, v.s.c_str(), v.s.size() + 1); break;
	case CYAML_MAPPING: {
		size_t i = 0;
		for (const SF *f = s->mapping.fields; f->key; f++, i++) {
			uint64_t c = store(&f->value, v.kids[i], b + f->data_offset, get);
			if (f->value.type == CYAML_SEQUENCE) write_num(b + f->count_offset, f->count_size, c);
		}
		break;
	}
	case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
		for (size_t i = 0; i < v.kids.size(); i++) store(s->sequence.entry, v.kids[i], b + s->data_size * i, get);
		return v.kids.size();
	default: break;
	}
	return 0;
}
uint64_t store(const SV *s, const Val &v, uint8_t *place, const std::function<void *(size_t)> &get) {
	if (!has(s, CYAML_FLAG_POINTER)) return v.k == Val::NUL || v.absent ? 0 : store_body(s, v, place, get);
	uint8_t *p = nullptr;
	uint64_t n = 0;
	if (!(v.k == Val::NUL || v.absent || (s->type == CYAML_SEQUENCE && v.kids.empty() && v.u != 1))) {
		size_t size = s->type == CYAML_STRING ? v.s.size() + 1 :
			s->type == CYAML_SEQUENCE ? (size_t)s->data_size * std::max<size_t>(v.kids.size(), 1) :
			s->type == CYAML_SEQUENCE_FIXED ? (size_t)s->data_size * s->sequence.max : s->data_size;
		p = (uint8_t *)get(size);
		n = store_body(s, v, p, get);
	} else if (v.k == Val::NUL && s->type == CYAML_SEQUENCE) n = v.u;
	memcpy(place, &p, sizeof p);
	return n;
}

static void walk_rec(SV *s, const std::function<void(SV *)> &fn, std::set<const void *> &done) {
	fn(s);
	if (s->type == CYAML_MAPPING) {
		if (done.insert(s->mapping.fields).second)
			for (SF *f = const_cast<SF *>(s->mapping.fields); f->key; f++) walk_rec(&f->value, fn, done);
	} else if (is_seq(s)) walk_rec(const_cast<SV *>(s->sequence.entry), fn, done);
}
void walk_schema(SV *s, const std::function<void(SV *)> &fn) { std::set<const void *> done; walk_rec(s, fn, done); }
