// Modes about sizes: C24
#include "core.h"
#include <climits>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
struct Maker {
	Arena &ar;
	Rng &r;
	SV scalar(bool ptr) {
		SV s;
		memset(&s, 0, sizeof s);
		static const uint32_t sizes[] = {1, 2, 4, 8};
		unsigned f = ptr ? CYAML_FLAG_POINTER : 0;
		switch (r.below(6)) {
		case 0: s.type = CYAML_INT; s.data_size = sizes[r.below(4)]; break;
		case 1: s.type = CYAML_UINT; s.data_size = sizes[r.below(4)]; break;
		case 2: s.type = CYAML_BOOL; s.data_size = sizes[r.below(4)]; break;
		case 3: s.type = CYAML_FLOAT; s.data_size = 8; break;
		case 4: s.type = CYAML_STRING; s.data_size = 1; f |= CYAML_FLAG_POINTER; s.string.max = CYAML_UNLIMITED; break;
		default: {
			s.type = CYAML_STRING; s.string.max = 1 + (uint32_t)r.below(30); s.data_size = s.string.max + 1;
			if (ptr) { s.data_size = 1; s.string.max = CYAML_UNLIMITED; }
		}
		}
		s.flags = (cyaml_flag_e)((unsigned)s.flags | f);
		return s;
	}
	// a mapping of what it is given, with room for all of it
	SV mapping(vector<SF> &fs, bool ptr) {
		SV s;
		memset(&s, 0, sizeof s);
		s.type = CYAML_MAPPING;
		s.flags = (cyaml_flag_e)(ptr ? CYAML_FLAG_POINTER : 0);
		uint32_t at = 0;
		for (auto &f : fs) {
			size_t al = inline_align(&f.value), n = inline_size(&f.value);
			at = (uint32_t)((at + al - 1) / al * al);
			f.data_offset = at;
			at += (uint32_t)n;
			if (f.value.type == CYAML_SEQUENCE) {
				if (!f.count_size) f.count_size = 4;
				at = (at + 7u) & ~7u;
				f.count_offset = at;
				at += 8;
			}
		}
		s.data_size = (at + 15u) & ~15u;
		if (s.data_size == 0) s.data_size = 8;
		auto *t = (SF *)ar.get(sizeof(SF) * (fs.size() + 1));
		for (size_t i = 0; i < fs.size(); i++) memcpy(&t[i], &fs[i], sizeof(SF));
		s.mapping.fields = t;
		return s;
	}
	SF field(const string &key, const SV &v, bool opt = false) {
		SF f;
		memset(&f, 0, sizeof f);
		f.key = ar.str(key);
		memcpy(&f.value, &v, sizeof v);
		if (opt) f.value.flags = (cyaml_flag_e)((unsigned)f.value.flags | CYAML_FLAG_OPTIONAL);
		return f;
	}
	SV sequence(const SV &entry, bool ptr, uint32_t min, uint32_t max) {
		SV s;
		memset(&s, 0, sizeof s);
		s.type = CYAML_SEQUENCE;
		s.flags = (cyaml_flag_e)(ptr ? CYAML_FLAG_POINTER : 0);
		auto *e = (SV *)ar.get(sizeof(SV));
		memcpy(e, &entry, sizeof entry);
		s.data_size = (uint32_t)inline_size(e);
		s.sequence.entry = e;
		s.sequence.min = min;
		s.sequence.max = max;
		return s;
	}
};
size_t near_power(Rng &r, size_t lo, size_t hi) { // a power of two or near it, mostly
	if (RUN.cur / 11 % 2) { // each of these in turn
		vector<size_t> edges;
		for (size_t p = 1; p <= hi; p *= 2) for (size_t n = p - 1; n <= p + 1; n++) if (n >= lo && n <= hi && (edges.empty() || n > edges.back())) edges.push_back(n);
		if (!edges.empty()) { ST["sizes_in_turn"]++; return edges[(RUN.cur / 22 + RUN.seed * 7) % edges.size()]; }
	}
	for (int t = 0; t < 100; t++) {
		size_t n = r.chance(.75) ? ((size_t)1 << r.below(24)) + (size_t)r.range(-2, 2) : (size_t)r.below(hi + 1);
		if (n >= lo && n <= hi) return n;
	}
	return lo;
}
string numbered(Rng &r, size_t i) { return sfmt(r.chance(.5) ? "k%zu" : "Field_%zu", i); }
Present quick_present(Rng &r, size_t n) {
	Present p = Present::random(r);
	if (n > 3000) { p.utf16 = 0; p.p_tag = 0; }
	return p;
}
// all operations on a value of some size
struct Big {
	Rng &r;
	Alloc a;
	cyaml_config_t cfg;
	Arena ar;
	SV top;
	Maker mk;
	const char *what = "";
	size_t size = 0;
	Big(Rng &r, unsigned flags) : r(r), mk{ar, r} { memset(&top, 0, sizeof top); cfg = mk_config(&a, nullptr, nullptr, flags); a.poison = (uint8_t)(r.next() | 1); }
	void describe(const char *w, size_t n) {
		what = w; size = n;
		if (n > 1500) a.pool = true; // else growing by one entry at a time takes quadratic time
		RUN.lazy = [this] { return sfmt("%s of %zu, flags 0x%x\nschema: ", what, size, (unsigned)cfg.flags) + dump_schema(&top).substr(0, 3000); };
		if (RUN.verbose) { printf("%s\n", RUN.lazy().c_str()); fflush(stdout); }
		ST[w]++;
		string m = sfmt("max_%s", w);
		if (n > ST[m]) ST[m] = n;
		ST.seen(hash_str(w, n));
	}
	string text(void *data, unsigned count) { return repr(extract_top(&top, data, count, &a)); }
	void differ(const char *op, const string &got, const string &want) { if (got != want) violation("%s of %zu: %s gives another value: %s", what, size, op, diff_at(got, want).c_str()); }
	// Calls that fail some way in; the data stay as they are.
	void hurt(const Val &v, const string &doc, const LoadRes &l) {
		size_t held = a.live.size();
		auto clean = [&](const char *op, cyaml_err_t e, bool touched, long mallocs) {
			if (e == CYAML_OK) return;
			if (touched) violation("%s of %zu: %s fails (%s) and writes results", what, size, op, errname(e));
			if (mallocs) violation("%s of %zu: %s fails (%s) and keeps %ld blocks of the C library", what, size, op, errname(e), mallocs);
			if (a.live.size() != held) violation("%s of %zu: %s fails (%s) and keeps %ld blocks", what, size, op, errname(e), (long)a.live.size() - (long)held);
			if (!a.err.empty()) violation("%s of %zu: %s: %s", what, size, op, a.err.c_str());
			ST["failures_on_large"]++;
		};
		auto must = [&](const char *op, cyaml_err_t e) {
			a.reset_faults();
			if (e != CYAML_ERR_OOM) violation("%s of %zu: %s with a request refused: %s", what, size, op, errname(e));
			ST["refusals_on_large"]++;
		};
		auto refuse = [&](uint64_t reqs) {
			a.reset_faults();
			a.fail_at = (int64_t)(r.chance(.5) ? r.below(reqs) : reqs - 1 - r.below(std::min<uint64_t>(reqs, 8)));
		};
		if (r.chance(.6)) { // the text ends too early
			size_t z = doc.size(), at = r.chance(.5) ? r.below(z) : z - 1 - r.below(std::min<size_t>(z, 40));
			string part = doc.substr(0, at) + (r.chance(.5) ? "" : r.chance(.5) ? "]]}}" : "\n&#\t%:");
			a.reset_faults();
			LoadRes p = do_load(part, &cfg, &top);
			if (p.err == CYAML_OK) { do_free(&cfg, &top, p.data, p.count); ST["still_conforming"]++; }
			clean("load of a part", p.err, p.outputs_touched, p.mallocs);
			if (a.live.size() != held) violation("%s of %zu: load of a part and free leave %ld blocks", what, size, (long)a.live.size() - (long)held);
		}
		if (r.chance(.5)) {
			a.reset_faults();
			LoadRes p = do_load(doc, &cfg, &top);
			uint64_t reqs = a.reqs;
			if (p.err != CYAML_OK) violation("%s of %zu: second load: %s", what, size, errname(p.err));
			do_free(&cfg, &top, p.data, p.count);
			refuse(reqs);
			p = do_load(doc, &cfg, &top);
			must("load", p.err);
			clean("load", p.err, p.outputs_touched, p.mallocs);
		}
		unsigned n = copy_count(&top, l.count);
		if (top.type == CYAML_SEQUENCE && n == 0) { a.reset_faults(); return; }
		if (r.chance(.5)) {
			a.reset_faults();
			CopyRes c = do_copy(&cfg, &top, l.data, n);
			uint64_t reqs = a.reqs;
			if (c.err != CYAML_OK) violation("%s of %zu: copy: %s", what, size, errname(c.err));
			do_free(&cfg, &top, c.data, l.count);
			refuse(reqs);
			c = do_copy(&cfg, &top, l.data, n);
			must("copy", c.err);
			clean("copy", c.err, c.outputs_touched, c.mallocs);
		}
		if (r.chance(.4)) {
			a.reset_faults();
			SaveRes s = do_save(&cfg, &top, l.data, save_count(&top, l.count));
			uint64_t reqs = a.reqs;
			if (s.err != CYAML_OK) violation("%s of %zu: save: %s", what, size, errname(s.err));
			refuse(reqs);
			s = do_save(&cfg, &top, l.data, save_count(&top, l.count));
			must("save", s.err);
			clean("save", s.err, s.outputs_touched, s.mallocs);
		}
		a.reset_faults();
		Val bad = v;
		if (r.chance(.5) && !has_nothing(v) && spoil(&top, bad, r)) { // something in it is not to be saved
			unsigned c;
			void *d = build_data(&cfg, &top, bad, &c);
			held = a.live.size();
			SaveRes s = do_save(&cfg, &top, d, save_count(&top, c));
			if (s.err == CYAML_OK) violation("%s of %zu: data which cannot be represented were saved", what, size);
			clean("save", s.err, s.outputs_touched, s.mallocs);
			do_free(&cfg, &top, d, c);
			ST["unsavable_large"]++;
		}
	}
	static bool has_nothing(const Val &v) { return v.k == Val::NUL || (v.k == Val::SEQ && v.kids.empty()); }
	void all(const Val &v, const string &doc) {
		bool seq = top.type == CYAML_SEQUENCE;
		string want = repr(expected_of(&top, v));
		unsigned n = (unsigned)v.kids.size();
		ST["document_bytes"] += doc.size();
		if (doc.size() > ST["max_document_bytes"]) ST["max_document_bytes"] = doc.size();
		LoadRes l;
		if (r.chance(.3)) { string p = scratch_path("scale.yaml"); write_scratch(p, doc); l = do_load_file(p, &cfg, &top); }
		else l = do_load(doc, &cfg, &top);
		if (l.err != CYAML_OK) violation("%s of %zu is rejected: %s", what, size, errname(l.err));
		if (seq && l.count != n) violation("%u entries instead of %u", l.count, n);
		differ("load", text(l.data, l.count), want);
		if (last_reached != a.live.size()) violation("load leaves %zu blocks, of which the data make up %zu", a.live.size(), last_reached);
		if (r.chance(.5)) hurt(v, doc, l);
		CopyRes c = do_copy(&cfg, &top, l.data, copy_count(&top, l.count));
		if (c.err != CYAML_OK) { if (!(seq && n == 0)) violation("copy of a %s of %zu: %s", what, size, errname(c.err)); }
		else {
			differ("copy", text(c.data, l.count), want);
			if (2 * last_reached != a.live.size()) violation("copy leaves %zu blocks, of which the data make up %zu", a.live.size() - last_reached, last_reached);
			// either may go first
			if (r.chance(.5)) std::swap(c.data, l.data);
			do_free(&cfg, &top, l.data, l.count);
			l.data = c.data;
			differ("freeing the other", text(l.data, l.count), want);
		}
		string out;
		if (seq && n == 0) { do_free(&cfg, &top, l.data, l.count); check_alloc(a, "at the end"); return; }
		SaveRes s = do_save(&cfg, &top, l.data, save_count(&top, l.count));
		if (s.err != CYAML_OK) violation("save of a %s of %zu: %s", what, size, errname(s.err));
		if (r.chance(.3)) {
			string p = scratch_path("scale.out"), got;
			SaveRes f = do_save_file(p, &cfg, &top, l.data, save_count(&top, l.count));
			if (f.err != CYAML_OK) violation("save to file of a %s of %zu: %s", what, size, errname(f.err));
			if (!read_file(p, got) || got != s.out) violation("saved file of %zu bytes differs from memory of %zu", got.size(), s.out.size());
		}
		ST["saved_bytes"] += s.out.size();
		if (s.out.size() > ST["max_saved_bytes"]) ST["max_saved_bytes"] = s.out.size();
		do_free(&cfg, &top, l.data, l.count);
		check_alloc(a, "after everything was freed");
		l = do_load(s.out, &cfg, &top);
		if (l.err != CYAML_OK) violation("the saved %s of %zu is rejected: %s", what, size, errname(l.err));
		differ("save and load", text(l.data, l.count), want);
		do_free(&cfg, &top, l.data, l.count);
		check_alloc(a, "at the end");
	}
	void rejected(const string &doc, cyaml_err_t e, const char *why) {
		LoadRes l = do_load(doc, &cfg, &top);
		if (l.err == CYAML_OK) violation("%s of %zu is accepted with %s", what, size, why);
		if (l.err != e) violation("%s of %zu with %s: %s", what, size, why, errname(l.err));
		check_alloc(a, "after a rejected document");
		ST["rejections"]++;
	}
};
}

// a bit field with as many parts as there may be
static void bits(Big &b, Rng &r, ValOpts &o) {
	unsigned size = r.pick(vector<unsigned>{1, 2, 4, 8, 8, 8}), at = 0;
	vector<cyaml_bitdef_t> parts;
	double wide = r.chance(.5) ? 0 : (double)r.below(50) / 100;
	while (at < size * 8) {
		if (r.chance(.05)) { at++; continue; }
		unsigned w = r.chance(wide) ? 1 + (unsigned)r.below(std::min(20u, size * 8 - at)) : 1;
		cyaml_bitdef_t d = {b.ar.str(sfmt("part_%u", at)), (uint8_t)at, (uint8_t)w};
		parts.push_back(d);
		at += w;
	}
	for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[r.below(i)]);
	SV s;
	memset(&s, 0, sizeof s);
	s.type = CYAML_BITFIELD;
	s.data_size = size;
	auto *t = (cyaml_bitdef_t *)b.ar.get(sizeof(cyaml_bitdef_t) * (parts.size() + 1));
	uint64_t all = 0;
	for (size_t i = 0; i < parts.size(); i++) { memcpy(&t[i], &parts[i], sizeof parts[i]); all |= (~(uint64_t)0 >> (64 - parts[i].bits)) << parts[i].offset; }
	s.bitfield.bitdefs = t;
	s.bitfield.count = (uint32_t)parts.size();
	b.top = b.mk.sequence(s, true, 0, CYAML_UNLIMITED);
	b.describe("parts_of_a_bitfield", parts.size());
	Val v; v.k = Val::SEQ;
	for (size_t i = 0; i < 20; i++) v.kids.push_back(gen_val(b.top.sequence.entry, r, o));
	for (uint64_t u : {all, all & r.next(), all & ~(all >> 1)}) { v.kids.push_back(v.kids[0]); v.kids.back().u = u; }
	for (auto &d : parts) { v.kids.push_back(v.kids[0]); v.kids.back().u = (~(uint64_t)0 >> (64 - d.bits)) << d.offset; }
	Y y = doc_of(&b.top, v, r, &b.cfg);
	b.all(v, render(y, r, quick_present(r, parts.size())));
}

MODE(scale) {
	unsigned kind = (unsigned)(RUN.cur % 11);
	Big b(r, (random_cfg_flags(r) | (r.chance(.7) ? 0 : CYAML_CFG_IGNORE_UNKNOWN_KEYS)) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	long budget = 1000000;
	ValOpts o;
	o.budget = &budget;
	o.p_absent = .3;
	switch (kind) {
	case 0: { // many fields
		double p_dflt = r.chance(.6) ? .7 : 0;
		size_t n = near_power(r, 1, RUN.thorough ? 4096 : 1100);
		vector<SF> fs;
		unsigned long_keys = r.chance(.15) ? (unsigned)r.below(1000) : 0;
		for (size_t i = 0; i < n; i++) {
			SV s = b.mk.scalar(r.chance(.3));
			bool opt = r.chance(.3);
			if (opt && r.chance(p_dflt)) switch (s.type) {
			case CYAML_INT: s.integer.missing = (int64_t)r.range(-100, 100); break;
			case CYAML_UINT: s.unsigned_integer.missing = 1 + r.below(200); break;
			case CYAML_BOOL: s.boolean.missing = true; break;
			case CYAML_FLOAT: s.floating_point.missing = (double)r.range(1, 1000) / 8; break;
			default: s.string.missing = b.ar.str(s.string.max > 100000 ? string(r.below(r.chance(.05) ? 70000 : 300), 'd') : "d");
			}
			fs.push_back(b.mk.field(numbered(r, i) + string(long_keys, 'x'), s, opt));
		}
		b.top = b.mk.mapping(fs, true);
		b.describe("fields_of_a_mapping", n);
		Val v = gen_val(&b.top, r, o);
		for (size_t i = 0; i < n; i++) // saving cannot leave out what is not there by pointer
			if (v.kids[i].absent && r.chance(.3) && !has(&b.top.mapping.fields[i].value, CYAML_FLAG_POINTER)) { ValOpts q = o; q.p_absent = 0; v.kids[i] = gen_val(&b.top.mapping.fields[i].value, r, q, false); }
		Y y = doc_of(&b.top, v, r, &b.cfg);
		Present p = quick_present(r, n);
		b.all(v, render(y, r, p));
		// each required field is missed, each key is noticed when it comes again
		for (unsigned t = 0; t < 3; t++) {
			Y q = y;
			size_t i = r.below(n);
			const char *key = b.top.mapping.fields[i].key;
			size_t at = q.kids.size();
			for (size_t k = 0; k + 1 < q.kids.size(); k += 2) if (ref_equal(q.kids[k].text, key, false)) at = k;
			if (at == q.kids.size()) continue;
			if (!has(&b.top.mapping.fields[i].value, CYAML_FLAG_OPTIONAL) && r.chance(.6)) {
				q.kids.erase(q.kids.begin() + (long)at, q.kids.begin() + (long)at + 2);
				b.rejected(render(q, r, p), CYAML_ERR_MAPPING_FIELD_MISSING, "a required field missing");
			} else {
				Y kk = q.kids[at], vv = q.kids[at + 1];
				q.kids.push_back(kk); q.kids.push_back(vv);
				b.rejected(render(q, r, p), CYAML_ERR_UNEXPECTED_EVENT, "a field given twice");
			}
		}
		break;
	}
	case 1: case 2: { // many entries
		bool top = r.chance(.4);
		size_t hi = RUN.thorough ? 200000 : 70000;
		size_t n = r.chance(.5) ? near_power(r, 0, 2100) : near_power(r, 0, hi);
		unsigned cs = r.pick(vector<unsigned>{1, 2, 4, 8});
		// at the edge of what the count member can hold
		if (!top && cs < 4 && r.chance(cs == 1 ? .6 : .25)) n = (cs == 1 ? 254 : 65534) + r.below(4);
		bool huge = r.chance(.12);
		if (huge) { n = 65530 + r.below(3000); if (!top && cs < 4) cs = 4; }
		vector<SF> es;
		SV e = b.mk.scalar(r.chance(.4));
		if (!huge && r.chance(.35)) {
			if (n > 9000 && n < 65534) n = 9000;
			for (unsigned i = 0, k = 1 + (unsigned)r.below(3); i < k; i++) es.push_back(b.mk.field(sfmt("e%u", i), b.mk.scalar(r.chance(.3)), false));
			e = b.mk.mapping(es, r.chance(.5));
		}
		if (!huge && es.empty() && r.chance(.25)) { // entries which are sequences of their own
			size_t inner = near_power(r, 1, 1100);
			n = r.below(inner > 260 ? 5 : 300);
			SV s = b.mk.sequence(e, r.chance(.5), (uint32_t)inner, (uint32_t)inner);
			s.type = CYAML_SEQUENCE_FIXED;
			e = s;
			ST["entries_which_are_sequences"]++;
			if (inner > ST["max_entries_of_an_entry"]) ST["max_entries_of_an_entry"] = inner;
		}
		uint32_t min = 0, max = CYAML_UNLIMITED;
		if (!huge && r.chance(.4)) { min = (uint32_t)r.below(n + 1); max = (uint32_t)n + (r.chance(.5) ? 0 : (uint32_t)r.below(1000)); if (max == 0) max = 1; }
		bool inl = !top && r.chance(.25), fixed = r.chance(.3) && n > 0;
		if (inl) max = (uint32_t)n + (uint32_t)r.below(40) + (n == 0);
		if (RUN.cur / 11 % 5 == 2) { // what just does not go into 16 bits
			n = kind == 1 ? 65536 : 65535 + r.below(40);
			top = r.chance(.7); inl = false; cs = 4; min = 0; max = CYAML_UNLIMITED;
			if (e.type == CYAML_MAPPING || e.type == CYAML_SEQUENCE_FIXED) e = b.mk.scalar(false);
		}
		if (fixed) min = max = (uint32_t)n;
		SV s = b.mk.sequence(e, !inl, min, max);
		if (fixed) s.type = CYAML_SEQUENCE_FIXED;
		Val list;
		list.k = Val::SEQ;
		for (size_t i = 0; i < n; i++) list.kids.push_back(gen_val(s.sequence.entry, r, o));
		Val v = list;
		if (top) b.top = s;
		else {
			vector<SF> fs = {b.mk.field("before", b.mk.scalar(false)), b.mk.field("list", s), b.mk.field("after", b.mk.scalar(false))};
			fs[1].count_size = (uint8_t)cs;
			b.top = b.mk.mapping(fs, true);
			v = Val(); v.k = Val::MAP;
			v.kids = {gen_val(&b.top.mapping.fields[0].value, r, o), list, gen_val(&b.top.mapping.fields[2].value, r, o)};
		}
		b.describe(fixed ? inl ? "entries_of_a_fixed_inline_sequence" : "entries_of_a_fixed_sequence" : inl ? "entries_of_an_inline_sequence" : top ? "entries_of_a_top_level_sequence" : "entries_of_a_sequence", n);
		Y y = doc_of(&b.top, v, r, &b.cfg);
		Present p = quick_present(r, n);
		string doc = render(y, r, p);
		if (!top && !fixed && cs < 4 && n == (cs == 1 ? 255u : 65535u)) ST["counts_just_fitting"]++;
		if (!top && !fixed && cs < 4 && n > (cs == 1 ? 255u : 65535u)) { // there is no place for the count
			LoadRes l = do_load(doc, &b.cfg, &b.top);
			if (l.err == CYAML_OK) violation("%zu entries are accepted with a count of %u bytes", n, cs);
			check_alloc(b.a, "after a rejected document");
			ST["counts_too_large"]++;
			break;
		}
		b.all(v, doc);
		if (max < CYAML_UNLIMITED && n == max && n > 0) {
			Y *q = top ? &y : &y.kids[0];
			if (!top) for (size_t k = 0; k < y.kids.size(); k += 2) if (ref_equal(y.kids[k].text, "list", false)) q = &y.kids[k + 1];
			q->kids.push_back(q->kids.back());
			b.rejected(render(y, r, p), CYAML_ERR_SEQUENCE_ENTRIES_MAX, "an entry too many");
		}
		break;
	}
	case 3: { // long strings
		size_t n = near_power(r, 0, r.chance(.2) ? (RUN.thorough ? 8000000 : 2100000) : 140000);
		string t;
		unsigned style = (unsigned)r.below(4);
		while (t.size() < n) {
			if (style == 0) t += 'a';
			else if (style == 1) t += r.chance(.1) ? ' ' : (char)r.range('a', 'z');
			else if (style == 2) t += utf8_encode(r.chance(.5) ? (unsigned)r.range(0xa1, 0x24f) : 0x4e00 + (unsigned)r.below(5000));
			else t += (char)r.range(0x20, 0x7e);
		}
		while (t.size() > n) t.pop_back();
		for (vector<unsigned> c; !t.empty() && !utf8_decode(t, c);) t.pop_back();
		n = t.size();
		SV s;
		memset(&s, 0, sizeof s);
		s.type = CYAML_STRING;
		bool ptr = r.chance(.6);
		s.flags = (cyaml_flag_e)(ptr ? CYAML_FLAG_POINTER : 0);
		s.string.max = r.chance(.5) ? (uint32_t)n : ptr ? CYAML_UNLIMITED : (uint32_t)n + (uint32_t)r.below(100);
		s.string.min = (uint32_t)r.below(n + 1);
		s.data_size = ptr ? 1 : s.string.max + 1;
		vector<SF> fs = {b.mk.field("t", s), b.mk.field("after", b.mk.scalar(false))};
		b.top = b.mk.mapping(fs, true);
		b.describe("bytes_of_a_string", n);
		Val v; v.k = Val::MAP;
		v.kids = {Val(), gen_val(&b.top.mapping.fields[1].value, r, o)};
		v.kids[0].k = Val::STR;
		v.kids[0].s = t;
		Y y = doc_of(&b.top, v, r, &b.cfg);
		Present p = quick_present(r, n);
		b.all(v, render(y, r, p));
		if (s.string.max == n) {
			for (auto &k : y.kids) if (k.text == t && k.k == Y::SCALAR) k.text += "x";
			if (n > 10) b.rejected(render(y, r, p), CYAML_ERR_STRING_LENGTH_MAX, "a byte too many");
		}
		break;
	}
	case 4: { // deep structures
		size_t n = near_power(r, 1, 300);
		if (r.chance(.3)) n = 1 + r.below(RUN.thorough ? 440 : 400);
		// a mapping that holds itself, by fields or by entries
		vector<SF> fs = {b.mk.field("v", b.mk.scalar(false)), b.mk.field("c", b.mk.scalar(true), true), b.mk.field("l", b.mk.scalar(true), true)};
		SV self;
		memset(&self, 0, sizeof self);
		self.type = CYAML_MAPPING;
		self.flags = (cyaml_flag_e)(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL);
		memcpy(&fs[1].value, &self, sizeof self);
		SV list;
		memset(&list, 0, sizeof list);
		auto *e = (SV *)b.ar.get(sizeof(SV));
		bool by_pointer = r.chance(.5);
		self.flags = (cyaml_flag_e)(by_pointer ? CYAML_FLAG_POINTER : 0);
		memcpy(e, &self, sizeof self);
		list.type = CYAML_SEQUENCE;
		list.flags = (cyaml_flag_e)(CYAML_FLAG_POINTER | CYAML_FLAG_OPTIONAL);
		list.sequence.entry = e;
		list.sequence.max = CYAML_UNLIMITED;
		memcpy(&fs[2].value, &list, sizeof list);
		b.top = b.mk.mapping(fs, true);
		auto *t = (SF *)b.top.mapping.fields;
		t[1].value.mapping.fields = t;
		t[1].value.data_size = b.top.data_size;
		e->mapping.fields = t;
		e->data_size = b.top.data_size;
		t[2].value.data_size = by_pointer ? (uint32_t)sizeof(void *) : b.top.data_size;
		b.describe("levels", n);
		ValOpts q = o;
		Val v;
		unsigned style = (unsigned)r.below(3);
		bool anchored = r.chance(.5); // each level with an anchor
		SV self_ref = b.top;
		vector<Val> levels;
		Y ly;
		for (size_t i = 0; i < n; i++) {
			Val m; m.k = Val::MAP;
			m.kids.resize(3);
			m.kids[0] = gen_val(&t[0].value, r, q);
			m.kids[1].k = Val::NUL; m.kids[1].absent = true;
			m.kids[2].k = Val::SEQ; m.kids[2].absent = true;
			if (i) {
				if (style == 0 || (style == 2 && r.chance(.5))) m.kids[1] = v;
				else { m.kids[2].absent = false; if (r.chance(.1)) { Val w; w.k = Val::MAP; w.kids.resize(3); w.kids[0] = gen_val(&t[0].value, r, q); w.kids[1].absent = true; w.kids[2].k = Val::SEQ; w.kids[2].absent = true; m.kids[2].kids.push_back(w); } m.kids[2].kids.push_back(v); }
			}
			if (anchored) {
				Y s; s.k = Y::MAP; s.schema = &b.top;
				s.kids = {mk_scalar("v"), doc_of(&t[0].value, m.kids[0], r, &b.cfg)};
				if (!m.kids[1].absent) { s.kids.push_back(mk_scalar("c")); s.kids.push_back(ly); }
				if (!m.kids[2].absent) {
					Y q; q.k = Y::SEQ; q.schema = &t[2].value;
					while (m.kids[2].kids.size() > 1) m.kids[2].kids.erase(m.kids[2].kids.begin());
					q.kids.push_back(ly);
					if (r.chance(.7)) q.anchor = sfmt("q%zu", i);
					s.kids.push_back(mk_scalar("l")); s.kids.push_back(q);
				}
				if (r.chance(.9)) s.anchor = sfmt("n%zu", i);
				ly = s;
				levels.push_back(m);
			}
			v = m;
		}
		Y y;
		if (anchored) {
			Val all; all.k = Val::SEQ; all.kids.push_back(v);
			y.k = Y::SEQ;
			y.kids.push_back(ly);
			std::map<string, size_t> names;
			std::function<void(const Y &)> find = [&](const Y &q) { if (q.anchor[0] == 'n') names[q.anchor] = (size_t)atoi(q.anchor.c_str() + 1); for (auto &z : q.kids) find(z); };
			find(ly);
			size_t total = 0, k = 0;
			for (auto &x : names) {
				if (n > 40 && !r.chance(40. / (double)n) && x.second > 2 && x.second + 2 < n) continue;
				if ((total += x.second) > 4000) break;
				Y al; al.k = Y::ALIAS; al.text = x.first;
				y.kids.push_back(al);
				all.kids.push_back(levels[x.second]);
				k++;
			}
			ST["aliases_of_levels"] += k;
			v = all;

			SV s = b.mk.sequence(self_ref, true, 0, CYAML_UNLIMITED);
			b.top = s;
			y.schema = nullptr;
		} else y = doc_of(&b.top, v, r, &b.cfg);
		Present p = quick_present(r, n);
		p.indent = 1 + (int)r.below(2);
		b.all(v, render(y, r, p));
		break;
	}
	case 5: { // many anchors
		size_t n = near_power(r, 1, RUN.thorough ? 3000 : 700);
		SV e = b.mk.scalar(r.chance(.5));
		vector<SF> fs = {b.mk.field("x", b.mk.scalar(false)), b.mk.field("y", b.mk.scalar(true))};
		if (r.chance(.5)) e = b.mk.mapping(fs, r.chance(.5));
		b.top = b.mk.sequence(e, true, 0, CYAML_UNLIMITED);
		b.describe("anchors", n);
		Val v; v.k = Val::SEQ;
		vector<Val> kept;
		Y y; y.k = Y::SEQ; y.schema = &b.top;
		bool again = r.chance(.3); // names used again
		bool long_names = r.chance(.2);
		std::map<string, Val> bound;
		for (size_t i = 0; i < n; i++) {
			Val x = gen_val(b.top.sequence.entry, r, o);
			Y yx = doc_of(b.top.sequence.entry, x, r, &b.cfg);
			yx.anchor = sfmt("a%zu", again ? (size_t)r.below(n) : i);
			if (long_names) { // one begins with the other
				static const unsigned more[] = {0, 1, 63, 64, 255, 256, 257, 512, 768};
				yx.anchor = sfmt("a%zu", i % 5) + string(r.pick(vector<unsigned>(more, more + 9)), 'a');
				ST["long_anchor_names"]++;
			}
			bound[yx.anchor] = x;
			v.kids.push_back(x);
			y.kids.push_back(yx);
			while (r.chance(.4)) {
				auto it = bound.begin();
				std::advance(it, (long)r.below(std::min<size_t>(bound.size(), 400)));
				Y al; al.k = Y::ALIAS; al.text = it->first;
				y.kids.push_back(al);
				v.kids.push_back(it->second);
			}
		}
		for (auto &x : bound) {
			Y al; al.k = Y::ALIAS; al.text = x.first;
			y.kids.push_back(al);
			v.kids.push_back(x.second);
		}
		ST["aliases"] += y.kids.size() - n;
		b.all(v, render(y, r, quick_present(r, n)));
		break;
	}
	case 6: { // large tables of names
		if (r.chance(.3)) { bits(b, r, o); break; }
		bool flags = r.chance(.3);
		size_t n = flags && r.chance(.5) ? 1 + r.below(64) : near_power(r, 1, 4200);
		SV s;
		memset(&s, 0, sizeof s);
		s.type = flags ? CYAML_FLAGS : CYAML_ENUM;
		s.data_size = 8;
		s.flags = CYAML_FLAG_STRICT;
		auto *t = (cyaml_strval_t *)b.ar.get(sizeof(cyaml_strval_t) * n);
		for (size_t i = 0; i < n; i++) { cyaml_strval_t x = {b.ar.str(sfmt("name_%zu", i)), flags ? (int64_t)(i + 1 == n && n > 64 ? 1ull << 63 : 1ull << i % (n > 64 ? 63 : 64)) : (int64_t)(i * 0x10000001ull) - 4000}; memcpy(&t[i], &x, sizeof x); }
		s.enumeration.strings = t;
		s.enumeration.count = (uint32_t)n;
		b.top = b.mk.sequence(s, true, 0, CYAML_UNLIMITED);
		b.describe(flags ? "flags" : "names_of_an_enumeration", n);
		Val v; v.k = Val::SEQ;
		for (size_t i = 0; i < 40; i++) v.kids.push_back(gen_val(b.top.sequence.entry, r, o));
		Val last = v.kids[0];
		if (flags) last.u = (uint64_t)t[n - 1].val; else last.i = t[n - 1].val;
		v.kids.push_back(last);
		if (flags) ST["flag_names"] += n;
		Y y = doc_of(&b.top, v, r, &b.cfg);
		b.all(v, render(y, r, quick_present(r, n)));
		break;
	}
	case 7: { // many things to ignore
		size_t n = near_power(r, 1, RUN.thorough ? 40000 : 9000);
		b.cfg.flags = (cyaml_cfg_flags_t)((unsigned)b.cfg.flags | CYAML_CFG_IGNORE_UNKNOWN_KEYS);
		vector<SF> fs = {b.mk.field("first", b.mk.scalar(true)), b.mk.field("last", b.mk.scalar(false))};
		b.top = b.mk.mapping(fs, true);
		b.describe("ignored_items", n);
		Val v = gen_val(&b.top, r, o);
		Y y = doc_of(&b.top, v, r, &b.cfg);
		unsigned shape = (unsigned)r.below(4);
		vector<Y> junk;
		if (shape == 0) for (size_t i = 0; i < n; i++) { junk.push_back(mk_scalar(sfmt("junk%zu", i))); junk.push_back(mk_scalar("x")); }
		else if (shape == 1) { Y s; s.k = Y::SEQ; for (size_t i = 0; i < n; i++) s.kids.push_back(mk_scalar("x")); junk = {mk_scalar("junk"), s}; }
		else if (shape == 2) { // deep
			size_t d = std::min<size_t>(n, 400);
			Y s = mk_scalar("x");
			for (size_t i = 0; i < d; i++) { Y q; q.k = r.chance(.5) ? Y::SEQ : Y::MAP; if (q.k == Y::MAP) q.kids.push_back(mk_scalar("k")); q.kids.push_back(s); s = q; }
			junk = {mk_scalar("junk"), s};
		} else { Y s = mk_scalar(string(n, 'z')); junk = {mk_scalar("junk"), s}; }
		size_t at = 2 * r.below(y.kids.size() / 2 + 1);
		y.kids.insert(y.kids.begin() + (long)at, junk.begin(), junk.end());
		b.all(v, render(y, r, quick_present(r, n)));
		break;
	}
	case 9: { // long anchored nodes, and anchors after them
		size_t n = r.chance(.5) ? near_power(r, 1, 5000) : r.chance(.6) ? 65500 + r.below(100) : near_power(r, 1, RUN.thorough ? 140000 : 70000);
		SV e;
		memset(&e, 0, sizeof e);
		e.type = CYAML_UINT; e.data_size = 4;
		SV list = b.mk.sequence(e, true, 0, CYAML_UNLIMITED);
		vector<SF> fs;
		unsigned k = 1 + (unsigned)r.below(4);
		for (unsigned i = 0; i < k; i++) { fs.push_back(b.mk.field(sfmt("list%u", i), list)); fs.push_back(b.mk.field(sfmt("x%u", i), e)); }
		bool inner = r.chance(.4); // anchored inside of what is anchored
		b.top = b.mk.mapping(fs, true);
		b.describe("entries_of_an_anchored_sequence", n);
		Val v; v.k = Val::MAP;
		Y y; y.k = Y::MAP; y.schema = &b.top;
		Val lv; lv.k = Val::SEQ;
		Y ly; ly.k = Y::SEQ; ly.anchor = "l";
		for (size_t i = 0; i < n; i++) {
			Val q; q.k = Val::UINT; q.u = (i + 1) * 2654435761u & 0xffffffff;
			lv.kids.push_back(q);
			Y s = mk_scalar(sfmt("%u", (unsigned)q.u));
			if (inner && (i % 3001 == 7 || i + 1 == n)) s.anchor = sfmt("i%zu", i);
			ly.kids.push_back(s);
		}
		for (unsigned i = 0; i < k; i++) {
			y.kids.push_back(mk_scalar(sfmt("list%u", i)));
			if (i == 0) y.kids.push_back(ly); else { Y al; al.k = Y::ALIAS; al.text = "l"; y.kids.push_back(al); }
			v.kids.push_back(lv);
			y.kids.push_back(mk_scalar(sfmt("x%u", i)));
			Val q; q.k = Val::UINT;
			if (i > 0 && r.chance(.6)) { Y al; al.k = Y::ALIAS; al.text = "x"; y.kids.push_back(al); q.u = v.kids[1].u; }
			else if (inner && r.chance(.5)) { Y al; al.k = Y::ALIAS; al.text = sfmt("i%zu", n - 1); y.kids.push_back(al); q.u = lv.kids[n - 1].u; }
			else { q.u = r.below(1000); Y s = mk_scalar(sfmt("%u", (unsigned)q.u)); if (i == 0) s.anchor = "x"; y.kids.push_back(s); }
			if (i == 0 && y.kids.back().k == Y::ALIAS) { q.u = 77; y.kids.back() = mk_scalar("77"); y.kids.back().anchor = "x"; }
			v.kids.push_back(q);
		}
		b.all(v, render(y, r, quick_present(r, n)));
		break;
	}
	case 10: { // long defaults
		size_t n = r.chance(.5) ? near_power(r, 1, 5000) : r.chance(.7) ? 65500 + r.below(120) : near_power(r, 1, RUN.thorough ? 140000 : 70000);
		SV e = b.mk.scalar(r.chance(.4));
		vector<SF> es;
		if (r.chance(.3)) {
			if (n > 9000 && n < 65534) n = 9000;
			for (unsigned i = 0, k = 1 + (unsigned)r.below(3); i < k; i++) es.push_back(b.mk.field(sfmt("e%u", i), b.mk.scalar(r.chance(.3)), false));
			e = b.mk.mapping(es, r.chance(.5));
		}
		SV list = b.mk.sequence(e, true, 0, CYAML_UNLIMITED);
		Val lv; lv.k = Val::SEQ;
		for (size_t i = 0; i < n; i++) lv.kids.push_back(gen_val(list.sequence.entry, r, o));
		uint8_t *m = (uint8_t *)b.ar.get((size_t)list.data_size * n);
		store_body(&list, lv, m, [&](size_t z) { return b.ar.get(z); });
		list.sequence.missing = m;
		list.sequence.missing_count = (uint32_t)n;
		vector<SF> fs = {b.mk.field("before", b.mk.scalar(false)), b.mk.field("list", list, true), b.mk.field("after", b.mk.scalar(false))};
		fs[1].count_size = (uint8_t)(r.chance(.3) ? 8 : n < 65536 && r.chance(.4) ? 2 : 4);
		SV rec = b.mk.mapping(fs, r.chance(.5));
		b.top = b.mk.sequence(rec, true, 0, CYAML_UNLIMITED);
		b.describe("entries_of_a_default", n);
		b.a.pool = true;
		Val v; v.k = Val::SEQ;
		Y y; y.k = Y::SEQ; y.schema = &b.top;
		for (unsigned i = 0, k = n > 10000 ? 1 : 1 + (unsigned)r.below(3); i < k; i++) {
			Val q; q.k = Val::MAP;
			q.kids = {gen_val(&fs[0].value, r, o), lv, gen_val(&fs[2].value, r, o)};
			q.kids[1].absent = true;
			y.kids.push_back(doc_of(b.top.sequence.entry, q, r, &b.cfg));
			q.kids[1].absent = false;
			v.kids.push_back(q);
		}
		b.all(v, render(y, r, quick_present(r, 10)));
		break;
	}
	default: { // a bit of everything, many times over
		Prof p = Prof::swarm(r);
		p.p_scalar_top = 0;
		p.p_seq_top = 1;
		p.budget = 60;
		p.p_ign = 0;
		p.p_opt *= .3;
		Schema s;
		for (int t = 0; t < 20; t++) {
			s.~Schema();
			new (&s) Schema;
			gen_schema(r, p, s);
			if (s.top.type == CYAML_SEQUENCE) break;
		}
		if (s.top.type != CYAML_SEQUENCE) { ST["no_sequence"]++; break; }
		s.top.sequence.min = 0;
		s.top.sequence.max = CYAML_UNLIMITED;
		b.top = s.top;
		size_t n = near_power(r, 1, RUN.thorough ? 3000 : 600);
		b.describe("records", n);
		ValOpts q;
		q.for_save = true;
		q.max_seq = 5;
		Val v; v.k = Val::SEQ;
		for (size_t i = 0; i < n; i++) { long bud = 200; q.budget = &bud; q.depth = 6; v.kids.push_back(gen_val(s.top.sequence.entry, r, q)); }
		unsigned count;
		void *data = build_data(&b.cfg, &b.top, v, &count);
		string want = b.text(data, count);
		SaveRes sv = do_save(&b.cfg, &b.top, data, count);
		if (sv.err != CYAML_OK) violation("save of %zu records: %s", n, errname(sv.err));
		CopyRes c = do_copy(&b.cfg, &b.top, data, count);
		if (c.err != CYAML_OK) violation("copy of %zu records: %s", n, errname(c.err));
		b.differ("copy", b.text(c.data, count), want);
		do_free(&b.cfg, &b.top, data, count);
		b.differ("freeing the other", b.text(c.data, count), want);
		do_free(&b.cfg, &b.top, c.data, count);
		check_alloc(b.a, "after everything was freed");
		if (!reference_good(save_events(&b.top, v, &b.cfg), &b.cfg)) { ST["libyaml_cannot"]++; break; }
		LoadRes l = do_load(sv.out, &b.cfg, &b.top);
		if (l.err != CYAML_OK) violation("%zu saved records are rejected: %s", n, errname(l.err));
		if (l.count != count) violation("%u records saved, %u loaded", count, l.count);
		do_free(&b.cfg, &b.top, l.data, l.count);
		ST["saved_bytes"] += sv.out.size();
		if (sv.out.size() > ST["max_saved_bytes"]) ST["max_saved_bytes"] = sv.out.size();
		check_alloc(b.a, "at the end");
	}
	}
	if (r.chance(.02)) ST.sample(sfmt("%s: %zu", b.what, b.size));
	RUN.lazy = nullptr;
}

// Sequences which span more than 4 GiB.  Only the ends of each entry have
// pages of their own; what lies between is all zero and is one file.
namespace {
struct LibCall { // while the library runs
	int saved;
	LibCall() : saved(in_lib) { lib_mallocs = lib_frees = 0; in_lib = 1; }
	~LibCall() { in_lib = saved; }
};
[[noreturn]] void fatal(const char *s) { printf("%s: %s\n", s, strerror(errno)); fflush(stdout); _exit(3); }
struct Spans {
	struct Region { uint8_t *base; size_t cap, used; bool live; };
	Alloc small;
	size_t stride, entries;
	vector<Region> regions;
	int fd;
	string trouble;
	Spans(size_t stride, size_t entries) : stride(stride), entries(entries) {
		string p = scratch_path("span");
		fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
		if (fd < 0 || ftruncate(fd, (off_t)stride) != 0) fatal("no file for the span");
		unlink(p.c_str());
	}
	~Spans() { for (auto &g : regions) munmap(g.base, g.cap); close(fd); }
	Region *of(const void *p) { for (auto &g : regions) if (g.base == p) return &g; return nullptr; }
	void *take(size_t size) {
		Region g;
		g.cap = stride * (entries + 1);
		g.used = size;
		g.live = true;
		void *m = mmap(nullptr, g.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) fatal("no address space for the span");
		g.base = (uint8_t *)m;
		for (size_t i = 0; i < entries; i++)
			if (mmap(g.base + i * stride + 4096, stride - 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 4096) == MAP_FAILED) fatal("no mapping for the span");
		regions.push_back(g);
		return g.base;
	}
	static void *fn(void *ctx, void *ptr, size_t size) {
		OutOfLib o;
		Spans *s = (Spans *)ctx;
		if (Region *g = ptr ? s->of(ptr) : nullptr) {
			if (!g->live) violation("the block of the sequence is released or resized after its release");
			if (size == 0) { // nothing is there any more
				g->live = false;
				if (mmap(g->base, g->cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) fatal("no hole for the span");
				return nullptr;
			}
			if (size > g->cap) violation("%zu bytes are asked for %zu entries of %zu", size, s->entries, s->stride);
			g->used = size;
			return ptr;
		}
		if (ptr == nullptr && size >= s->stride) {
			if (size > s->stride * (s->entries + 1)) violation("%zu bytes are asked for %zu entries of %zu", size, s->entries, s->stride);
			return s->take(size);
		}
		return Alloc::fn(&s->small, ptr, size);
	}
	size_t live() { size_t n = small.live.size(); for (auto &g : regions) n += g.live; return n; }
};
}

// Names and strings longer than 4 GiB cannot be emitted by libyaml: they must not come out short.
static void long_text(Rng &r) {
	size_t piece = 2 << 20, tail = 4096, n = r.chance(.6) ? 2048 : r.chance(.5) ? 1024 : 1024 + r.below(1100);
	size_t len = n * piece + r.below(tail - 1);
	string p = scratch_path("text");
	int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	string a(piece, 'a');
	if (fd < 0 || write(fd, a.data(), piece) != (ssize_t)piece) fatal("no file for the text");
	unlink(p.c_str());
	char *text = (char *)mmap(nullptr, n * piece + tail, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (text == MAP_FAILED) fatal("no address space for the text");
	for (size_t i = 0; i < n; i++)
		if (mmap(text + i * piece, piece, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fatal("no mapping for the text");
	close(fd);
	memset(text + n * piece, 'b', len - n * piece);
	mprotect(text + n * piece, tail, PROT_READ);
	Alloc a1;
	cyaml_config_t cfg = mk_config(&a1, nullptr, nullptr, 0);
	Arena ar;
	Maker mk{ar, r};
	SV str, en;
	memset(&str, 0, sizeof str); memset(&en, 0, sizeof en);
	str.type = CYAML_STRING; str.flags = CYAML_FLAG_POINTER; str.data_size = 1; str.string.max = CYAML_UNLIMITED;
	cyaml_strval_t names[2] = {{"short", 1}, {text, 2}};
	bool flags = r.chance(.5);
	en.type = flags ? CYAML_FLAGS : CYAML_ENUM; en.data_size = 4; en.enumeration.strings = names; en.enumeration.count = 2;
	vector<SF> fs = {mk.field("text", str), mk.field("name", en)};
	SV top = mk.mapping(fs, true);
	unsigned which = (unsigned)r.below(3);
	auto *t = const_cast<SF *>(top.mapping.fields);
	if (which == 2) t[0].key = text;
	string what = sfmt("a %s of %zu bytes", which == 0 ? "string" : which == 1 ? flags ? "flag name" : "name of a value" : "key", len);
	RUN.lazy = [&] { return what; };
	vector<uint64_t> body(top.data_size / 8 + 1);
	uint8_t *d = (uint8_t *)body.data();
	const char *small_text = "x";
	memcpy(d + t[0].data_offset, which == 0 ? (const void *)&text : (const void *)&small_text, 8);
	uint32_t v = which == 1 ? 2 : 1;
	memcpy(d + t[1].data_offset, &v, 4);
	ST["long_texts"]++;
	ST["max_text_mbytes"] = std::max(ST["max_text_mbytes"], (uint64_t)(len >> 20));
	ST.seen(hash_str(what, 2));
	{
		char *out = nullptr;
		size_t z = 0;
		cyaml_err_t err;
		{ LibCall lc; err = cyaml_save_data(&out, &z, &cfg, &top, d, 0); }
		if (err == CYAML_OK && z < len) violation("saved as %zu bytes of YAML: %s", z, esc(string(out, std::min<size_t>(z, 60)), 80).c_str());
		if (err != CYAML_OK && (out || z)) violation("failed save writes results");
		if (err == CYAML_OK) Alloc::fn(&a1, out, 0);
		check_alloc(a1, "after the save");
		ST["long_texts_saved"]++;
	}
	munmap(text, n * piece + tail);
	RUN.lazy = nullptr;
}

// A document that conforms, were its length cut to fewer bits; what follows is no text.
static void long_input(Rng &r) {
	size_t len = ((size_t)1 << r.range(r.chance(.7) ? 31 : 14, 34));
	string doc = "- 12\n- 34\n";
	len += doc.size();
	uint8_t *text = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (text == MAP_FAILED) fatal("no address space for the input");
	memcpy(text, doc.data(), doc.size());
	Alloc a;
	cyaml_config_t cfg = mk_config(&a, nullptr, nullptr, 0);
	Arena ar;
	Maker mk{ar, r};
	SV u;
	memset(&u, 0, sizeof u);
	u.type = CYAML_UINT; u.data_size = 4;
	SV top = mk.sequence(u, true, 0, CYAML_UNLIMITED);
	RUN.lazy = [&] { return sfmt("input of %zu bytes", len); };
	ST["long_inputs"]++;
	ST["max_input_mbytes"] = std::max(ST["max_input_mbytes"], (uint64_t)(len >> 20));
	ST.seen(hash_str("input", len));
	cyaml_data_t *data = nullptr;
	unsigned count = 0;
	cyaml_err_t err;
	{ LibCall lc; err = cyaml_load_data(text, len, &cfg, &top, &data, &count); }
	if (err == CYAML_OK) violation("only the beginning of the input was read: %u entries", count);
	if (err != CYAML_ERR_LIBYAML_PARSER) violation("load: %s", errname(err));
	check_alloc(a, "after the rejected input");
	munmap(text, len);
	RUN.lazy = nullptr;
}

MODE(span) {
	if (RUN.cur % 4 == 3) long_input(r);
	if (RUN.cur % 4 == 3) { long_text(r); return; }
	size_t stride = 4096 * (r.chance(.5) ? 256 : 128 + r.below(384));
	size_t n = ((size_t)1 << 32) / stride + 2 + r.below(40);
	unsigned k = r.chance(.35) ? 1u << r.range(1, 3) : 1; // parts of each entry
	while (k > 1 && (stride % (k * 4096) || stride / k < (512 << 10))) k /= 2;
	size_t part = stride / k;
	unsigned shape = (unsigned)(RUN.cur % 4); // top level, in a mapping, fixed in a mapping
	Spans sp(part, n * k);
	Arena ar;
	Maker mk{ar, r};
	unsigned flags = CYAML_CFG_STYLE_BLOCK;
	cyaml_config_t cfg = mk_config(nullptr, nullptr, nullptr, flags);
	cfg.mem_fn = Spans::fn;
	cfg.mem_ctx = &sp;
	SV str, u, big;
	memset(&str, 0, sizeof str); memset(&u, 0, sizeof u); memset(&big, 0, sizeof big);
	str.type = CYAML_STRING; str.flags = CYAML_FLAG_POINTER; str.data_size = 1; str.string.max = CYAML_UNLIMITED;
	u.type = CYAML_UINT; u.data_size = 4;
	vector<SF> fs = {mk.field("a", str), mk.field("b", u), mk.field("c", str, true), mk.field("d", u)};
	SV e = mk.mapping(fs, false);
	e.data_size = (uint32_t)part;
	auto *t = const_cast<SF *>(e.mapping.fields);
	t[0].data_offset = (uint32_t)(8 * r.below(100));
	t[1].data_offset = t[0].data_offset + 8;
	t[2].data_offset = (uint32_t)(part - 8 - 16 * r.below(100) - 8);
	t[3].data_offset = t[2].data_offset + 8;
	if (k > 1) {
		SV f = mk.sequence(e, false, k, k);
		f.type = CYAML_SEQUENCE_FIXED;
		f.data_size = (uint32_t)part;
		e = f;
	}
	SV list = mk.sequence(e, true, 0, CYAML_UNLIMITED);
	list.data_size = (uint32_t)part;
	if (k > 1) list.data_size = (uint32_t)(part * k); // an entry, as it is stored
	if (shape == 2) { list.type = CYAML_SEQUENCE_FIXED; list.sequence.min = list.sequence.max = (uint32_t)n; }
	SV top = list;
	uint8_t csize = r.chance(.5) ? 4 : 8;
	if (shape != 0) {
		vector<SF> tf = {mk.field("list", list), mk.field("x", u)};
		tf[0].count_size = csize;
		top = mk.mapping(tf, true);
	}
	ST[k > 1 ? "sequences_of_fixed" : "plain_sequences"]++;
	ST["spans"]++;
	ST["max_span_mbytes"] = std::max(ST["max_span_mbytes"], (uint64_t)(n * part * k >> 20));
	string what = sfmt("%zu entries of %u x %zu bytes, shape %u", n, k, part, shape);
	RUN.lazy = [&] { return what + "\nschema: " + dump_schema(&top).substr(0, 2000); };
	ST.seen(hash_str(what, 1));
	size_t total = n * k;
	string doc, pre = shape ? "  " : "";
	auto name = [&](size_t i) { return sfmt("s%zu", i); };
	for (size_t i = 0; i < n; i++) {
		doc += pre + (k > 1 ? "- [" : "- ");
		for (unsigned j = 0; j < k; j++) {
			size_t z = i * k + j;
			doc += sfmt("%s{a: s%zu, b: %zu, d: %zu%s}", j ? ", " : "", z, z, z * 7, z % 5 == 1 ? sfmt(", c: t%zu", z).c_str() : "");
		}
		doc += k > 1 ? "]\n" : "\n";
	}
	if (shape) doc = "list:\n" + doc + "x: 123456\n";
	auto view = [&](const char *op, void *data, unsigned count) {
		const uint8_t *d = (const uint8_t *)data;
		if (shape == 0) { if (count != n) violation("%s: %u entries instead of %zu", op, count, n); }
		else {
			const SF *tf = top.mapping.fields;
			uint64_t c = 0;
			memcpy(&c, d + tf[0].count_offset, csize);
			if (shape == 1 && c != n) violation("%s: count of %llu instead of %zu", op, (unsigned long long)c, n);
			uint32_t x; memcpy(&x, d + tf[1].data_offset, 4);
			if (x != 123456) violation("%s: the field after the sequence is %u", op, x);
			const uint8_t *q; memcpy(&q, d + tf[0].data_offset, 8);
			d = q;
		}
		Spans::Region *g = sp.of(d);
		if (!g || !g->live || g->used < total * part) violation("%s: the sequence is not in a live block of its size", op);
		for (size_t i = 0; i < total; i++) {
			const uint8_t *m = d + i * part;
			const char *a, *c; uint32_t b, dd;
			memcpy(&a, m + t[0].data_offset, 8); memcpy(&b, m + t[1].data_offset, 4);
			memcpy(&c, m + t[2].data_offset, 8); memcpy(&dd, m + t[3].data_offset, 4);
			if (!a || !sp.small.live.count((void *)a)) violation("%s: entry %zu has no string of its own", op, i);
			if (a != name(i)) violation("%s: entry %zu has the string %s", op, i, esc(a, 30).c_str());
			if (b != i || dd != (uint32_t)(i * 7)) violation("%s: entry %zu has the numbers %u and %u", op, i, b, dd);
			if ((c != nullptr) != (i % 5 == 1)) violation("%s: entry %zu %s an optional string", op, i, c ? "has" : "lacks");
			if (c && c != sfmt("t%zu", i)) violation("%s: entry %zu has the optional string %s", op, i, esc(c, 30).c_str());
			ST["entries_checked"]++;
		}
	};
	cyaml_err_t err;
	void *data = nullptr, *copy = nullptr;
	unsigned count = 0;
	{ LibCall lc; err = cyaml_load_data((const uint8_t *)doc.data(), doc.size(), &cfg, &top, &data, shape == 0 ? &count : nullptr); }
	if (err != CYAML_OK) violation("load: %s", errname(err));
	view("load", data, count);
	size_t blocks = sp.live();
	if (blocks != total + (total + 3) / 5 + 1 + (shape != 0)) violation("load leaves %zu blocks for %zu entries", blocks, total);
	{
		char *out = nullptr;
		size_t len = 0;
		{ LibCall lc; err = cyaml_save_data(&out, &len, &cfg, &top, data, shape == 0 ? count : 0); }
		if (err != CYAML_OK) violation("save: %s", errname(err));
		EvStream a = parse_events(string(out, len)), b = parse_events(doc);
		// the same scalars, but for fields being in the order of the schema
		vector<string> x, y;
		for (auto &ev : a.evs) if (ev.type == YAML_SCALAR_EVENT) x.push_back(ev.value);
		for (auto &ev : b.evs) if (ev.type == YAML_SCALAR_EVENT) y.push_back(ev.value);
		if (x.size() != y.size()) violation("save: %zu scalars instead of %zu", x.size(), y.size());
		for (size_t i = 0; i < x.size(); i++) {
			if (i + 3 < x.size() && x[i] == "c" && y[i] == "d") { if (x[i + 1] != y[i + 3] || x[i + 2] != y[i] || x[i + 3] != y[i + 1]) violation("save: scalar %zu: an entry differs", i); i += 3; continue; }
			if (x[i] != y[i]) violation("save: scalar %zu is %s instead of %s", i, esc(x[i], 40).c_str(), esc(y[i], 40).c_str());
		}
		Spans::fn(&sp, out, 0);
	}
	if (sp.live() != blocks) violation("save leaves %ld blocks", (long)sp.live() - (long)blocks);
	{ LibCall lc; err = cyaml_copy(&cfg, &top, data, shape == 0 ? count : 0, &copy); }
	if (err != CYAML_OK) violation("copy: %s", errname(err));
	view("copy", copy, count);
	if (sp.live() != 2 * blocks) violation("copy leaves %zu blocks instead of %zu", sp.live() - blocks, blocks);
	if (r.chance(.5)) std::swap(data, copy);
	{ LibCall lc; err = cyaml_free(&cfg, &top, data, count); }
	if (err != CYAML_OK) violation("free: %s", errname(err));
	if (sp.live() != blocks) violation("free leaves %ld of %zu blocks", (long)sp.live() - (long)blocks, blocks);
	view("freeing the other", copy, count);
	{ LibCall lc; err = cyaml_free(&cfg, &top, copy, count); }
	if (sp.live() != 0) violation("free leaves %zu blocks", sp.live());
	if (!sp.small.err.empty()) violation("%s", sp.small.err.c_str());
	if (!doc.empty() && r.chance(.5)) { // fails near its end
		string part_doc = doc.substr(0, doc.size() - 3 - r.below(60)) + "\n&";
		data = nullptr;
		{ LibCall lc; err = cyaml_load_data((const uint8_t *)part_doc.data(), part_doc.size(), &cfg, &top, &data, shape == 0 ? &count : nullptr); }
		if (err == CYAML_OK) cyaml_free(&cfg, &top, data, count);
		else ST["failures"]++;
		if (sp.live() != 0) violation("a failed load (%s) leaves %zu blocks", errname(err), sp.live());
	}
	RUN.lazy = nullptr;
}

// C03: every small limit, and the sizes at it and next to it
MODE(limits) {
	static const unsigned more[] = {383, 384, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
	unsigned kind = (unsigned)(RUN.cur % 8), i = (unsigned)(RUN.cur / 8 % (321 + sizeof more / sizeof *more));
	unsigned lim = i < 321 ? i : more[i - 321];
	Big b(r, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	if (lim > 300) b.a.pool = true;
	bool str = kind >= 5, inl = kind == 1 || kind == 4 || kind == 6, min = kind == 2 || kind == 7, fixed = kind == 3 || kind == 4;
	if (lim == 0 && !min && !(kind == 5)) lim = 321; // nothing could be in it
	SV s;
	memset(&s, 0, sizeof s);
	if (str) {
		s.type = CYAML_STRING;
		s.flags = (cyaml_flag_e)(inl ? 0 : CYAML_FLAG_POINTER);
		s.string.min = min ? lim : r.chance(.3) ? (uint32_t)r.below(lim + 1) : 0;
		s.string.max = min ? r.chance(.5) ? CYAML_UNLIMITED : lim + (uint32_t)r.below(3) : lim;
		s.data_size = inl ? lim + 1 : 1;
	} else {
		SV e = b.mk.scalar(r.chance(.3));
		if (r.chance(.2)) { vector<SF> fs = {b.mk.field("a", b.mk.scalar(r.chance(.3))), b.mk.field("b", b.mk.scalar(true), true)}; e = b.mk.mapping(fs, r.chance(.5)); }
		s = b.mk.sequence(e, !inl, min || fixed ? lim : r.chance(.3) ? (uint32_t)r.below(lim + 1) : 0, min ? r.chance(.5) ? CYAML_UNLIMITED : lim + (uint32_t)r.below(3) + (lim == 0) : lim);
		if (fixed) s.type = CYAML_SEQUENCE_FIXED;
	}
	bool top = !inl && r.chance(.3) && !(fixed && lim == 0);
	if (top) b.top = s;
	else {
		SF f = b.mk.field("it", s, r.chance(.3));
		f.count_size = r.pick(vector<unsigned>{2, 4, 8});
		vector<SF> fs = {b.mk.field("before", b.mk.scalar(false)), f, b.mk.field("after", b.mk.scalar(false))};
		if (r.chance(.3)) { // in the entries of another
			SV m = b.mk.mapping(fs, r.chance(.5));
			b.top = b.mk.sequence(m, true, 0, CYAML_UNLIMITED);
		} else b.top = b.mk.mapping(fs, true);
	}
	RUN.lazy = [&] { return sfmt("limit %u, kind %u, flags 0x%x\nschema: ", lim, kind, (unsigned)b.cfg.flags) + dump_schema(&b.top).substr(0, 3000); };
	long budget = 100000;
	ValOpts o;
	o.budget = &budget;
	o.p_absent = .2;
	bool seq_top = !top && b.top.type == CYAML_SEQUENCE;
	const SV *m = seq_top ? b.top.sequence.entry : &b.top;
	auto item = [&](size_t n) {
		Y y;
		if (str) {
			string t;
			unsigned style = (unsigned)r.below(3);
			while (t.size() < n) {
				string c = style == 0 ? "a" : style == 1 ? utf8_encode((unsigned)r.range(0xa1, 0x24f)) : utf8_encode(r.chance(.5) ? 0x4e00 + (unsigned)r.below(500) : 0x1f600 + (unsigned)r.below(50));
				t += t.size() + c.size() > n ? "z" : c;
			}
			y = mk_scalar(t);
		} else {
			y.k = Y::SEQ;
			for (size_t i = 0; i < n; i++) y.kids.push_back(doc_of(s.sequence.entry, gen_val(s.sequence.entry, r, o), r, &b.cfg));
		}
		return y;
	};
	auto whole = [&](const Y &y) {
		if (top) return y;
		auto one = [&](const Y &q) {
			Y z;
			z.k = Y::MAP;
			const SF *f = m->mapping.fields;
			z.kids = {mk_scalar("before"), doc_of(&f[0].value, gen_val(&f[0].value, r, o, false), r, &b.cfg), mk_scalar("it"), q, mk_scalar("after"), doc_of(&f[2].value, gen_val(&f[2].value, r, o, false), r, &b.cfg)};
			return z;
		};
		if (!seq_top) return one(y);
		Y z;
		z.k = Y::SEQ;
		unsigned before = (unsigned)r.below(2), after = (unsigned)r.below(2);
		while (before--) z.kids.push_back(one(item(lim)));
		z.kids.push_back(one(y));
		while (after--) z.kids.push_back(one(item(lim)));
		return z;
	};
	vector<size_t> sizes = {lim, (size_t)lim + 1};
	if (lim) sizes.push_back(lim - 1);
	sizes.push_back(r.chance(.5) ? r.below(lim + 1) : lim + 2 + r.below(lim + 2));
	for (size_t n : sizes) {
		string doc = render(whole(item(n)), r, quick_present(r, n));
		Outcome mo = model_load(parse_events(doc), &b.top, &b.cfg);
		if (mo.skip) continue;
		if (RUN.verbose) printf("%zu: %s\n", n, esc(doc, 300).c_str());
		LoadRes l = do_load(doc, &b.cfg, &b.top);
		ST["loads"]++;
		note_outcome(l.err, "load");
		ST.seen(hash_str(doc, lim * 8 + kind));
		string e = judge_load(mo, l, &b.top, &b.a);
		if (!e.empty()) violation("with %zu: %s", n, e.c_str());
		if (l.err == CYAML_OK) {
			ST[n == lim ? "at_the_limit" : "within"]++;
			string want = b.text(l.data, l.count);
			unsigned c = copy_count(&b.top, l.count);
			if (!(is_seq(&b.top) && c == 0)) {
				CopyRes q = do_copy(&b.cfg, &b.top, l.data, c);
				if (q.err != CYAML_OK) violation("copy with %zu: %s", n, errname(q.err));
				b.differ("copy", b.text(q.data, l.count), want);
				do_free(&b.cfg, &b.top, q.data, l.count);
			}
			do_free(&b.cfg, &b.top, l.data, l.count);
		} else if (n > lim) ST["beyond_the_limit"]++;
		else ST["below_the_limit"]++;
		check_alloc(b.a, "after a limit");
	}
	RUN.lazy = nullptr;
}

// C02, C07: every length from nothing to some thousands, one after another
MODE(lengths) {
	unsigned kind = (unsigned)(RUN.cur % 4);
	size_t base = (RUN.cur / 4 + RUN.seed * 97) % 520;
	Big b(r, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	long budget = 100000;
	ValOpts o;
	o.budget = &budget;
	o.p_absent = 0;
	size_t per = kind == 0 || kind == 3 ? 16 : kind == 1 ? 5 : 2, from = base * per;
	vector<size_t> sizes;
	for (size_t i = 0; i < per; i++) sizes.push_back(from + i);
	for (size_t i = sizes.size(); i > 1; i--) std::swap(sizes[i - 1], sizes[r.below(i)]);
	unsigned style = (unsigned)r.below(4);
	auto text = [&](size_t n) {
		string t;
		while (t.size() < n) {
			string c = style == 0 ? "a" : style == 1 ? string(1, r.chance(.1) && !t.empty() && t.size() + 1 < n ? ' ' : (char)r.range('a', 'z')) : utf8_encode(style == 2 ? (unsigned)r.range(0xa1, 0x24f) : 0x4e00 + (unsigned)r.below(5000));
			t += t.size() + c.size() > n ? "z" : c;
		}
		return t;
	};
	Val v;
	vector<SF> fs;
	switch (kind) {
	case 0: {
		SV s;
		memset(&s, 0, sizeof s);
		s.type = CYAML_STRING;
		bool inl = r.chance(.4);
		if (r.chance(.5) || inl) {
			v.k = Val::MAP;
			for (size_t i = 0; i < per; i++) {
				s.flags = (cyaml_flag_e)(inl ? 0 : CYAML_FLAG_POINTER);
				s.string.max = r.chance(.5) ? (uint32_t)sizes[i] : inl ? (uint32_t)sizes[i] + 2 : CYAML_UNLIMITED;
				s.string.min = r.chance(.5) ? (uint32_t)sizes[i] : 0;
				s.data_size = inl ? s.string.max + 1 : 1;
				fs.push_back(b.mk.field(sfmt("f%zu", i), s));
			}
			b.top = b.mk.mapping(fs, true);
		} else {
			s.flags = CYAML_FLAG_POINTER; s.data_size = 1; s.string.max = CYAML_UNLIMITED;
			b.top = b.mk.sequence(s, true, 0, CYAML_UNLIMITED);
			v.k = Val::SEQ;
		}
		for (size_t n : sizes) { Val q; q.k = Val::STR; q.s = text(n); v.kids.push_back(q); }
		break;
	}
	case 1: {
		SV e = b.mk.scalar(r.chance(.3));
		bool inl = r.chance(.3);
		v.k = Val::MAP;
		for (size_t i = 0; i < per; i++) {
			SV s = b.mk.sequence(e, !inl, r.chance(.3) ? (uint32_t)sizes[i] : 0, r.chance(.3) && sizes[i] ? (uint32_t)sizes[i] : inl ? (uint32_t)sizes[i] + 1 : CYAML_UNLIMITED);
			if (s.sequence.min && s.sequence.min == s.sequence.max && r.chance(.5)) s.type = CYAML_SEQUENCE_FIXED;
			SF f = b.mk.field(sfmt("f%zu", i), s);
			f.count_size = r.pick(vector<unsigned>{2, 4, 8});
			fs.push_back(f);
			Val q; q.k = Val::SEQ;
			for (size_t k = 0; k < sizes[i]; k++) q.kids.push_back(gen_val(s.sequence.entry, r, o));
			v.kids.push_back(q);
		}
		b.top = b.mk.mapping(fs, true);
		b.a.pool = true;
		break;
	}
	case 2: {
		for (size_t n : sizes) {
			n %= 1000;
			string key = text(n > 1 ? n - 1 : n);
			if (n > 1) key += (char)('a' + fs.size());
			fs.push_back(b.mk.field(key, b.mk.scalar(r.chance(.3))));
		}
		b.top = b.mk.mapping(fs, true);
		v = gen_val(&b.top, r, o);
		break;
	}
	default: {
		SV s;
		memset(&s, 0, sizeof s);
		unsigned which = (unsigned)r.below(3);
		s.type = which == 0 ? CYAML_ENUM : which == 1 ? CYAML_FLAGS : CYAML_BITFIELD;
		s.data_size = 4;
		s.flags = which < 2 ? CYAML_FLAG_STRICT : (cyaml_flag_e)0;
		auto *t = (cyaml_strval_t *)b.ar.get(sizeof(cyaml_strval_t) * (per + 1));
		auto *d = (cyaml_bitdef_t *)b.ar.get(sizeof(cyaml_bitdef_t) * (per + 1));
		for (size_t i = 0; i < per; i++) {
			size_t n = which == 2 ? sizes[i] % 1000 : sizes[i];
			string nm = text(n > 1 ? n - 1 : 1);
			nm += (char)('a' + i);
			cyaml_strval_t x = {b.ar.str(nm), which == 0 ? (int64_t)(i + 1) : (int64_t)1 << i};
			memcpy((void *)&t[i], &x, sizeof x);
			cyaml_bitdef_t y = {x.str, (uint8_t)(2 * i), 2};
			memcpy((void *)&d[i], &y, sizeof y);
		}
		if (which < 2) { s.enumeration.strings = t; s.enumeration.count = (uint32_t)per; }
		else { s.bitfield.bitdefs = d; s.bitfield.count = (uint32_t)per; }
		b.top = b.mk.sequence(s, true, 0, CYAML_UNLIMITED);
		v.k = Val::SEQ;
		Val q;
		if (which == 0) { q.k = Val::INT; for (size_t i = 0; i < per; i++) { q.i = (int64_t)i + 1; v.kids.push_back(q); } }
		else { q.k = Val::UINT; for (size_t i = 0; i < per; i++) { q.u = which == 1 ? (uint64_t)1 << i : (uint64_t)3 << 2 * i; v.kids.push_back(q); } q.u = which == 1 ? 0xffff : 0xffffffff; v.kids.push_back(q); }
	}
	}
	static const char *names[] = {"strings_of_length", "sequences_of_length", "keys_of_length", "names_of_length"};
	b.describe(names[kind], from);
	ST["lengths"] += per;
	Y y = doc_of(&b.top, v, r, &b.cfg);
	b.all(v, render(y, r, quick_present(r, 10)));
	RUN.lazy = nullptr;
}
