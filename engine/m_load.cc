// Modes about loading: C01 C02 C03 C10 C11 C12 C17 C18 C19 C22 C23
#include "core.h"

static string case_sample(const string &doc, cyaml_err_t e) { return sfmt("[%s] ", errname(e)) + esc(doc, 160); }

// Use loaded data with everything else there is, then give it back.
static void exercise(World &w, void *data, unsigned count) {
	Val v = extract_top(w.top(), data, count, &w.a);
	if (last_reached != w.a.live.size()) violation("a successful load leaves %zu blocks, of which the data make up %zu", w.a.live.size(), last_reached);
	SaveRes s = do_save(&w.cfg, w.top(), data, save_count(w.top(), count));
	note_outcome(s.err, "save");
	if (s.err == CYAML_OK && s.out.empty()) violation("an empty document was saved");
	CopyRes c = do_copy(&w.cfg, w.top(), data, copy_count(w.top(), count));
	note_outcome(c.err, "copy");
	if (c.err == CYAML_OK) w.release(c.data, count);
	w.release(data, count);
}

MODE(fuzz) { // C01: anything goes
	Prof p = Prof::swarm(r);
	p.numeric_names = r.chance(.2);
	bool debug = r.chance(.1);
	World w(r, p, random_cfg_flags(r), debug ? CYAML_LOG_DEBUG : CYAML_LOG_WARNING, r.chance(.2) ? .3 : 0);
	if (r.chance(.2)) w.vr.rej = {r.next(), 7};
	if (r.chance(.3)) w.cfg.log_fn = nullptr;
	unsigned rounds = 1 + (unsigned)r.below(4);
	for (unsigned i = 0; i < rounds; i++) {
		string doc;
		unsigned kind = (unsigned)r.below(7);
		switch (kind) {
		case 0: case 1: doc = mutate_bytes(gen_valid_doc(w, r), r, w.top()); break;
		case 2: case 3: {
			Y y;
			gen_valid_doc(w, r, nullptr, &y);
			mutate(y, r, w.top(), &w.cfg);
			if (r.chance(.4)) random_anchors(y, r);
			doc = render(y, r, Present::random(r));
			if (r.chance(.3)) doc = mutate_bytes(doc, r, w.top());
			break;
		}
		case 4: {
			static const vector<const char *> tok = {"- ", ": ", ":\n", "\n", "  ", "[", "]", "{", "}", ", ", "&a ", "&b ", "*a", "*b", "!!str ", "#c\n", "\"", "'", "|\n", ">-\n", "? ", "---\n", "...\n", "~", "null", "0x1f", "-7", "1e400", "true", "\t", "%YAML 1.1\n", "key", "a", "\\x00", "\xef\xbb\xbf", "\xff", "\xc3\xa9", "\r\n"};
			unsigned n = 1 + (unsigned)r.below(60);
			vector<string> keys;
			if (w.top()->type == CYAML_MAPPING) for (const SF *f = w.top()->mapping.fields; f->key; f++) keys.push_back(f->key);
			for (unsigned k = 0; k < n; k++) doc += !keys.empty() && r.chance(.3) ? r.pick(keys) : string(tok[r.below(tok.size())]);
			break;
		}
		case 5: for (unsigned n = (unsigned)r.below(64), k = 0; k < n; k++) doc += (char)r.next(); break;
		default: {
			Schema o;
			Prof q = Prof::swarm(r);
			gen_schema(r, q, o);
			long budget = 100;
			ValOpts vo; vo.budget = &budget;
			doc = render(doc_of(&o.top, gen_val(&o.top, r, vo), r, &w.cfg), r, Present::random(r));
		}
		}
		w.show(doc);
		Outcome m = model_load(parse_events(doc), w.top(), &w.cfg, nullptr);
		if (m.skip) { ST["skipped_exponential"]++; continue; }
		ST.seen(hash_str(doc, w.sum));
		w.vr.calls.clear();
		LoadRes l;
		if (r.chance(.1)) {
			string path = scratch_path("fuzz.yaml");
			write_scratch(path, doc);
			l = do_load_file(path, &w.cfg, w.top());
			ST["loads_from_file"]++;
		} else l = do_load(doc, &w.cfg, w.top());
		ST["loads"]++;
		ST["events"] += m.events;
		note_outcome(l.err, "load");
		if (i == 0 && r.chance(.01)) ST.sample(case_sample(doc, l.err));
		if (l.err == CYAML_OK) exercise(w, l.data, l.count);
		else { w.check_failed(l, "load"); check_alloc(w.a, "after a failed load"); }
	}
	w.finish();
}

MODE(values) { // C02: what is in the document is in the data
	Prof p = Prof::swarm(r);
	p.p_exotic *= .5;
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	Val v;
	string doc = gen_valid_doc(w, r, &v);
	w.show(doc);
	Val want = expected_of(w.top(), v);
	LoadRes l;
	if (r.chance(.1)) {
		string path = scratch_path("values.yaml");
		write_scratch(path, doc);
		l = do_load_file(path, &w.cfg, w.top());
	} else l = do_load(doc, &w.cfg, w.top());
	ST["loads"]++;
	ST.seen(hash_str(doc, w.sum));
	if (l.err != CYAML_OK) {
		Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
		if (m.err != CYAML_OK) harness_error("generated document does not conform: %s", errname(m.err));
		violation("a conforming document was rejected: %s", errname(l.err));
	}
	ExtractCtx x;
	x.a = &w.a;
	x.check_zero = true;
	Val got = extract(w.top(), (const uint8_t *)&l.data, l.count, &x);
	if (!x.err.empty()) violation("%s", x.err.c_str());
	string a = repr(got), b = repr(want);
	if (a != b) {
		Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
		if (repr(m.val) != b) harness_error("the generated document denotes another value: %s", diff_at(repr(m.val), b).c_str());
		violation("loaded value differs: %s", diff_at(a, b).c_str());
	}
	if (w.top()->type == CYAML_SEQUENCE && l.count != want.kids.size()) violation("sequence count %u instead of %zu", l.count, want.kids.size());
	ST["values_compared"] += (uint64_t)std::count(a.begin(), a.end(), ',') + 1;
	if (r.chance(.005)) ST.sample(case_sample(doc, l.err));
	w.release(l.data, l.count);
	w.finish();
}

static size_t more_zeros(Rng &r) { return r.below(r.chance(.5) ? 70 : r.chance(.5) ? 300 : 5000); }
// Numbers of every width and notation, right at the limits.
MODE(numbers) { // C02, C03
	Schema s;
	memset(&s.top, 0, sizeof s.top);
	SV *t = &s.top;
	t->type = (cyaml_type_e)r.pick(vector<int>{CYAML_INT, CYAML_UINT, CYAML_INT, CYAML_UINT, CYAML_ENUM, CYAML_FLAGS, CYAML_FLOAT, CYAML_BITFIELD});
	t->flags = (cyaml_flag_e)(CYAML_FLAG_POINTER | (r.chance(t->type == CYAML_FLOAT ? .5 : 0) ? CYAML_FLAG_STRICT : 0));
	t->data_size = t->type == CYAML_FLOAT ? (r.chance(.5) ? 4 : 8) : 1 + (uint32_t)r.below(8);
	cyaml_strval_t sv = {"name", 1};
	unsigned bits = t->data_size * 8;
	if (t->type == CYAML_ENUM || t->type == CYAML_FLAGS) { t->enumeration.strings = &sv; t->enumeration.count = 1; }
	cyaml_bitdef_t bd = {"b", 0, 1};
	if (t->type == CYAML_BITFIELD) {
		bd.offset = (uint8_t)r.below(bits); bd.bits = (uint8_t)(1 + r.below(bits - bd.offset));
		bits = bd.bits;
		t->bitfield.bitdefs = &bd; t->bitfield.count = 1;
	}
	uint64_t um = bits >= 64 ? UINT64_MAX : ((uint64_t)1 << bits) - 1;
	int64_t sm = (int64_t)(um >> 1);
	if (r.chance(.4)) {
		if (t->type == CYAML_INT) { int64_t a = sm - (int64_t)r.below((uint64_t)sm + 1), b = -sm - 1 + (int64_t)r.below((uint64_t)sm + 1); t->integer.min = b; t->integer.max = a; if (r.chance(.3)) (r.chance(.5) ? t->integer.min : t->integer.max) = 0; else if (r.chance(.2)) { t->integer.min = t->integer.max = a; } }
		if (t->type == CYAML_UINT) { uint64_t a = um == UINT64_MAX ? r.next() : r.below(um + 1), b = um == UINT64_MAX ? r.next() : r.below(um + 1); t->unsigned_integer.min = std::min(a, b); t->unsigned_integer.max = std::max(a, b); if (r.chance(.3)) t->unsigned_integer.min = 0; else if (r.chance(.1)) t->unsigned_integer.min = t->unsigned_integer.max; }
	}
	Alloc al; LogRec log;
	cyaml_config_t cfg = mk_config(&al, &log, nullptr, r.chance(.3) ? CYAML_CFG_CASE_INSENSITIVE : 0);
	for (int k = 0; k < 24; k++) {
		string n;
		if (t->type == CYAML_FLOAT) {
			static const vector<const char *> f = {"0", "-0", "1e38", "3.4028235e38", "3.4028236e38", "3.40282356779733e38", "3.4028235677973366e38", "1e39", "1.17549435e-38", "1e-38", "1e-45", "1e-46", "7e-46", "1.7976931348623157e308", "1.8e308", "1e309", "-1e309", "2.2250738585072014e-308", "1e-308", "4.9e-324", "1e-324", "nan", "-inf", "0x1p4", "0x1.8", ".5", "5.", "1e", "e5", "+1", "--1", "1_0", "1 ", "", "1,5", "infinity", "1e5x", "0x"};
			n = r.chance(.6) ? f[r.below(f.size())] : sfmt(r.chance(.5) ? "%.17g" : "%a", ldexp((double)r.next(), (int)r.range(-1130, 1030)));
			if (r.chance(.1)) n = sfmt("%.*f", (int)r.below(r.chance(.5) ? 40 : 1200), ldexp((double)r.next(), (int)r.range(-300, 300)));
			else if (r.chance(.1) && n.size() > 1 && isdigit(n[0]) && (n.size() < 2 || n[1] != 'x')) n.insert(0, more_zeros(r), '0');
			if (n.size() > 40) ST["long_numbers"]++;
		} else {
			unsigned __int128 base;
			switch (r.below(8)) {
			case 0: base = um; break;
			case 1: base = (unsigned __int128)sm; break;
			case 2: base = (unsigned __int128)sm + 1; break;
			case 3: base = (unsigned __int128)1 << r.below(66); break;
			case 4: base = (unsigned __int128)(t->type == CYAML_INT ? (t->integer.max < 0 ? 0 - (uint64_t)t->integer.max : (uint64_t)t->integer.max) : t->unsigned_integer.max); break;
			case 5: base = (unsigned __int128)(t->type == CYAML_INT ? (t->integer.min < 0 ? 0 - (uint64_t)t->integer.min : (uint64_t)t->integer.min) : t->unsigned_integer.min); break;
			case 6: base = r.below(10); break;
			default: base = r.next() & um;
			}
			int64_t d = r.range(-2, 2);
			if (d < 0 && base < (unsigned)-d) d = 0;
			base += (unsigned __int128)(__int128)d;
			// spell it
			unsigned rad = r.pick(vector<unsigned>{10, 10, 16, 8});
			string digits;
			unsigned __int128 q = base;
			do { digits.insert(digits.begin(), (r.chance(.5) ? "0123456789abcdef" : "0123456789ABCDEF")[(unsigned)(q % rad)]); q /= rad; } while (q);
			n = (rad == 16 ? (r.chance(.5) ? "0x" : "0X") : rad == 8 ? "0" : "") + string(r.chance(.1) && rad != 10 ? r.chance(.5) ? more_zeros(r) : 2 : 0, '0') + digits;
			if (n.size() > 40) ST["long_numbers"]++;
			if (r.chance(.4)) n = "-" + n; else if (r.chance(.1)) n = "+" + n;
			if (r.chance(.08)) n += r.pick({" ", "x", ".0", "e1", "8", "g", "L"});
			if (r.chance(.04)) n = " " + n;
			if (r.chance(.03)) n = r.pick({"", "-", "0x", "+", "0b1", "08", "1_000", "- 1", "name", "NAME"});
		}
		string doc = t->type == CYAML_FLAGS ? "[\"" + n + "\"]" : t->type == CYAML_BITFIELD ? "{b: \"" + n + "\"}" : "\"" + n + "\"";
		RUN.lazy = [&] { return s.dump() + "document: " + doc; };
		Outcome m = model_load(parse_events(doc), t, &cfg);
		LoadRes l = do_load(doc, &cfg, t);
		ST["loads"]++;
		note_outcome(l.err, "load");
		ST.seen(hash_str(doc, hash_bytes(t, sizeof *t)));
		string e = judge_load(m, l, t, &al);
		if (!e.empty()) violation("%s", e.c_str());
		if (l.err == CYAML_OK) do_free(&cfg, t, l.data, l.count);
		check_alloc(al, "after a number");
	}
	RUN.lazy = nullptr;
}

static void judge_doc(World &w, const string &doc, const char *file = nullptr) {
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg, nullptr);
	if (m.skip) { ST["skipped_exponential"]++; return; }
	LoadRes l;
	if (file) { write_scratch(file, doc); l = do_load_file(file, &w.cfg, w.top()); }
	else l = do_load(doc, &w.cfg, w.top());
	ST["loads"]++;
	ST["events"] += m.events;
	ST["replayed_events"] += m.replayed;
	note_outcome(l.err, "load");
	ST.seen(hash_str(doc, w.sum));
	string e = judge_load(m, l, w.top(), &w.a);
	if (!e.empty()) violation("%s", e.c_str());
	if (l.err == CYAML_OK) w.release(l.data, l.count);
	else w.check_failed(l, "load");
	check_alloc(w.a, "after the load");
}

MODE(conform) { // C03: accepted if and only if it conforms, with the right error
	Prof p = Prof::swarm(r);
	p.numeric_names = r.chance(.2);
	World w(r, p, random_cfg_flags(r));
	Y y;
	string doc = gen_valid_doc(w, r, nullptr, &y);
	unsigned rounds = 2 + (unsigned)r.below(5);
	for (unsigned i = 0; i < rounds; i++) {
		Y z = y;
		if (r.chance(.85)) mutate(z, r, w.top(), &w.cfg);
		Present pr = r.chance(.5) ? Present() : Present::random(r);
		string d = render(z, r, pr);
		if (r.chance(.12)) d = mutate_bytes(d, r, w.top());
		w.show(d);
		if (i == 0 && r.chance(.01)) ST.sample(esc(d, 200));
		judge_doc(w, d);
	}
	w.finish();
}

// Replace every alias by what it stands for; false if that cannot be done.
namespace {
struct Expander {
	std::map<string, Y> done;
	size_t nodes = 0;
	bool ok = true;
	void run(Y &y) {
		if (!ok || ++nodes > 20000) { ok = false; return; }
		if (y.k == Y::ALIAS) {
			auto it = done.find(y.text);
			if (it == done.end()) { ok = false; return; }
			const SV *s = y.schema;
			Y c = it->second;
			nodes += count(c);
			y = c;
			y.schema = s;
			return;
		}
		string a = y.anchor;
		y.anchor.clear();
		for (auto &k : y.kids) run(k);
		if (!a.empty() && ok) done[a] = y;
	}
	static size_t count(const Y &y) { size_t n = 1; for (auto &k : y.kids) n += count(k); return n; }
};
}
// Take an anchor from another place whose schema is of the same kind, so that
// the alias has a chance to conform.
static void collect_same(Y &y, std::map<const void *, vector<Y *>> &m, vector<Y *> &order) {
	const void *key = y.schema ? (y.schema->type == CYAML_MAPPING ? (const void *)y.schema->mapping.fields : (const void *)(uintptr_t)(y.schema->type + 1)) : nullptr;
	m[key].push_back(&y);
	order.push_back(&y);
	for (auto &k : y.kids) collect_same(k, m, order);
}
static bool inside(const Y &outer, const Y *p) {
	if (&outer == p) return true;
	for (auto &k : outer.kids) if (inside(k, p)) return true;
	return false;
}
static unsigned alias_alike(Y &root, Rng &r, unsigned want) {
	unsigned made = 0;
	for (unsigned t = 0; t < want; t++) {
		std::map<const void *, vector<Y *>> m;
		vector<Y *> order;
		collect_same(root, m, order);
		vector<vector<Y *> *> good;
		for (auto &x : m) if (x.second.size() > 1) good.push_back(&x.second);
		if (good.empty()) break;
		auto &v = *r.pick(good);
		size_t j = 1 + r.below(v.size() - 1), i = r.below(j);
		Y *a = v[i], *b = v[j];
		if (a->k == Y::ALIAS || inside(*a, b) || inside(*b, &root)) continue;
		if (a->anchor.empty()) a->anchor = r.chance(.3) ? "x" : sfmt("id%u", t);
		const SV *s = b->schema;
		Y al;
		al.k = Y::ALIAS; al.text = a->anchor; al.schema = s;
		*b = al;
		made++;
	}
	return made;
}
static string stream_sig(const string &doc) {
	string q;
	EvStream es = parse_events(doc);
	for (auto &e : es.evs) q += sfmt("%d:%zu:", (int)e.type, e.value.size()) + e.value + "&" + e.anchor;
	return es.error ? "error" : q;
}
MODE(anchors) { // C10
	Prof p = Prof::swarm(r);
	p.types |= 1u << CYAML_SEQUENCE;
	p.p_ign = r.pick(vector<double>{0, .2});
	p.max_seq = 2 + (int)r.below(6);
	unsigned fl = random_cfg_flags(r);
	World w(r, p, fl);
	Y y;
	gen_valid_doc(w, r, nullptr, &y);
	if (r.chance(.7)) alias_alike(y, r, 1 + (unsigned)r.below(8));
	if (r.chance(.2) && fl & CYAML_CFG_IGNORE_UNKNOWN_KEYS) ST["anchored_where_ignored"] += anchor_unread(y, r, 1 + (unsigned)r.below(3), &w.cfg);
	if (r.chance(.4)) random_anchors(y, r);
	if (r.chance(.3)) rename_anchors(y, r);
	if (r.chance(.15)) mutate(y, r, w.top(), &w.cfg);
	string doc = render(y, r, Present::random(r));
	if (r.chance(.1)) { string q = render_libyaml(y, r); if (!q.empty() && stream_sig(q) == stream_sig(doc)) doc = q; }
	w.show(doc);
	if (r.chance(.005)) ST.sample(esc(doc, 300));
	ST["aliases"] += (uint64_t)std::count(doc.begin(), doc.end(), '*');
	EvStream es = parse_events(doc);
	Outcome m = model_load(es, w.top(), &w.cfg);
	if (m.skip) { ST["skipped_exponential"]++; return; }
	if (m.replayed) ST["documents_with_replay"]++;
	ST["replayed_events"] += m.replayed;
	LoadRes l = do_load(doc, &w.cfg, w.top());
	ST["loads"]++;
	note_outcome(l.err, "load");
	ST.seen(hash_str(doc, w.sum));
	string e = judge_load(m, l, w.top(), &w.a);
	if (!e.empty()) violation("%s", e.c_str());
	// written out in full
	Y full = y;
	Expander x;
	x.run(full);
	if (x.ok && !(fl & CYAML_CFG_NO_ALIAS) && !es.error) {
		string fdoc = render(full, r, Present());
		LoadRes f = do_load(fdoc, &w.cfg, w.top());
		ST["compared_with_full_text"]++;
		// nodes which had to be rejected may be met in another order only if keys are odd, so codes are compared as well
		if (f.err != l.err) violation("with aliases: %s; with the aliased nodes written out: %s (%s)", errname(l.err), errname(f.err), esc(fdoc, 3000).c_str());
		if (f.err == CYAML_OK) {
			string a = repr(extract_top(w.top(), l.data, l.count, nullptr, false)), b = repr(extract_top(w.top(), f.data, f.count, nullptr, false));
			if (a != b || l.count != f.count) violation("value with aliases differs from that with the aliased nodes written out: %s", diff_at(a, b).c_str());
			w.release(f.data, f.count);
		}
	}
	if (l.err == CYAML_OK) w.release(l.data, l.count);
	else w.check_failed(l, "load");
	w.finish();
}

MODE(defaults) { // C11
	Prof p = Prof::swarm(r);
	p.p_opt = r.pick(vector<double>{.6, .95});
	p.p_dflt = r.pick(vector<double>{.5, .95});
	p.depth = 2 + (int)r.below(4);
	p.max_fields = 3 + (int)r.below(7);
	p.types |= 1u << CYAML_MAPPING;
	if (r.chance(.5)) p.types = 0xfff;
	p.p_rec = 0;
	p.p_seq_top = .4;
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	long budget = 300;
	ValOpts o = random_valopts(r, &budget);
	o.p_absent = r.pick(vector<double>{.5, .9, 1});
	Val v = gen_val(w.top(), r, o);
	Y tree = doc_of(w.top(), v, r, &w.cfg);
	bool aliased = r.chance(.3) && alias_alike(tree, r, 1 + (unsigned)r.below(4));
	string doc = render(tree, r, Present::random(r));
	w.show(doc);
	Val want = expected_of(w.top(), v);
	if (aliased) { // entries with the same fields left out, by the same nodes
		Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
		if (m.skip || m.err != CYAML_OK || m.unspecified) { ST["aliased_not_conforming"]++; return; }
		want = m.val;
		ST["aliased"]++;
	}
	LoadRes l = do_load(doc, &w.cfg, w.top()), l2;
	ST["loads"]++;
	ST.seen(hash_str(doc, w.sum));
	if (l.err != CYAML_OK) {
		Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
		if (m.err != CYAML_OK) harness_error("generated document does not conform: %s", errname(m.err));
		violation("a conforming document was rejected: %s", errname(l.err));
	}
	ExtractCtx x;
	x.a = &w.a;
	x.check_zero = true;
	Val got = extract(w.top(), (const uint8_t *)&l.data, l.count, &x);
	if (!x.err.empty()) violation("%s", x.err.c_str());
	string a = repr(got), b = repr(want);
	if (a != b) violation("loaded value differs: %s", diff_at(a, b).c_str());
	std::function<uint64_t(const SV *, const Val &)> absents = [&](const SV *s, const Val &q) {
		if (q.absent) { if (repr(default_val(s)) != repr(zero_val(s))) ST["defaults_applied"]++; return (uint64_t)1; }
		uint64_t n = 0;
		if (q.k == Val::MAP) { size_t i = 0; for (const SF *f = s->mapping.fields; f->key; f++) n += absents(&f->value, q.kids[i++]); }
		if (q.k == Val::SEQ) for (auto &k : q.kids) n += absents(s->sequence.entry, k);
		return n;
	};
	ST["absent_fields"] += absents(w.top(), v);
	// changing one load's data must not show in another, nor in the schema
	l2 = do_load(doc, &w.cfg, w.top());
	if (l2.err != CYAML_OK) violation("the same load failed the second time: %s", errname(l2.err));
	ExtractCtx y1;
	y1.a = &w.a;
	(void)extract(w.top(), (const uint8_t *)&l2.data, l2.count, &y1);
	for (auto &q : y1.reached) if (x.reached.count(q.first)) violation("data of two loads share memory");
	for (auto &q : y1.reached) for (auto &t : w.s.arena.sizes)
		if ((uint8_t *)q.first >= (uint8_t *)t.first && (uint8_t *)q.first < (uint8_t *)t.first + t.second) violation("data share memory with the schema");
	w.release(l2.data, l2.count);
	string c = repr(extract_top(w.top(), l.data, l.count, &w.a));
	if (c != a) violation("data changed when other data were released");
	if (r.chance(.005)) ST.sample(esc(doc, 200) + " => " + esc(a, 200));
	w.release(l.data, l.count);
	w.finish();
}

MODE(validators) { // C17
	Prof p = Prof::swarm(r);
	World w(r, p, random_cfg_flags(r), CYAML_LOG_WARNING, r.pick(vector<double>{.3, .7, 1}));
	if (r.chance(.45)) w.vr.rej = {r.next(), (unsigned)(2 + r.below(12))};
	Y y;
	gen_valid_doc(w, r, nullptr, &y);
	if (r.chance(.25)) mutate(y, r, w.top(), &w.cfg);
	if (r.chance(.25)) alias_alike(y, r, 1 + (unsigned)r.below(4));
	string doc = render(y, r, Present::random(r));
	w.show(doc);
	EvStream es = parse_events(doc);
	Outcome m = model_load(es, w.top(), &w.cfg, &w.vr.rej);
	if (m.skip) { ST["skipped_exponential"]++; return; }
	LoadRes l = do_load(doc, &w.cfg, w.top());
	ST["loads"]++;
	note_outcome(l.err, "load");
	ST.seen(hash_str(doc, w.sum));
	if (!m.unspecified) {
		// Defaults of absent strings and floats may pass through callbacks as
		// well: the specification covers values given in the document.  The
		// model lists those; others seen in between are only allowed for
		// values that equal the default of their schema.
		size_t i = 0;
		bool last_default = false;
		for (auto &c : w.vr.calls) {
			last_default = false;
			if (i < m.calls.size() && c.schema == m.calls[i].schema && c.what == m.calls[i].what) { i++; continue; }
			if (has(c.schema, CYAML_FLAG_OPTIONAL) && c.what == repr(default_val(c.schema))) { last_default = w.vr.rej(c.what); ST["calls_for_defaults"]++; continue; }
			violation("validation callback call %zu was %s; expected %s", i, esc(c.what, 800).c_str(), i < m.calls.size() ? esc(m.calls[i].what, 800).c_str() : "no further call");
		}
		if (i < m.calls.size() && !last_default) violation("validation callback was not called for value %zu: %s", i, esc(m.calls[i].what, 800).c_str());
		ST["callbacks"] += w.vr.calls.size();
		if (w.vr.calls.size()) ST["loads_with_callbacks"]++;
		if (!last_default) {
			string e = judge_load(m, l, w.top(), &w.a);
			if (!e.empty()) violation("%s", e.c_str());
		}
		if (!w.vr.calls.empty() && w.vr.rej(w.vr.calls.back().what)) { ST["rejections"]++; if (l.err != CYAML_ERR_INVALID_VALUE) violation("a refused value gave %s", errname(l.err)); }
	}
	if (r.chance(.005) && !w.vr.calls.empty()) ST.sample(sfmt("%zu calls, %s: ", w.vr.calls.size(), errname(l.err)) + esc(doc, 150));
	if (l.err == CYAML_OK) w.release(l.data, l.count);
	else w.check_failed(l, "load");
	w.finish();
}

MODE(ignored) { // C19
	Prof p = Prof::swarm(r);
	p.p_ign = .3;
	p.p_opt = std::max(p.p_opt, .3);
	unsigned fl = random_cfg_flags(r);
	if (r.chance(.7)) fl |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
	fl &= ~(unsigned)CYAML_CFG_NO_ALIAS;
	World w(r, p, fl, CYAML_LOG_DEBUG);
	static const string pre = "Load: Ignoring value for key: ";
	w.log.only = pre;
	Y y;
	gen_valid_doc(w, r, nullptr, &y);
	// more of what is to be ignored, some of it large or deep
	std::function<void(Y &)> add = [&](Y &n) {
		for (auto &k : n.kids) add(k);
		if (n.k != Y::MAP || !n.schema || n.schema->type != CYAML_MAPPING || !r.chance(.5)) return;
		for (unsigned i = 1 + (unsigned)r.below(3); i > 0; i--) {
			Y key = mk_scalar(r.chance(.2) ? string("") : "Zz unknown " + sfmt("%u", (unsigned)r.below(3)));
			if (r.chance(.1)) key.text = "Zz \xc3\x89t\xc3\xa9";
			Y val = gen_garbage(r, r.chance(.1) ? 12 : 4);
			if (r.chance(.03)) { Y deep = mk_scalar("x"); unsigned levels = r.chance(.15) ? 250 + (unsigned)r.below(r.chance(.3) ? 600 : 16) : 60; for (unsigned d = 0; d < levels; d++) { Y o; o.k = r.chance(.5) ? Y::SEQ : Y::MAP; if (o.k == Y::MAP) o.kids.push_back(mk_scalar("k")); o.kids.push_back(deep); deep = o; } val = deep; if (levels > 255) ST["ignored_deep"]++; }
			if (r.chance(.3)) val.anchor = r.pick({"ig", "ig2"});
			else if (r.chance(.1)) { val = Y(); val.k = Y::ALIAS; val.text = r.pick({"ig", "ig2"}); }
			size_t at = 2 * r.below(n.kids.size() / 2 + 1);
			Y kv[2] = {key, val};
			n.kids.insert(n.kids.begin() + (long)at, kv, kv + 2);
		}
	};
	if (fl & CYAML_CFG_IGNORE_UNKNOWN_KEYS || r.chance(.1)) add(y);
	if (r.chance(.3)) alias_alike(y, r, 3);
	if (r.chance(.15) && fl & CYAML_CFG_IGNORE_UNKNOWN_KEYS) ST["anchored_where_ignored"] += anchor_unread(y, r, 1 + (unsigned)r.below(3), &w.cfg);
	string doc = render(y, r, Present::random(r));
	w.show(doc);
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg);
	if (m.skip) { ST["skipped_exponential"]++; return; }
	LoadRes l = do_load(doc, &w.cfg, w.top());
	ST["loads"]++;
	note_outcome(l.err, "load");
	ST.seen(hash_str(doc, w.sum));
	string e = judge_load(m, l, w.top(), &w.a);
	if (!e.empty()) violation("%s", e.c_str());
	vector<string> seen;
	bool warn = fl & CYAML_CFG_IGNORED_KEY_WARNING;
	for (auto &x : w.log.lines) {
		if (x.text.compare(0, pre.size(), pre)) continue;
		if (x.level != (warn ? CYAML_LOG_WARNING : CYAML_LOG_DEBUG)) violation("ignored key reported at level %d", (int)x.level);
		string k = x.text.substr(pre.size());
		if (!k.empty() && k.back() == '\n') k.pop_back();
		seen.push_back(k);
	}
	if (seen != m.ignored && !m.unspecified) {
		string a, b;
		for (auto &k : seen) a += "<" + k + ">";
		for (auto &k : m.ignored) b += "<" + k + ">";
		violation("keys reported as ignored: %s; ignored: %s", esc(a, 1000).c_str(), esc(b, 1000).c_str());
	}
	ST["ignored_values"] += seen.size();
	// the same without what is ignored (aliases to it need it, so leave those cases)
	if (l.err == CYAML_OK && doc.find('*') == string::npos) {
		std::function<void(Y &)> strip = [&](Y &n) {
			if (n.k == Y::MAP && n.schema && n.schema->type == CYAML_MAPPING) {
				vector<Y> keep;
				for (size_t i = 0; i + 1 < n.kids.size(); i += 2) {
					const SF *hit = nullptr;
					for (const SF *f = n.schema->mapping.fields; f->key; f++) if (ref_equal(n.kids[i].text, f->key, ref_sensitive(&w.cfg, n.schema))) { hit = f; break; }
					if (!hit) continue;
					if (hit->value.type == CYAML_IGNORE && has(&hit->value, CYAML_FLAG_OPTIONAL)) continue;
					keep.push_back(n.kids[i]); keep.push_back(n.kids[i + 1]);
				}
				n.kids = keep;
			}
			for (auto &k : n.kids) strip(k);
		};
		Y z = y;
		strip(z);
		string d2 = render(z, r, Present());
		LoadRes q = do_load(d2, &w.cfg, w.top());
		ST["compared_without_ignored"]++;
		if (q.err != CYAML_OK) violation("without the ignored parts the load fails: %s (%s)", errname(q.err), esc(d2, 2000).c_str());
		string a = repr(extract_top(w.top(), l.data, l.count, nullptr, false)), b = repr(extract_top(w.top(), q.data, q.count, nullptr, false));
		if (a != b) violation("ignored parts change the result: %s", diff_at(a, b).c_str());
		w.release(q.data, q.count);
	}
	if (r.chance(.005) && !seen.empty()) ST.sample(sfmt("%zu ignored: ", seen.size()) + esc(doc, 150));
	if (l.err == CYAML_OK) w.release(l.data, l.count);
	else w.check_failed(l, "load");
	w.finish();
}

MODE(presentation) { // C22
	Prof p = Prof::swarm(r);
	World w(r, p, random_cfg_flags(r) & ~(unsigned)CYAML_CFG_NO_ALIAS);
	Y y;
	string doc0 = gen_valid_doc(w, r, nullptr, &y);
	bool bad = r.chance(.25);
	if (bad) mutate(y, r, w.top(), &w.cfg);
	if (r.chance(.15)) alias_alike(y, r, 2);
	doc0 = render(y, r, Present());
	w.show(doc0);
	{ Outcome m = model_load(parse_events(doc0), w.top(), &w.cfg); if (m.skip) return; }
	LoadRes base = do_load(doc0, &w.cfg, w.top());
	string want = base.err == CYAML_OK ? repr(extract_top(w.top(), base.data, base.count, &w.a)) : "";
	// the nodes of the first document, in order and (as a sum) regardless of it
	auto nodes_of = [](const string &d, uint64_t &sum) {
		string q;
		EvStream es = parse_events(d);
		bool first = true;
		unsigned docs = 0;
		sum = 0;
		for (auto &e : es.evs) {
			if (e.type == YAML_DOCUMENT_START_EVENT) { if (docs++) first = false; continue; }
			if (e.type == YAML_DOCUMENT_END_EVENT) continue;
			if (!first && e.type != YAML_STREAM_END_EVENT) continue;
			string n = sfmt("%d:%zu:", (int)e.type, e.value.size()) + e.value;
			sum += hash_str(n);
			q += n;
		}
		if (es.error) { q += "!"; sum++; }
		return q;
	};
	uint64_t sum0, sum1;
	string nodes = nodes_of(doc0, sum0);
	std::set<uint64_t> forms;
	unsigned n = 3 + (unsigned)r.below(5);
	for (unsigned i = 0; i < n; i++) {
		Y z = y;
		bool order = r.chance(.4) && base.err == CYAML_OK && doc0.find('*') == string::npos;
		if (order) {
			std::function<void(Y &)> shuffle = [&](Y &q) {
				for (auto &k : q.kids) shuffle(k);
				if (q.k != Y::MAP || !q.schema || q.schema->type != CYAML_MAPPING) return;
				for (size_t c = q.kids.size() / 2; c > 1; c--) { size_t j = r.below(c); if (j != c - 1) { std::swap(q.kids[2 * j], q.kids[2 * c - 2]); std::swap(q.kids[2 * j + 1], q.kids[2 * c - 1]); } }
			};
			shuffle(z);
		}
		string doc;
		if (r.chance(.2)) doc = render_libyaml(z, r);
		if (doc.empty()) doc = render(z, r, Present::random(r));
		// only presentations which denote the same nodes count
		string q = nodes_of(doc, sum1);
		if (order ? sum0 != sum1 : q != nodes) { ST["presentations_of_other_nodes"]++; continue; }
		w.show(doc);
		LoadRes l = do_load(doc, &w.cfg, w.top());
		ST["loads"]++;
		if (order) ST["reordered"]++;
		note_outcome(l.err, "load");
		forms.insert(hash_str(doc));
		ST.seen(hash_str(doc, w.sum));
		if (l.err != base.err) violation("presented differently: %s, plainly: %s (%s)", errname(l.err), errname(base.err), esc(doc0, 3000).c_str());
		if (l.err == CYAML_OK) {
			string got = repr(extract_top(w.top(), l.data, l.count, &w.a, false));
			if (got != want || l.count != base.count) violation("value differs from that of a plain presentation: %s", diff_at(got, want).c_str());
			w.release(l.data, l.count);
		}
	}
	if (forms.size() > 1) ST["documents_with_several_forms"]++;
	if (r.chance(.005)) ST.sample(esc(doc0, 120));
	if (base.err == CYAML_OK) w.release(base.data, base.count);
	w.finish();
}
