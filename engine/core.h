// Shared core of the runtime-monitoring engine: RNG, monitored allocator,
// log recorder, schema/value/document representations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
extern "C" {
#include <cyaml/cyaml.h>
#include <yaml.h>
}

using std::string;
using std::vector;

// ---------------------------------------------------------------- RNG
static inline uint64_t mix64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return mix64(h);
}
static inline uint64_t hash_str(const string &s, uint64_t h = 1469598103934665603ull) {
	return hash_bytes(s.data(), s.size(), h);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	// [0,n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
	const char *pick(std::initializer_list<const char *> v) { return v.begin()[below(v.size())]; }
};

string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
string esc(const string &s, size_t max = 4000);
string diff_at(const string &got, const string &want); // both, around where they differ

// ---------------------------------------------------------------- engine run context
struct Stats {
	std::map<string, uint64_t> n;
	std::unordered_set<uint64_t> distinct;
	vector<string> samples;
	uint64_t &operator[](const string &k) { return n[k]; }
	void seen(uint64_t h) { n["evaluations"]++; if (distinct.size() < 400000) distinct.insert(h); }
	void sample(const string &s, size_t cap = 6) { if (samples.size() < cap) samples.push_back(s); }
};
extern Stats ST;
struct Run {
	string mode;
	uint64_t seed = 1;
	uint64_t cur = 0;      // current case index
	bool thorough = false;
	bool verbose = false;
	string scratch;        // scratch directory, private to this worker
	bool lost_counts = false; // data with counts of sequences which are not there were made on purpose
	string context;        // description of the running case, for reports
	std::function<string()> lazy; // the same, made up when needed
};
extern Run RUN;
// Report a violation and end the process.
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Report that a case could not be judged for reasons of the harness itself.
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(cond, ...) do { if (!(cond)) violation(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- in-library accounting
// While a library call runs, in_lib is set; callbacks clear it.  malloc/free
// hooks of the sanitizer runtime count only what happens with it set, which is
// what libcyaml and libyaml themselves allocate outside of the client allocator.
extern thread_local int in_lib;
extern thread_local long lib_mallocs, lib_frees;
struct OutOfLib { int saved; OutOfLib() : saved(in_lib) { in_lib = 0; } ~OutOfLib() { in_lib = saved; } };
void install_hooks();
int fd_probe(); // lowest free file descriptor

extern thread_local bool allow_direct; // the client's memory function is malloc's own

// Streams which the library opens, while armed
struct IoPlan {
	bool armed = false, fail_open = false, fail_close = false, short_io = false;
	int64_t fail_at = -1;        // reads or writes fail from this byte on
	bool once = false;           // ... but only the first time
	int err = 5;
	int bufsize = -1;            // of the stream: -1 default, 0 none
	string content, written;
	size_t at = 0;
	unsigned opens = 0, closes = 0, calls = 0, errors = 0;
	Rng rng{1};
	vector<char> buf;
	char *buffer() { buf.resize((size_t)bufsize); return buf.data(); }
};
extern IoPlan IO;

// ---------------------------------------------------------------- monitored allocator
struct Alloc {
	uint32_t magic = 0xa110c8ed;
	std::unordered_map<void *, size_t> live;
	uint64_t reqs = 0;           // growth requests seen
	uint64_t frees = 0;
	int64_t fail_at = -1;        // fail this request (0-based)
	bool fail_after = false;     // ... and all the following ones
	uint64_t injected = 0;
	uint8_t poison = 0xa5;
	bool pool = false;           // blocks are handed out again as they are, and resized in place if possible
	std::map<size_t, vector<void *>> spare;
	size_t bytes = 0, peak = 0;
	string err;                  // first misuse seen
	vector<std::pair<void *, size_t>> *journal = nullptr;
	static void *fn(void *ctx, void *ptr, size_t size);
	void *grab(size_t size);
	void drop(void *p, size_t size);
	void note(const string &e) { if (err.empty()) err = e; }
	void reset_faults() { fail_at = -1; fail_after = false; injected = 0; reqs = 0; }
	~Alloc();
};

// ---------------------------------------------------------------- log recorder
struct LogLine { cyaml_log_t level; string text; };
struct LogRec {
	vector<LogLine> lines;
	size_t cap = 100000;
	uint64_t count = 0;
	bool format = true;
	string only;             // keep lines which begin like this
	std::function<void(cyaml_log_t)> hook;
	static void fn(cyaml_log_t level, void *ctx, const char *fmt, va_list args);
};

// ---------------------------------------------------------------- values
struct Val {
	enum K : char { NUL = 'N', INT = 'i', UINT = 'u', BOOL = 'b', FLT = 'f', STR = 's', MAP = 'm', SEQ = 'q', IGN = 'g' };
	K k = NUL;
	bool absent = false; // optional field, not given
	int64_t i = 0;
	uint64_t u = 0;
	double f = 0;
	string s;
	vector<Val> kids; // sequence entries, or one per mapping field in schema order
};
void repr(const Val &v, string &out);
int64_t sext(uint64_t v, size_t size);
// the type of an enumeration may be signed or not
static inline bool fits_enum(int64_t v, size_t size) { return size >= 8 || (v >= -((int64_t)1 << (size * 8 - 1)) && v < (int64_t)1 << (size * 8)); }
static inline bool enum_is(const cyaml_schema_value_t *s, unsigned i, int64_t v) {
	int64_t x = s->enumeration.strings[i].val;
	return fits_enum(x, s->data_size) && sext((uint64_t)x, s->data_size) == v;
}
static inline string repr(const Val &v) { string s; repr(v, s); return s; }

// ---------------------------------------------------------------- schema helpers
typedef cyaml_schema_value_t SV;
typedef cyaml_schema_field_t SF;
static inline bool is_seq(const SV *s) { return s->type == CYAML_SEQUENCE || s->type == CYAML_SEQUENCE_FIXED; }
static inline bool has(const SV *s, unsigned f) { return ((unsigned)s->flags & f) == f; }
size_t inline_size(const SV *s);   // bytes used where the value lives in its parent
size_t inline_align(const SV *s);
static inline unsigned field_count(const SF *f) { unsigned n = 0; while (f[n].key) n++; return n; }

struct Arena { // owns everything a schema refers to; separate heap blocks
	vector<void *> blocks;
	std::unordered_map<void *, size_t> sizes;
	void *get(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0, n); blocks.push_back(p); sizes[p] = n; return p; }
	char *str(const string &s) { char *p = (char *)get(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
	~Arena() { for (auto b : blocks) free(b); }
	uint64_t checksum() const;
	Arena() {}
	Arena(const Arena &) = delete;
};

// What a schema generator may use.  Chosen anew per case (swarm testing).
struct Prof {
	int depth = 4;
	int max_fields = 6;
	int max_seq = 6;
	bool big_sizes = false;      // odd data sizes 3, 5, 6, 7
	double p_ptr = .4, p_opt = .3, p_null = .2, p_nullstr = .2, p_dflt = .5, p_strict = .3;
	double p_range = .3, p_valid = 0, p_case = .15, p_style = .0, p_sstyle = 0, p_wide = .05, p_deep = .05;
	double p_ign = .05;
	double p_exotic = .2;        // exotic names
	double p_scalar_top = .1, p_seq_top = .3;
	uint32_t types = 0xfff;      // bit per cyaml_type
	bool no_null_ambiguity = false;
	bool longs = false;          // long strings
	double p_rec = .05;          // recursive mappings
	int budget = 100;            // limit of values in the schema
	bool numeric_names = false;  // names of enum values and flags that look like numbers
	int wide_max = 72;
	static Prof swarm(Rng &r);
};
struct Schema {
	Arena arena;
	SV top;
	unsigned nodes = 0;
	bool recursive = false;
	string dump() const;
};
void gen_schema(Rng &r, const Prof &p, Schema &out);
string dump_schema(const SV *s, int indent = 0);
string gen_name(Rng &r, const Prof &p, std::set<string> &used);
void walk_schema(SV *s, const std::function<void(SV *)> &fn); // each value once
void store_default(Arena &a, Rng &r, const Prof &p, SV *s);

// reference case folding of the Latin blocks (Basic, -1, Extended-A and -B)
unsigned ref_fold(unsigned cp);
bool utf8_decode(const string &s, vector<unsigned> &out);
string utf8_encode(unsigned cp);
string ref_fold_str(const string &s);
bool ref_equal(const string &a, const string &b, bool sensitive);
bool ref_sensitive(const cyaml_config_t *cfg, const SV *s);

// ---------------------------------------------------------------- data in memory
Val zero_val(const SV *s);                    // what zeroed storage reads as
Val default_val(const SV *s);                 // what an unset optional field becomes
struct ExtractCtx {
	Alloc *a = nullptr;                   // if set, pointers must be live blocks
	std::unordered_map<void *, size_t> reached; // block -> bytes needed
	bool heap = false;                    // ... of the process heap
	bool check_zero = false;              // bytes without a meaning must be zero
	bool strict_strings = true;
	string err;
	void note(const string &e) { if (err.empty()) err = e; }
};
Val extract(const SV *s, const uint8_t *data, uint64_t count, ExtractCtx *x);   // data: where the value lives
Val extract_body(const SV *s, const uint8_t *body, uint64_t count, ExtractCtx *x); // after following the pointer
// write Val v to place (allocating with `get`), returns sequence count
uint64_t store(const SV *s, const Val &v, uint8_t *place, const std::function<void *(size_t)> &get);
uint64_t store_body(const SV *s, const Val &v, uint8_t *body, const std::function<void *(size_t)> &get);
void write_num(uint8_t *p, size_t size, uint64_t v);
uint64_t read_num(const uint8_t *p, size_t size);

// ---------------------------------------------------------------- documents
struct Y {
	enum K { SCALAR, SEQ, MAP, ALIAS } k = SCALAR;
	string text;
	bool quoted = false;                 // must not be plain
	string anchor;
	vector<Y> kids;                      // SEQ entries; MAP: key, value, key, value ...
	const SV *schema = nullptr;          // schema of the value this was made for
};
Y mk_scalar(const string &t);
string node_str(const Y &y);
struct ValOpts {
	int depth = 0, max_depth = 12;
	long *budget = nullptr;
	double p_absent = .4, p_null = .25, p_zero = .1, p_extreme = .3;
	int max_seq = 6;
	bool longs = false;
	bool for_save = false;               // only values which save can represent
	bool no_special_strings = false;
};
Val gen_val(const SV *s, Rng &r, const ValOpts &o, bool optional_ctx = false);
Y doc_of(const SV *s, const Val &v, Rng &r, const cyaml_config_t *cfg);
Val expected_of(const SV *s, const Val &v); // resolves absents to defaults
unsigned anchor_unread(Y &root, Rng &r, unsigned want, const cyaml_config_t *cfg);
void mutate(Y &y, Rng &r, const SV *top, const cyaml_config_t *cfg);
struct Present {
	double p_flow = .3, p_comment = .2, p_dq = .3, p_sq = .2, p_plain = .8, p_lit = .1, p_tag = .03;
	int indent = 2;
	bool crlf = false, header = false, footer = false, extra_doc = false, bom = false;
	int utf16 = 0; // 1 LE, 2 BE
	static Present random(Rng &r);
};
string render(const Y &y, Rng &r, const Present &p);
string render_libyaml(const Y &y, Rng &r);
void random_anchors(Y &y, Rng &r);
void rename_anchors(Y &y, Rng &r);

// ---------------------------------------------------------------- reference model of loading
struct Ev {
	yaml_event_type_t type = YAML_NO_EVENT;
	string value, anchor, tag;
	int style = 0;
	bool implicit = false;
	size_t line = 0, col = 0;
};
struct EvStream { vector<Ev> evs; bool error = false; };
EvStream parse_events(const string &bytes);

struct ValCall { const SV *schema; string what; };
struct PathEl { char kind; string key; uint32_t idx; size_t line, col; }; // 'f' field, 'm' mapping, 's' sequence
struct Outcome {
	cyaml_err_t err = CYAML_OK;
	bool any_error = false;     // some error, code not specified
	bool skip = false;          // not judged (documents too large when expanded, ...)
	bool unspecified = false;   // behaviour outside of the specification was reached
	Val val;
	unsigned seq_count = 0;
	vector<ValCall> calls;
	vector<string> ignored;     // keys whose values got ignored
	vector<PathEl> path;        // where it failed, outermost first
	uint64_t events = 0, replayed = 0;
};
struct Rejector { uint64_t salt = 0; unsigned mod = 0; bool operator()(const string &r) const { return mod && hash_str(r, salt) % mod == 0; } };
Outcome model_load(const EvStream &es, const SV *top, const cyaml_config_t *cfg, const Rejector *rej = nullptr);

// validation callback recorder, given as validation_ctx
struct ValRec {
	uint32_t magic = 0x7a11da7e;
	vector<ValCall> calls;
	Rejector rej;
	string err;
};
extern thread_local ValRec *tl_rec;
extern thread_local void *tl_rec_ctx;
void set_validators(SV *s, Rng &r, double p);
Y gen_garbage(Rng &r, int depth);

// ---------------------------------------------------------------- reference model of saving
struct SEv { yaml_event_type_t type; string value; char cmp; int style; }; // cmp: exact 's', int 'i', float 'd'/'f', bool 'b'
vector<SEv> save_events(const SV *top, const Val &v, const cyaml_config_t *cfg);
bool emit_reference(const vector<SEv> &evs, const cyaml_config_t *cfg, string &out);
bool reference_good(const vector<SEv> &evs, const cyaml_config_t *cfg); // libyaml can write and read these
bool all_text(const Val &v); // every string is UTF-8
bool save_accepts(const SV *s, const Val &v); // all values can be saved
bool copy_accepts(const SV *s, const Val &v, bool field = false); // no required pointer is NULL
string compare_saved(const string &output, const vector<SEv> &evs, const cyaml_config_t *cfg, bool check_style);

// ---------------------------------------------------------------- running the library
cyaml_config_t mk_config(Alloc *a, LogRec *log, ValRec *val, unsigned flags, cyaml_log_t level = CYAML_LOG_WARNING);
unsigned random_cfg_flags(Rng &r);
struct LoadRes {
	cyaml_err_t err;
	void *data;
	unsigned count;
	bool outputs_touched; // on failure
	long mallocs;         // net, in library
	int fd_before, fd_after;
};
LoadRes do_load(const string &doc, const cyaml_config_t *cfg, const SV *top);
LoadRes do_load_file(const string &path, const cyaml_config_t *cfg, const SV *top);
struct SaveRes { cyaml_err_t err; string out; bool outputs_touched; long mallocs; int fd_before, fd_after; size_t blocks; };
SaveRes do_save(const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count);
SaveRes do_save_file(const string &path, const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count);
struct CopyRes { cyaml_err_t err; void *data; bool outputs_touched; long mallocs; };
CopyRes do_copy(const cyaml_config_t *cfg, const SV *top, const void *data, unsigned count);
cyaml_err_t do_free(const cyaml_config_t *cfg, const SV *top, void *data, unsigned count);
// extract the value at a top level pointer and check pointers against the allocator
Val extract_top(const SV *top, void *data, unsigned count, Alloc *a, bool check = true);
const char *errname(cyaml_err_t e);
// build client data of the given value; memory from the allocator's own fn
void *build_data(const cyaml_config_t *cfg, const SV *top, const Val &v, unsigned *count);
void check_alloc(Alloc &a, const char *when);
// differences between expected and actual, or empty
string judge_load(const Outcome &m, const LoadRes &l, const SV *top, Alloc *a, bool strict_code = true);
bool write_file(const string &path, const string &data);
bool read_file(const string &path, string &out);

extern size_t last_reached;

// A schema with everything needed to use it.
struct World {
	Schema s;
	Prof prof;
	unsigned flags;
	Alloc a;
	LogRec log;
	ValRec vr;
	cyaml_config_t cfg;
	uint64_t sum = 0;
	World(Rng &r, const Prof &p, unsigned flags, cyaml_log_t level = CYAML_LOG_WARNING, double p_valid = 0);
	World(const SV &top, unsigned flags);   // with a schema from elsewhere
	~World() { RUN.lazy = nullptr; }
	const SV *top() const { return &s.top; }
	void show(const string &doc);          // to be shown with a violation
	void seal() { sum = s.arena.checksum(); }
	void finish();                          // nothing left, schema unchanged
	// load that must agree with what is returned, or a violation
	void check_failed(const LoadRes &l, const char *when);
	void release(void *data, unsigned count) { if (do_free(&cfg, top(), data, count) != CYAML_OK) violation("free failed"); }
};
// numbers of entries as the other calls want them
static inline unsigned save_count(const SV *t, unsigned n) { return t->type == CYAML_SEQUENCE ? n : 0; }
static inline unsigned copy_count(const SV *t, unsigned n) { return t->type == CYAML_SEQUENCE ? n : t->type == CYAML_SEQUENCE_FIXED ? t->sequence.max : 0; }
string scratch_path(const char *name);
void write_scratch(const string &path, const string &data);
string gen_valid_doc(World &w, Rng &r, Val *val = nullptr, Y *tree = nullptr);
bool spoil(const SV *s, Val &v, Rng &r); // put something in that cannot be saved
string mutate_bytes(const string &doc, Rng &r, const SV *top);
ValOpts random_valopts(Rng &r, long *budget);
void note_outcome(cyaml_err_t e, const char *what);

typedef void (*mode_fn)(Rng &r);
struct Mode { const char *name; mode_fn fn; };
extern vector<Mode> &modes();
struct AddMode { AddMode(const char *n, mode_fn f) { modes().push_back({n, f}); } };
#define MODE(name) static void mode_##name(Rng &r); static AddMode add_##name(#name, mode_##name); static void mode_##name(Rng &r)
