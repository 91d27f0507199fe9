// Modes about reading files: C23
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
const size_t edges[] = {1024, 4096, 8192, 16384, 24576, 32768, 65536, 131072};
// comments in front, so that what matters is anywhere in the file
string pad_to(const string &doc, size_t size, Rng &r) {
	if (doc.size() + 2 > size || doc.compare(0, 3, "\xef\xbb\xbf") == 0 || doc.find('\0') != string::npos || doc.compare(0, 2, "\xff\xfe") == 0 || doc.compare(0, 2, "\xfe\xff") == 0) return doc;
	size_t n = size - doc.size();
	size_t front = r.chance(.5) ? n : r.below(n + 1);
	auto comment = [&](size_t k) {
		string o;
		while (k > 0) {
			size_t len = std::min<size_t>(k, 2 + r.below(200));
			if (k - len == 1) len = k > 200 ? len - 1 : k;
			if (len < 2) len = k;
			if (len == 1) { o += "\n"; k--; continue; }
			o += "#";
			for (size_t i = 2; i < len; i++) o += r.chance(.02) && i + 2 < len ? (i++, "\xc3\xa9") : "x";
			o += "\n";
			k -= o.empty() ? 0 : len;
		}
		return o;
	};
	string head = comment(front);
	string tail = n > front ? comment(n - front) : "";
	if (!tail.empty() && (doc.empty() || doc.back() != '\n')) return head + doc; // the last line is not ended
	return head + doc + tail;
}
string outcome(World &w, const LoadRes &l) {
	string o = sfmt("%d", (int)l.err);
	if (l.err == CYAML_OK) {
		o += sfmt(" count %u ", l.count) + repr(extract_top(w.top(), l.data, l.count, &w.a));
		if (last_reached != w.a.live.size()) violation("a successful load leaves %zu blocks, of which the data make up %zu", w.a.live.size(), last_reached);
		w.release(l.data, l.count);
	} else w.check_failed(l, "load");
	if (l.mallocs) violation("load leaves %ld blocks of the process heap behind", l.mallocs);
	if (l.fd_after != l.fd_before) violation("load leaves a file open");
	check_alloc(w.a, "after the load");
	return o;
}
struct Pipe { // somebody who writes it in pieces
	string path, data;
	vector<size_t> cuts;
	volatile bool stop = false;
	size_t written = 0;
	pthread_t t;
	static void *run(void *p) {
		Pipe *s = (Pipe *)p;
		int fd;
		while ((fd = open(s->path.c_str(), O_WRONLY | O_NONBLOCK)) < 0) { if (s->stop) return nullptr; sched_yield(); }
		fcntl(fd, F_SETFL, 0);
		size_t at = 0;
		for (size_t c : s->cuts) {
			while (at < c) {
				ssize_t n = write(fd, s->data.data() + at, c - at);
				if (n <= 0) { close(fd); return nullptr; }
				at += (size_t)n;
				s->written = at;
			}
			if ((c & 7) == 0) usleep(50); else sched_yield();
		}
		close(fd);
		return nullptr;
	}
};
}

MODE(files) {
	Prof p = Prof::swarm(r);
	p.longs = r.chance(.3);
	World w(r, p, random_cfg_flags(r), CYAML_LOG_WARNING, r.chance(.2) ? .2 : 0);
	string doc = gen_valid_doc(w, r);
	if (r.chance(.35)) doc = mutate_bytes(doc, r, w.top());
	unsigned sizing = (unsigned)r.below(10);
	if (sizing < 5) doc = pad_to(doc, edges[r.below(sizeof edges / sizeof *edges)] + (size_t)r.range(-3, 3), r);
	else if (sizing == 5) doc = pad_to(doc, r.below(70000), r);
	else if (sizing == 6 && r.chance(.1)) doc = pad_to(doc, 1000000 + r.below(3000000), r);
	else if (sizing == 7 && r.chance(.3)) doc = "";
	else if (sizing == 8 && !doc.empty() && doc.back() == '\n') doc.pop_back();
	w.show(doc);
	Outcome m = model_load(parse_events(doc), w.top(), &w.cfg, nullptr);
	if (m.skip) { ST["skipped_exponential"]++; return; }
	LoadRes l = do_load(doc, &w.cfg, w.top());
	bool good = l.err == CYAML_OK;
	string base = outcome(w, l);
	ST[good ? "documents_accepted" : "documents_rejected"]++;
	ST["bytes"] += doc.size();
	if (doc.size() > ST["max_file_bytes"]) ST["max_file_bytes"] = doc.size();
	ST.seen(hash_str(doc, w.sum));
	string path = scratch_path("files.yaml");
	write_scratch(path, doc);
	// as it is
	string got = outcome(w, do_load_file(path, &w.cfg, w.top()));
	if (got != base) violation("loading the file gives another result than its bytes: %s", diff_at(got, base).c_str());
	ST["files_loaded"]++;
	// in pieces, of any sizes
	for (unsigned i = 0, n = 1 + (unsigned)r.below(3); i < n; i++) {
		IO = IoPlan();
		IO.armed = true;
		IO.content = doc;
		IO.short_io = r.chance(.8);
		IO.rng = Rng(r.next());
		IO.bufsize = r.pick(vector<int>{-1, 0, 1, 7, 512, 4096, 100000});
		if (doc.size() > 200000 && IO.bufsize >= 0 && IO.bufsize < 512) IO.bufsize = 4096;
		l = do_load_file(path, &w.cfg, w.top());
		IO.armed = false;
		got = outcome(w, l);
		if (IO.opens != IO.closes && IO.opens) violation("%u files opened, %u closed", IO.opens, IO.closes);
		if (got != base) violation("reading the file in %u pieces gives another result than its bytes: %s", IO.calls, diff_at(got, base).c_str());
		ST["split_reads"] += IO.calls;
		ST["split_loads"] += IO.opens != 0;
	}
	if (r.chance(.15)) { // from a pipe
		Pipe s;
		s.path = scratch_path("files.fifo");
		unlink(s.path.c_str());
		if (mkfifo(s.path.c_str(), 0600)) harness_error("mkfifo: %s", strerror(errno));
		s.data = doc;
		for (unsigned i = 0, n = (unsigned)r.below(12); i < n; i++) s.cuts.push_back(r.below(doc.size() + 1));
		s.cuts.push_back(doc.size());
		std::sort(s.cuts.begin(), s.cuts.end());
		if (pthread_create(&s.t, nullptr, Pipe::run, &s)) harness_error("no thread");
		void *data = nullptr; unsigned count = 0; // descriptors come and go with the other end
		in_lib = 1; lib_mallocs = lib_frees = 0;
		cyaml_err_t e = cyaml_load_file(s.path.c_str(), &w.cfg, w.top(), &data, w.top()->type == CYAML_SEQUENCE ? &count : nullptr);
		in_lib = 0;
		s.stop = true;
		pthread_join(s.t, nullptr);
		unlink(s.path.c_str());
		got = sfmt("%d", (int)e);
		if (e == CYAML_OK) {
			got += sfmt(" count %u ", count) + repr(extract_top(w.top(), data, count, &w.a));
			w.release(data, count);
		}
		check_alloc(w.a, "after reading a pipe");
		if (got != base) violation("reading a pipe written in %zu pieces gives another result: %s", s.cuts.size(), diff_at(got, base).c_str());
		ST["pipes"]++;
	}
	// reads that fail
	for (unsigned i = 0, n = 1 + (unsigned)r.below(5); i < n; i++) {
		IO = IoPlan();
		IO.armed = true;
		IO.content = doc;
		IO.short_io = r.chance(.4);
		IO.rng = Rng(r.next());
		IO.bufsize = r.pick(vector<int>{-1, 0, 16, 4096});
		if (doc.size() > 200000 && IO.bufsize >= 0) IO.bufsize = 4096;
		IO.fail_at = r.chance(.15) ? (int64_t)doc.size() : r.chance(.1) ? 0 : (int64_t)r.below(doc.size() + 1);
		IO.once = r.chance(.5);
		IO.err = r.pick(vector<int>{EIO, EINTR, EAGAIN, EISDIR, ENOMEM, EBADF, ESTALE, 0});
		l = do_load_file(path, &w.cfg, w.top());
		IO.armed = false;
		bool hit = IO.errors > 0;
		cyaml_err_t e = l.err;
		got = outcome(w, l);
		if (IO.opens != IO.closes && IO.opens) violation("%u files opened, %u closed", IO.opens, IO.closes);
		ST["faulty_loads"]++;
		if (!hit) { ST["faults_not_reached"]++; if (got != base) violation("result is another without a fault: %s", diff_at(got, base).c_str()); continue; }
		ST["read_errors"]++;
		if (e != CYAML_OK) { ST["read_errors_reported"]++; continue; }
		ST["read_errors_after_what_was_needed"]++;
		if (got != base) violation("a read failed at byte %lld of %zu, but the load succeeds with another result than the whole: %s", (long long)IO.fail_at, doc.size(), diff_at(got, base).c_str());
	}
	// no such thing
	if (r.chance(.3)) {
		string where;
		cyaml_err_t want = CYAML_ERR_FILE_OPEN;
		bool fault = false;
		switch (r.below(7)) {
		case 0: where = scratch_path("no/such/file"); break;
		case 1: where = scratch_path("nosuchfile"); break;
		case 2: where = path + "/x"; break;
		case 3: where = ""; break;
		case 4: where = RUN.scratch + "/" + string(5000, 'n'); break;
		case 5: where = RUN.scratch; want = CYAML_ERR__COUNT; break; // can be opened, not read
		default: fault = true; where = path;
		}
		IO = IoPlan();
		if (fault) { IO.armed = IO.fail_open = true; IO.err = r.pick(vector<int>{ENOENT, EACCES, EMFILE, ENFILE, ENOMEM, EINTR}); }
		l = do_load_file(where, &w.cfg, w.top());
		IO.armed = false;
		ST["unreadable_files"]++;
		if (fault && !IO.opens) ; // not opened by way of a stream
		else {
			if (l.err == CYAML_OK) violation("loading %s succeeds", esc(where, 100).c_str());
			if (want != CYAML_ERR__COUNT && l.err != want) violation("loading a file that cannot be opened gives %s", errname(l.err));
		}
		outcome(w, l);
	}
	if (r.chance(.003)) ST.sample(sfmt("%zu bytes: ", doc.size()) + esc(doc.substr(doc.size() > 100 ? doc.size() - 100 : 0), 120));
	w.finish();
}
