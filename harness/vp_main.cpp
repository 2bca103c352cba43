#include "vp.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <iterator>
#include <pwd.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// further options of a harness
extern "C" const char* vp_asan_more() __attribute__((weak));
extern "C" __attribute__((no_sanitize("address", "undefined"))) const char* __asan_default_options()
{
	static const char base[] = "detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=0:"
	       "max_allocation_size_mb=3000:symbolize=0:print_legend=0:print_full_thread_history=0:"
	       "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:malloc_context_size=8";
	if (!vp_asan_more) return base;
	static char all[1024]; size_t n = 0; for (const char* p = base; *p && n < 900; p++) all[n++] = *p; all[n++] = ':'; for (const char* p = vp_asan_more(); *p && n < 1023; p++) all[n++] = *p; return all;
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:symbolize=0"; }

static std::string gHome = "/nonexistent";
extern "C" struct passwd* __real_getpwuid(uid_t);
extern "C" int __wrap_fsync(int) { return 0; }   // scratch files need no durability
extern "C" struct passwd* __wrap_getpwuid(uid_t)
{
	static struct passwd p; static char name[] = "vp"; static char empty[] = "";
	memset(&p, 0, sizeof p);
	p.pw_name = name; p.pw_passwd = empty; p.pw_gecos = empty; p.pw_shell = empty;
	p.pw_dir = (char*) gHome.c_str();
	p.pw_uid = getuid(); p.pw_gid = getgid();
	return &p;
}

namespace vp {

Suite& suite() { static Suite s; return s; }

str fmt(const char* f, ...)
{
	va_list a; va_start(a, f);
	char* p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
	str s(p, n > 0 ? n : 0); free(p); return s;
}
str quote(const str& s)
{
	str o;
	for (unsigned char c : s) {
		if (c == '\\') o += "\\\\";
		else if (c >= 32 && c < 127) o += (char) c;
		else o += fmt("\\x%02x", c);
	}
	return o;
}
str readFile(const str& path)
{
	std::ifstream f(path, std::ios::binary);
	if (!f) throw std::runtime_error("cannot read " + path);
	return str(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
bool fileExists(const str& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
void writeFile(const str& path, const str& data)
{
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(data.data(), data.size());
	if (!f) throw std::runtime_error("cannot write " + path);
}
static void listRec(const str& base, const str& rel, std::vector<str>& out)
{
	DIR* d = opendir((base + "/" + rel).c_str());
	if (!d) return;
	while (dirent* e = readdir(d)) {
		str n = e->d_name;
		if (n == "." || n == "..") continue;
		str r = rel.empty() ? n : rel + "/" + n;
		struct stat st;
		if (lstat((base + "/" + r).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) listRec(base, r, out);
		else out.push_back(r);
	}
	closedir(d);
}
std::vector<str> listTree(const str& dir)
{
	std::vector<str> v; listRec(dir, "", v); std::sort(v.begin(), v.end()); return v;
}
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
static void rmTree(const str& d)
{
	// only ever called on directories below the run's own mkdtemp root
	nftw(d.c_str(), rmOne, 32, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
}

static uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* b = (const unsigned char*) p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static str jesc(const str& s)
{
	str o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
		else o += (char) c;
	}
	return o + "\"";
}

// ---------------------------------------------------------------------------------------------
struct Options {
	uint64_t seed = 1; str tier = "quick"; uint64_t cases = 0; double budget = 0; int jobs = 8;
	str out, replay, replayDir = "."; str only; uint64_t caseIndex = ~0ull; bool verbose = false;
} opt;

static str gRoot; // mkdtemp root

struct Shared {                       // one per worker slot, shared memory
	volatile uint64_t current;        // case index being run
	volatile uint64_t done;           // cases completed
};
uint64_t* gTraceShm = nullptr;

static void onCpu(int) { static const char m[] = "VP-HANG: the case used up its CPU time limit\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }

static void enterChild(const str& dir, const str& errFile)
{
	signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL);
	int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	fd = open("/dev/null", O_RDONLY); if (fd >= 0) { dup2(fd, 0); close(fd); }
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
	signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
	signal(SIGPROF, onCpu); signal(SIGALRM, onCpu);
	if (geteuid() == 0) { // nothing the code under test does may reach system files
		if (setgid(65534) != 0 || setuid(65534) != 0) { /* the scratch layout still contains it */ }
	}
	(void) dir;
}
static void armCpu()
{
	itimerval t = {{0, 0}, {suite().cpuLimit, 0}}; setitimer(ITIMER_PROF, &t, nullptr);
	itimerval r = {{0, 0}, {suite().wallLimit, 0}}; setitimer(ITIMER_REAL, &r, nullptr);
}

static void prepDir(const str& d)
{
	rmTree(d);
	mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777);
	// deep enough that a few ".." stay inside the scratch directory
	str p = d;
	for (const char* c : {"s1", "s2", "s3", "s4", "s5", "home"}) { p += str("/") + c; mkdir(p.c_str(), 0777); chmod(p.c_str(), 0777); }
	gHome = p;
	str w = d + "/work"; mkdir(w.c_str(), 0777); chmod(w.c_str(), 0777);
}

static uint64_t caseSeed(uint64_t i) { uint64_t a[2] = {opt.seed, i}; return hash64(a, sizeof a) ^ (i * 0x9e3779b97f4a7c15ull); }

static const Prop& propOf(uint64_t i)
{
	Suite& s = suite(); int total = 0;
	for (auto& p : s.props) total += p.weight;
	int k = (int)(i % total);
	for (auto& p : s.props) { if (k < p.weight) return p; k -= p.weight; }
	return s.props[0];
}
static const Prop* propByName(const str& n) { for (auto& p : suite().props) if (p.name == n) return &p; return nullptr; }

struct Outcome { bool failed = false; str key, msg; };

static Outcome runCase(const Prop& p, Src& src, Ctx& ctx)
{
	Outcome o;
	try { p.run(src, ctx); }
	catch (Discard&) { ctx.label("discarded"); ctx.nontrivial = false; }
	catch (Fail& f) { o.failed = true; o.key = f.key; o.msg = f.msg; }
	catch (std::exception& e) { o.failed = true; o.key = "exception"; o.msg = str("exception escaped: ") + e.what(); }
	catch (...) { o.failed = true; o.key = "exception"; o.msg = "unknown exception escaped"; }
	return o;
}

static str crashKey(int status, const str& err, str& msg)
{
	str key;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77) key = "hang";
	else {
		key = "crash";
		size_t p = err.find("AddressSanitizer: ");
		if (p != str::npos) { size_t e = err.find_first_of(" \n:", p + 18); key = "crash:" + err.substr(p + 18, e - p - 18); }
		else if (err.find("runtime error:") != str::npos) key = "crash:ub";
		else if (err.find("terminate called") != str::npos) key = "crash:terminate";
	}
	msg = fmt("child ended with status 0x%x\n", status) + err.substr(0, 3000);
	// while developing: tell crashes at different places apart
	if (getenv("VP_TRIAGE")) { size_t at = 0; for (int k = 0; k < 3; k++) { size_t p = err.find("+0x", at); if (p == str::npos) break; size_t e = err.find(')', p); key += err.substr(p, e - p); at = e; } }
	return key;
}

// Runs one trace (or history of traces) in a forked child.
struct Job { str prop; std::vector<uint64_t> trace; };
static Outcome runForked(const std::vector<Job>& jobs, std::vector<uint64_t>* outTrace = nullptr, str* sample = nullptr)
{
	str d = gRoot + "/one"; prepDir(d);
	str err = gRoot + "/one.err";
	static uint64_t* shm = (uint64_t*) mmap(nullptr, kMaxTrace * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shm[0] = 0;
	int fds[2]; if (pipe(fds)) abort();
	pid_t pid = fork();
	if (pid == 0) {
		close(fds[0]);
		enterChild(d, err);
		gTraceShm = shm;
		Outcome o; str smp; std::vector<uint64_t> tr;
		for (size_t i = 0; i < jobs.size(); i++) {
			const Prop* p = propByName(jobs[i].prop);
			if (!p) _exit(3);
			if (i) prepDir(d);
			Src src(jobs[i].trace); Ctx ctx; ctx.scratch = d + "/work"; ctx.thorough = opt.tier == "thorough";
			armCpu();
			o = runCase(*p, src, ctx);
			tr = src.trace(); smp = ctx.sample;
			if (i + 1 < jobs.size()) o = Outcome();
		}
		FILE* f = fdopen(fds[1], "wb");
		auto ws = [&](const str& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); };
		uint64_t fl = o.failed; fwrite(&fl, 8, 1, f);
		ws(o.key); ws(o.msg); ws(smp);
		uint64_t n = tr.size(); fwrite(&n, 8, 1, f); fwrite(tr.data(), 8, n, f);
		fclose(f);
		_exit(0);
	}
	close(fds[1]);
	FILE* f = fdopen(fds[0], "rb");
	Outcome o; uint64_t fl = 0; bool complete = false;
	auto rs = [&](str& s) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return false; s.resize(n); return fread(&s[0], 1, n, f) == n; };
	if (fread(&fl, 8, 1, f) == 1) {
		str smp; uint64_t n = 0;
		if (rs(o.key) && rs(o.msg) && rs(smp) && fread(&n, 8, 1, f) == 1) {
			std::vector<uint64_t> tr(n);
			if (fread(tr.data(), 8, n, f) == n) { complete = true; if (outTrace) *outTrace = tr; if (sample) *sample = smp; }
		}
	}
	fclose(f);
	int status = 0; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	if (complete && WIFEXITED(status) && WEXITSTATUS(status) == 0) { o.failed = fl != 0; return o; }
	o.failed = true;
	str e; try { e = readFile(err); } catch (...) {}
	o.key = crashKey(status, e, o.msg);
	if (outTrace) outTrace->assign(shm + 1, shm + 1 + shm[0]);
	return o;
}

static std::vector<uint64_t> shrink(const str& prop, std::vector<uint64_t> best, const str& key, double deadline)
{
	int tries = 0;
	auto fails = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& actual) {
		if (now() > deadline || tries > 6000) return false;
		tries++;
		actual.clear();
		Outcome o = runForked({{prop, c}}, &actual);
		if (actual.size() > c.size()) actual = c;
		return o.failed && o.key == key;
	};
	bool progress = true;
	std::vector<uint64_t> act;
	while (progress && now() < deadline) {
		progress = false;
		for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
			for (size_t i = 0; i + blk <= best.size() && now() < deadline;) {
				std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + blk);
				if (fails(c, act)) { best = act; progress = true; } else i += std::max<size_t>(1, blk / 2);
			}
			for (size_t i = 0; i + blk <= best.size() && now() < deadline; i += blk) {
				bool z = true; for (size_t k = i; k < i + blk; k++) z &= best[k] == 0;
				if (z) continue;
				std::vector<uint64_t> c(best); std::fill(c.begin() + i, c.begin() + i + blk, 0);
				if (fails(c, act)) { best = c; progress = true; }
			}
			if (blk == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() < deadline; i++) {
			uint64_t lo = 0, hi = best[i];
			while (lo < hi && now() < deadline) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> c(best); c[i] = mid;
				if (fails(c, act)) { best = c; hi = mid; progress = true; } else lo = mid + 1;
			}
		}
	}
	while (!best.empty() && best.back() == 0) best.pop_back();
	return best;
}

static str dumpReplay(const std::vector<Job>& jobs, const Outcome& o, const str& sample)
{
	str s = "{\n \"property\": " + jesc(suite().property) + ",\n \"key\": " + jesc(o.key) + ",\n \"message\": " + jesc(o.msg) +
	        ",\n \"sample\": " + jesc(sample.substr(0, 20000)) + ",\n \"jobs\": [\n";
	for (size_t i = 0; i < jobs.size(); i++) {
		s += "  {\"prop\": " + jesc(jobs[i].prop) + ", \"trace\": [";
		for (size_t k = 0; k < jobs[i].trace.size(); k++) s += (k ? "," : "") + std::to_string(jobs[i].trace[k]);
		s += str("]}") + (i + 1 < jobs.size() ? "," : "") + "\n";
	}
	return s + " ]\n}\n";
}
static std::vector<Job> loadReplay(const str& file)
{
	str t = readFile(file); std::vector<Job> jobs; size_t p = t.find("\"jobs\"");
	while (p != str::npos && (p = t.find("{\"prop\": \"", p)) != str::npos) {
		p += 10; size_t e = t.find('"', p); Job j; j.prop = t.substr(p, e - p);
		p = t.find('[', e); size_t q = t.find(']', p);
		const char* c = t.c_str() + p + 1;
		while (c < t.c_str() + q) { char* end; j.trace.push_back(strtoull(c, &end, 10)); if (end == c) { j.trace.pop_back(); break; } c = end + 1; }
		jobs.push_back(j); p = q;
	}
	return jobs;
}

struct Rec { uint64_t idx; uint64_t hash; uint8_t nontrivial; };

static int realMain()
{
	Suite& S = suite();
	double t0 = now();
	char tmpl1[] = "/dev/shm/vpXXXXXX", tmpl2[] = "/tmp/vpXXXXXX";
	char* r = mkdtemp(tmpl1); if (!r) r = mkdtemp(tmpl2);
	if (!r) { perror("mkdtemp"); return 2; }
	gRoot = r; chmod(r, 0777);

	if (!opt.replay.empty()) {
		auto jobs = loadReplay(opt.replay); str sample;
		Outcome o = runForked(jobs, nullptr, &sample);
		printf("%s\nsample: %s\n", o.failed ? ("FAIL [" + o.key + "] " + o.msg).c_str() : "PASS", quote(sample).c_str());
		rmTree(gRoot); return o.failed ? 1 : 0;
	}

	uint64_t total = opt.cases ? opt.cases : (opt.tier == "thorough" ? S.thoroughCases : S.quickCases);
	if (opt.budget <= 0) opt.budget = opt.tier == "thorough" ? 3000 : 240;
	// one shared counter hands out batches of cases
	struct Glob { volatile uint64_t next; volatile int stop; };
	Glob* G = (Glob*) mmap(nullptr, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Shared* SH = (Shared*) mmap(nullptr, sizeof(Shared) * opt.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	struct Slot { pid_t pid = 0; uint64_t lo = 0, hi = 0; };
	std::vector<Slot> slots(opt.jobs);
	uint64_t next = 0, evaluations = 0;
	std::vector<std::pair<uint64_t, int>> crashed; // case, slot
	struct Failure { uint64_t idx; uint64_t batchLo; Outcome o; };
	std::vector<Failure> failures;
	std::map<str, uint64_t> labels; std::set<uint64_t> distinct; std::vector<str> samples; uint64_t trivial = 0;
	auto launch = [&](int k) {
		Slot& sl = slots[k];
		SH[k].current = sl.lo; SH[k].done = 0;
		str d = fmt("%s/w%d", gRoot.c_str(), k), err = d + ".err", res = d + ".res";
		unlink(res.c_str());
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			int rf = open(res.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			enterChild(d, err);
			for (uint64_t i = sl.lo; i < sl.hi; i++) {
				SH[k].current = i;
				prepDir(d);
				const Prop& p = opt.only.empty() ? propOf(i) : *propByName(opt.only);
				Src src(caseSeed(i)); Ctx ctx; ctx.scratch = d + "/work"; ctx.thorough = opt.tier == "thorough";
				armCpu();
				Outcome o = runCase(p, src, ctx);
				uint64_t h = hash64(src.trace().data(), src.trace().size() * 8, hash64(p.name.data(), p.name.size()));
				str line = fmt("C %llu %llx %d\n", (unsigned long long) i, (unsigned long long) h, ctx.nontrivial ? 1 : 0);
				line += "L " + p.name + "\n";
				for (auto& l : ctx.labels) line += "L " + p.name + ": " + l + "\n";
				if (ctx.nontrivial && !ctx.sample.empty() && (i < 4 || i % 997 == 1)) line += "S " + quote(p.name + ": " + ctx.sample.substr(0, 1500)) + "\n";
				if (o.failed) line += fmt("F %llu ", (unsigned long long) i) + quote(o.key) + "\t" + quote(o.msg.substr(0, 4000)) + "\n";
				(void)!write(rf, line.data(), line.size());
				SH[k].done = SH[k].done + 1;
			}
			_exit(0);
		}
		sl.pid = pid;
	};
	auto harvest = [&](int k) {
		str t; try { t = readFile(fmt("%s/w%d.res", gRoot.c_str(), k)); } catch (...) { return; }
		std::istringstream in(t); str line;
		while (std::getline(in, line)) {
			if (line[0] == 'C') {
				unsigned long long i, h; int nt; sscanf(line.c_str(), "C %llu %llx %d", &i, &h, &nt);
				evaluations++; if (nt) distinct.insert(h); else trivial++;
			}
			else if (line[0] == 'L') labels[line.substr(2)]++;
			else if (line[0] == 'S') { if (samples.size() < 12) samples.push_back(line.substr(2)); }
			else if (line[0] == 'F') {
				size_t sp = line.find(' ', 2), tab = line.find('\t');
				Failure f; f.idx = strtoull(line.c_str() + 2, nullptr, 10); f.batchLo = slots[k].lo; f.o.failed = true;
				f.o.key = line.substr(sp + 1, tab - sp - 1); f.o.msg = line.substr(tab + 1);
				failures.push_back(f);
			}
		}
	};
	int running = 0; bool capped = false;
	while (true) {
		for (int k = 0; k < opt.jobs; k++) {
			if (slots[k].pid || next >= total || failures.size() > 0) continue;
			if (now() - t0 > opt.budget) { capped = true; continue; }
			slots[k].lo = next; slots[k].hi = std::min<uint64_t>(total, next + S.batch); next = slots[k].hi;
			launch(k); running++;
		}
		if (!running) break;
		int status; pid_t pid = waitpid(-1, &status, 0);
		if (pid < 0) { if (errno == EINTR) continue; break; }
		for (int k = 0; k < opt.jobs; k++) if (slots[k].pid == pid) {
			slots[k].pid = 0; running--;
			harvest(k);
			if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
				str e; try { e = readFile(fmt("%s/w%d.err", gRoot.c_str(), k)); } catch (...) {}
				Failure f; f.idx = SH[k].current; f.batchLo = slots[k].lo; f.o.failed = true; f.o.key = crashKey(status, e, f.o.msg);
				evaluations++;
				failures.push_back(f);
			}
		}
	}
	double tSearch = now() - t0;

	// probes of recorded findings
	str probeJson;
	for (auto& p : S.probes) {
		str d = gRoot + "/one"; prepDir(d); str err = gRoot + "/one.err";
		fflush(nullptr);
		int fds[2]; if (pipe(fds)) abort();
		pid_t pid = fork();
		if (pid == 0) {
			close(fds[0]); enterChild(d, err); armCpu();
			Ctx ctx; ctx.scratch = d + "/work"; str m; int rc = 0;
			try { p.run(ctx); } catch (Fail& f) { m = f.key + ": " + f.msg; rc = 1; } catch (std::exception& e) { m = e.what(); rc = 1; } catch (...) { m = "exception"; rc = 1; }
			(void)!write(fds[1], m.data(), std::min<size_t>(m.size(), 4000)); _exit(rc ? 10 : 0);
		}
		close(fds[1]); str m; char buf[4096]; ssize_t n; while ((n = read(fds[0], buf, sizeof buf)) > 0) m.append(buf, n); close(fds[0]);
		int status = 0; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		bool failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
		if (failed && !(WIFEXITED(status) && WEXITSTATUS(status) == 10)) { str e; try { e = readFile(err); } catch (...) {} m = crashKey(status, e, m) + " " + m; }
		probeJson += (probeJson.empty() ? "" : ",") + str("{\"id\":") + jesc(p.id) + ",\"failed\":" + (failed ? "true" : "false") + ",\"msg\":" + jesc(m.substr(0, 1500)) + "}";
	}

	// confirm + shrink
	std::sort(failures.begin(), failures.end(), [](const Failure& a, const Failure& b) { return a.idx < b.idx; });
	str violations; int nviol = 0, unrepro = 0; std::set<str> seen; str unreproMsg;
	for (auto& f : failures) {
		const Prop& p = opt.only.empty() ? propOf(f.idx) : *propByName(opt.only);
		if (seen.count(p.name + f.o.key)) continue;
		if (nviol >= (getenv("VP_TRIAGE") ? 30 : 3)) break;
		// A trace for a seed is obtained by replaying the generator with the seed's own stream:
		// draws are values modulo their bound, so the raw stream itself is a valid trace.
		auto rawTrace = [&](uint64_t i, size_t n) { Src s(caseSeed(i)); std::vector<uint64_t> v; for (size_t k = 0; k < n; k++) v.push_back(s.draw(0)); return v; };
		std::vector<Job> jobs{{p.name, rawTrace(f.idx, 60000)}};
		std::vector<uint64_t> act; str sample;
		Outcome o = runForked(jobs, &act, &sample);
		bool single = o.failed;
		if (!single) { // state left by earlier cases of the batch
			jobs.clear();
			for (uint64_t i = f.batchLo; i <= f.idx; i++) jobs.push_back({(opt.only.empty() ? propOf(i) : *propByName(opt.only)).name, rawTrace(i, 60000)});
			o = runForked(jobs, &act, &sample);
		}
		int again = 0; for (int k = 0; k < 3 && o.failed; k++) again += runForked(jobs).failed;
		if (!o.failed || again < 2) { unrepro++; unreproMsg = f.o.key + " " + f.o.msg; continue; }
		seen.insert(p.name + f.o.key); seen.insert(p.name + o.key);
		if (single) {
			std::vector<uint64_t> tr = act.empty() ? jobs[0].trace : act;
			if (!runForked({{p.name, tr}}).failed) tr = jobs[0].trace;
			tr = shrink(p.name, tr, o.key, now() + ((getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : opt.tier == "thorough" ? 120 : 60)));
			jobs = {{p.name, tr}};
			Outcome o2 = runForked(jobs, nullptr, &sample);
			if (o2.failed) o = o2;
		}
		str path = fmt("%s/%s-%016llx.json", opt.replayDir.c_str(), S.property.c_str(), (unsigned long long) hash64(jobs.back().trace.data(), jobs.back().trace.size() * 8, hash64(p.name.data(), p.name.size())));
		writeFile(path, dumpReplay(jobs, o, sample));
		violations += (nviol ? "," : "") + str("{\"replay\":") + jesc(path) + ",\"prop\":" + jesc(p.name) + ",\"key\":" + jesc(o.key) + ",\"msg\":" + jesc(o.msg.substr(0, 3000)) + ",\"sample\":" + jesc(sample.substr(0, 6000)) + "}";
		nviol++;
	}

	str js = "{\"evaluations\":" + std::to_string(evaluations) + ",\"distinct_nontrivial\":" + std::to_string(distinct.size()) +
	         ",\"trivial\":" + std::to_string(trivial) + ",\"planned\":" + std::to_string(total) + ",\"capped\":" + (capped ? "true" : "false") +
	         ",\"rule\":" + jesc(S.rule) + ",\"search_s\":" + fmt("%.2f", tSearch) + ",\"unreproduced\":" + std::to_string(unrepro) + ",\"unreproduced_msg\":" + jesc(unreproMsg) + ",\"labels\":{";
	bool first = true; for (auto& l : labels) { js += (first ? "" : ",") + jesc(l.first) + ":" + std::to_string(l.second); first = false; }
	js += "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) js += (i ? "," : "") + jesc(samples[i]);
	js += "],\"probes\":[" + probeJson + "],\"violations\":[" + violations + "]}\n";
	if (!opt.out.empty()) writeFile(opt.out, js); else fputs(js.c_str(), stdout);
	rmTree(gRoot);
	return nviol ? 1 : 0;
}

} // namespace vp

int main(int argc, char** argv)
{
	using namespace vp;
	for (int i = 1; i < argc; i++) {
		str a = argv[i]; auto val = [&]() { return str(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--tier") opt.tier = val();
		else if (a == "--cases") opt.cases = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--budget") opt.budget = atof(val().c_str());
		else if (a == "--jobs") opt.jobs = atoi(val().c_str());
		else if (a == "--out") opt.out = val();
		else if (a == "--replay") opt.replay = val();
		else if (a == "--replay-dir") opt.replayDir = val();
		else if (a == "--only") opt.only = val();
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	return realMain();
}
