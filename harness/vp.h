// Property-based testing engine: choice-sequence generators (every random decision is one
// recorded number, so any failing case can be shrunk and replayed without per-type shrinkers),
// process isolation (each batch of cases runs in a forked child), shrinking, replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace vp {

typedef std::string str;

struct Fail { str key, msg; };
struct Discard {};

extern uint64_t* gTraceShm;            // survives a crash of the case: [0]=length, then the draws
static const size_t kMaxTrace = 1 << 20;

class Src {
public:
	explicit Src(uint64_t seed) : fState(seed), fReplay(false) { mix(); }
	explicit Src(std::vector<uint64_t> r) : fState(0), fReplay(true), fIn(std::move(r)) {}

	// uniform in [0,bound); bound 0 means the full 64 bit range. Shrinks to 0.
	uint64_t draw(uint64_t bound)
	{
		uint64_t v;
		if (fReplay) v = fPos < fIn.size() ? fIn[fPos] : 0;
		else v = next();
		fPos++;
		if (bound) v %= bound;
		fOut.push_back(v);
		if (gTraceShm && fOut.size() < kMaxTrace) { gTraceShm[fOut.size()] = v; gTraceShm[0] = fOut.size(); }
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t)(hi - lo) + 1); }
	bool coin() { return draw(2) != 0; }
	// true with probability pct percent; shrinks to false
	bool chance(int pct) { return (int) draw(100) >= 100 - pct; }
	// count biased to small numbers, shrinks to 0
	size_t count(size_t max)
	{
		switch (draw(4)) {
			case 0: return draw(std::min<size_t>(max, 2) + 1);
			case 1: return draw(std::min<size_t>(max, 4) + 1);
			case 2: return draw(std::min<size_t>(max, 8) + 1);
			default: return draw(max + 1);
		}
	}
	template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
	template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }

	const std::vector<uint64_t>& trace() const { return fOut; }
private:
	uint64_t fState;
	bool fReplay;
	std::vector<uint64_t> fIn, fOut;
	size_t fPos = 0;
	void mix() { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (fState += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
};

class Ctx {
public:
	str scratch;                       // private directory of this case (exists, empty)
	bool nontrivial = false;
	str sample;                        // human readable rendering of the case
	std::vector<str> labels;
	bool thorough = false;

	void label(const str& l) { labels.push_back(l); }
	[[noreturn]] void fail(const str& key, const str& msg) { throw Fail{key, msg}; }
	void check(bool ok, const str& key, const str& msg) { if (!ok) fail(key, msg); }
	template <class A, class B> void eq(const A& got, const B& want, const str& key, const str& what)
	{
		if (!(got == want)) {
			std::ostringstream o; o << what << ": got <" << got << "> expected <" << want << ">";
			fail(key, o.str());
		}
	}
};

struct Prop {
	str name;
	int weight;                        // share of the case budget
	std::function<void(Src&, Ctx&)> run;
};

// A deterministic input that shows one recorded genuine defect.
struct Probe {
	str id;                            // as in known_findings.jsonl
	std::function<void(Ctx&)> run;
};

struct Suite {
	str property;                      // property id
	str rule;                          // what makes a case non-trivial
	uint64_t quickCases = 2000, thoroughCases = 50000;
	int batch = 20;                    // cases per forked child
	int cpuLimit = 20;                 // CPU seconds per case; more counts as non-termination
	int wallLimit = 300;               // wall clock seconds per case (a blocked case)
	bool enumerated = false;
	std::vector<Prop> props;
	std::vector<Probe> probes;
};

Suite& suite();
struct Reg { Reg(std::function<void(Suite&)> f) { f(suite()); } };
#define VP_SUITE static void vpSuiteInit(vp::Suite& s); static vp::Reg vpReg(vpSuiteInit); static void vpSuiteInit(vp::Suite& s)

// helpers
str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
str quote(const str& s);              // printable rendering
str readFile(const str& path);        // throws on failure
bool fileExists(const str& path);
void writeFile(const str& path, const str& data);
std::vector<str> listTree(const str& dir); // relative paths of files, sorted

} // namespace vp
