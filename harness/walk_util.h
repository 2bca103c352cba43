// Walks over everything a fixture or a scene reports.
#pragma once
#include "touch.h"
namespace touch {
struct Seen { uint64_t digest = 0; size_t objects = 0, calls = 0, ok = 0, fixtures = 0; std::vector<str> problems; std::vector<std::pair<const char*, uint64_t>> trace; str text() const { return fmt("%zu objects, %zu calls, %zu succeed, digest %016llx", objects, calls, ok, (unsigned long long) digest); } };
inline Seen all(IGdtfFixture* f, bool wide = false)
{
	Walk w; w.wide = wide; size_t n = 0; std::vector<VCOMPtr<IGdtfDmxMode>> keep;
	if (f->GetDmxModeCount(n) == 0) for (size_t i = 0; i < n && i < 4; i++) { VCOMPtr<IGdtfDmxMode> d; if (f->GetDmxModeAt(i, &d) == 0 && d) keep.push_back(d); }
	for (auto& d : keep) w.modes.push_back(d);
	w.walk(f); Seen r; r.digest = w.digest; r.objects = w.objects; r.calls = w.calls; r.ok = w.okCalls; r.problems = w.problems; r.trace = std::move(w.trace); return r;
}
inline Seen all(IMediaRessourceVectorInterface* m, bool wide = false, size_t maxFixtures = 2)
{
	Walk w; w.wide = wide; w.walk(m); size_t objs = 0; Seen r; size_t count = 0; m->GetSceneObjectCount(count);
	std::function<void(VCOMPtr<ISceneObj>, int)> chain = [&](VCOMPtr<ISceneObj> o, int depth) {
		while (o && objs < 400) {
			objs++; w.walk((ISceneObj*) o);
			if (r.fixtures < maxFixtures) { VCOMPtr<IGdtfFixture> f; if (o->GetGdtfFixture(&f) == 0 && f) { r.fixtures++; Seen g = all((IGdtfFixture*) f, wide); w.v(g.digest); w.calls += g.calls; w.okCalls += g.ok; w.objects += g.objects; w.trace.insert(w.trace.end(), g.trace.begin(), g.trace.end()); for (auto& p : g.problems) w.problems.push_back("fixture: " + p); } }
			w.mix(")", 1); VCOMPtr<ISceneObj> k; if (m->GetFirstChild(o, &k) == 0 && k && depth < 600) { w.mix("(", 1); chain(k, depth + 1); }
			VCOMPtr<ISceneObj> nx; if (m->GetNextObject(o, &nx) != 0) break; o = nx;
		}
	};
	VCOMPtr<ISceneObj> l; if (m->GetFirstLayer(&l) == 0 && l) chain(l, 0);
	r.digest = w.digest; r.objects = objs + w.objects; r.calls = w.calls; r.ok = w.okCalls; r.problems = w.problems; r.trace = std::move(w.trace); return r;
}
// hangs a mark on every object of a fixture and looks for them twice, the second time after other marks were hung; gives how many there are
inline size_t marks(IGdtfFixture* f, std::vector<str>& problems)
{
	std::map<size_t, str> owner; std::vector<size_t> seq;
	for (int k : {1, 3, 2, 3}) {
		Walk w; w.hang = k; w.owner = owner; w.walk(f); owner = w.owner; for (auto& p : w.problems) if (p.find(" mark") != str::npos) problems.push_back(p);
		if (k != 1 && w.marks != seq) problems.push_back(fmt("the marks seen on the objects differ in pass %d: %zu, %zu before", k, w.marks.size(), seq.size())); seq = w.marks;
	}
	return owner.size();
}
// both walks saw the same; the message names the first getter after which they differ
inline void equal(vp::Ctx& c, const Seen& got, const Seen& want, const char* key, const str& what)
{
	if (got.text() == want.text()) return;
	str at = "the walk itself"; for (size_t i = 0; i < got.trace.size() && i < want.trace.size(); i++) { if (got.trace[i].second != want.trace[i].second) { at = i ? got.trace[i - 1].first : "the start"; break; } if (str(got.trace[i].first) != want.trace[i].first) { at = got.trace[i].first; break; } }
	c.eq(got.text(), want.text(), key, what + ": first difference at " + at);
}
} // namespace touch
