// G11: reading can be followed and stopped at any point. A reader that watches changes nothing; one
// that stops leaves an object that is a consistent beginning, can be walked, released and read again.
#include "mvr_file.h"
#include "gdtf_file.h"
#include "walk_util.h"
using doc::E; using doc::str;
typedef gdtf::IGdtfFixturePtr Fix;
using namespace VectorworksMVR;

// ---------------------------------------------------------------- who watches the reading
struct Step { str name; size_t done, total; };
struct Watch {
	size_t polls = 0, yes = 0, first = SIZE_MAX, last = SIZE_MAX, atStep = SIZE_MAX, stepPolls = 0;   // polls [first, last] and all after step atStep say stop
	unsigned every = 0, salt = 0; bool now = false; std::vector<Step> steps;
	void poll(bool& abort)
	{
		size_t n = polls++; bool a = (n >= first && n <= last) || now || (every && (n * 2654435761u + salt) % 97 < every);
		if (a) { abort = true; yes++; }
	}
	size_t no() const { return polls - yes; }
};
static Watch* gW = nullptr;
static void watch(Watch* w, IGdtfFixture* f, IMediaRessourceVectorInterface* m = nullptr)
{
	gW = w;
	auto poll = [](bool& a) { if (gW) gW->poll(a); };
	if (f) {
		gdtf::must(f->SetAbortCallback(poll), "SetAbortCallback");
		int context = 0; gdtf::must(f->SetFeedbackCallback([](const FixtureFeedback& b) { if (!gW) return; gW->steps.push_back({str(b.fFileName), b.fTotalCompletedNodes, b.fTotalNumberOfNodes}); if (b.fTotalCompletedNodes >= gW->atStep) gW->now = true; }, &context), "SetFeedbackCallback");
	}
	if (m) gdtf::must(m->SetAbortCallback(poll), "SetAbortCallback of the MVR");
}
struct Off { ~Off() { gW = nullptr; } };

// ---------------------------------------------------------------- the lists of a fixture
typedef std::vector<std::pair<str, std::vector<str>>> Lists;
#define LIST(NAME, TYPE, NAMEOF) { size_t n = 0; std::vector<str> v; if (f->Get##NAME##Count(n) == 0) for (size_t i = 0; i < n; i++) { VCOMPtr<TYPE> o; gdtf::must(f->Get##NAME##At(i, &o), "Get" #NAME "At"); v.push_back(NAMEOF); } l.push_back({#NAME, v}); }
static Lists lists(IGdtfFixture* f)
{
	Lists l;
	LIST(ActivationGroup, IGdtfActivationGroup, str(o->GetName())) LIST(FeatureGroup, IGdtfFeatureGroup, str(o->GetName())) LIST(Attribute, IGdtfAttribute, str(o->GetName()))
	LIST(Wheel, IGdtfWheel, str(o->GetName())) LIST(Model, IGdtfModel, str(o->GetName())) LIST(Geometry, IGdtfGeometry, str(o->GetName())) LIST(DmxMode, IGdtfDmxMode, str(o->GetName()))
	LIST(Revision, IGdtfRevision, str(o->GetText())) LIST(Emitter, IGdtfPhysicalEmitter, str(o->GetName())) LIST(Filter, IGdtfFilter, str(o->GetName())) LIST(DMXProfile, IGdtfDMXProfile, str(o->GetName()))
	LIST(Connector, IGdtfConnector, str(o->GetName())) LIST(AdditionalColorSpace, IGdtfColorSpace, str(o->GetName())) LIST(Gamut, IGdtfGamut, str(o->GetName()))
	return l;
}
static size_t items(const Lists& l) { size_t n = 0; for (auto& x : l) n += x.second.size(); return n; }
static bool within(const std::vector<str>& part, const std::vector<str>& all) { size_t i = 0; for (auto& x : all) if (i < part.size() && part[i] == x) i++; return i == part.size(); }
static bool begins(const std::vector<str>& part, const std::vector<str>& all) { return part.size() <= all.size() && std::equal(part.begin(), part.end(), all.begin()); }
static str listText(const std::vector<str>& v) { str o; for (auto& x : v) o += (o.empty() ? "" : ", ") + vp::quote(x); return "(" + o + ")"; }

// how the reader stops
static str genStop(vp::Src& s, Watch& w, size_t polls)
{
	switch (s.draw(5)) {
		case 0: w.first = w.last = s.draw(polls); return vp::fmt("at question %zu of %zu only", w.first, polls);
		case 1: w.first = s.draw(polls); w.last = w.first + s.draw(8); return vp::fmt("at questions %zu to %zu of %zu", w.first, w.last, polls);
		case 2: w.every = 1 + (unsigned) s.draw(60); w.salt = (unsigned) s.draw(97); return vp::fmt("at %u of 97 questions", w.every);
		default: w.first = s.coin() ? s.draw(polls) : s.draw(std::min<size_t>(polls, 40)); return vp::fmt("from question %zu of %zu on", w.first, polls);
	}
}
static void stepsSound(vp::Ctx& c, const Watch& w, const str& name, bool complete, size_t sections)
{
	str n = name; for (auto& ch : n) if (ch == '/') ch = '_';
	size_t at = 0;
	for (auto& x : w.steps) {
		c.eq(x.name, n, "step-name", "name of the fixture whose reading is reported");
		c.eq(x.total, w.steps[0].total, "step-total", "announced number of steps");
		c.eq(x.done, at, "step-order", "steps completed"); at++;
		c.check(x.done <= x.total, "step-beyond", vp::fmt("%zu of %zu steps are completed", x.done, x.total));
	}
	if (complete) { c.check(!w.steps.empty(), "no-step", "no progress is reported"); c.eq(w.steps.back().done, w.steps.back().total, "step-end", "steps completed at the end, and announced"); }
}

// ---------------------------------------------------------------- fixtures
static void fixture(vp::Src& s, vp::Ctx& c)
{
	Off off; E t = gdtf::Gen(s, gdtf::genOpt(s)).run(); E want = gdtf::normalise(t, false); E root = gdtf::toFile(t, &s); str data = gdtf::container(root, s); bool asFile = s.coin();
	const str name = want.val("Name");
	Watch w0; Fix f0 = gdtf::newFixture(); watch(&w0, f0);
	gdtf::readFrom(f0, data, asFile, c, "a.gdtf"); gdtf::noErrors(f0); gW = nullptr;
	gdtf::same(gdtf::dump(f0), want, "watched"); stepsSound(c, w0, name, true, root.kids[0].kids.size());
	Lists all = lists(f0); size_t stops = 1 + s.draw(3), stopped = 0; Fix f;
	for (size_t i = 0; i < stops; i++) {
		Watch w; bool byStep = s.chance(20); str how;
		if (byStep) { w.atStep = s.draw(w0.steps.size()); how = vp::fmt("after step %zu", w.atStep); } else how = genStop(s, w, w0.polls);
		bool on = w.last == SIZE_MAX && w.first != SIZE_MAX;
		if (!f || s.coin()) f = gdtf::newFixture();
		c.sample += (i ? ", " : "") + how; watch(&w, f);
		try { gdtf::readFrom(f, data, asFile, c, "a.gdtf"); } catch (vp::Fail&) {}
		gW = nullptr; if (w.yes) stopped++;
		if (w.yes) stepsSound(c, w, name, false, 0); else gdtf::same(gdtf::dump(f), want, "never-stopped");
		Lists got = lists(f); bool prefix = on || byStep;
		for (size_t k = 0; k < got.size(); k++) c.check(prefix ? begins(got[k].second, all[k].second) : within(got[k].second, all[k].second), "stopped-" + all[k].first, "stopped " + how + " the list of " + all[k].first + " is " + listText(got[k].second) + ", not a part of " + listText(all[k].second));
		if (on) c.check(items(got) <= w.first, "goes-on", vp::fmt("stopped %s, %zu elements are read", how.c_str(), items(got)));
		// one more question answered with "go on" is at most one more element
		if (on && w.first + 1 < w0.polls && s.coin()) {
			Watch n; n.first = w.first + 1; Fix q = gdtf::newFixture(); watch(&n, q); try { gdtf::readFrom(q, data, asFile, c, "a.gdtf"); } catch (vp::Fail&) {} gW = nullptr; Lists more = lists(q);
			for (size_t k = 0; k < got.size(); k++) c.check(begins(got[k].second, more[k].second), "stopped-later", "stopped " + how + " the list of " + all[k].first + " is " + listText(got[k].second) + ", stopped one question later " + listText(more[k].second));
			c.check(items(more) <= items(got) + 1, "goes-on-later", vp::fmt("stopped %s %zu elements are read, stopped one question later %zu", how.c_str(), items(got), items(more)));
		}
		if (s.coin()) touch::all(f); else if (s.coin()) touch::all(f, true);
		if (s.coin()) { str e; for (auto& x : gdtf::errors(f)) e += x; }
		if (s.chance(30)) { f = gdtf::newFixture(); gdtf::readFrom(f, data, asFile, c, "a.gdtf"); gdtf::noErrors(f); gdtf::same(gdtf::dump(f), want, "next-object"); }
	}
	if (s.coin()) f0 = nullptr;
	Watch none; if (s.coin()) gW = &none;
	gdtf::readFrom(f, data, !asFile, c, "b.gdtf"); gdtf::noErrors(f); gdtf::same(gdtf::dump(f), want, "read-again");
	if (f0) gdtf::same(gdtf::dump(f0), want, "bystander");
	c.nontrivial = stopped && items(all) >= 5;
}
// steps are reported for what the file has, whatever sections it has
static void sections(vp::Src& s, vp::Ctx& c)
{
	Off off; E t = gdtf::Gen(s, gdtf::genOpt(s)).run(); E root = gdtf::toFile(t, &s); E& ft = root.kids[0];
	size_t drop = s.draw(ft.kids.size() + 1); for (size_t i = 0; i < drop; i++) ft.kids.erase(ft.kids.begin() + s.draw(ft.kids.size()));
	c.sample = "sections:"; for (auto& k : ft.kids) c.sample += " " + k.name; c.nontrivial = drop > 0;
	Watch w; Fix f = gdtf::newFixture(); watch(&w, f); gdtf::readFrom(f, gdtf::container(root, s), s.coin(), c, "a.gdtf"); gW = nullptr;
	stepsSound(c, w, t.val("Name"), true, ft.kids.size());
}
// ---------------------------------------------------------------- scenes
static void uuids(IMediaRessourceVectorInterface* m, VCOMPtr<ISceneObj> o, std::vector<str>& out, int depth)
{
	while (o && out.size() < 5000) {
		STransformMatrix x; memset(&x, 0x7f, sizeof x); o->GetTransfromMatrix(x); ESceneObjType t = (ESceneObjType) 99; o->GetType(t); const char* name = o->GetName();
		out.push_back(mvr::guidOf(o, "walk") + vp::fmt(" type %d ", (int) t) + vp::quote(name ? name : "(none)") + " at " + gdtf::matText(x));
		VCOMPtr<ISceneObj> k; if (m->GetFirstChild(o, &k) == 0 && k) uuids(m, k, out, depth + 1);
		VCOMPtr<ISceneObj> n; if (m->GetNextObject(o, &n) != 0) break; o = n;
	}
}
static std::vector<str> objects(IMediaRessourceVectorInterface* m) { std::vector<str> v; VCOMPtr<ISceneObj> l; if (m->GetFirstLayer(&l) == 0 && l) uuids(m, l, v, 0); return v; }
static void scene(vp::Src& s, vp::Ctx& c)
{
	Off off; mvr::Gen g(s, (int) s.draw(4)); g.files = true; E t = g.run(); doc::Entries more; E lamp; size_t lit = 0;
	if (s.chance(60)) {
		lamp = gdtf::Gen(s, gdtf::genOpt(s)).run(); more.push_back({"lamp.gdtf", gdtf::container(gdtf::toFile(lamp, &s), s)});
		mvr::each(t, [&](E& e) { if (e.get("GDTFSpec") && s.chance(50)) { e.set("GDTFSpec", "lamp.gdtf"); lit++; } });
	}
	E want = mvr::read(t); E root = mvr::toFile(t, s); str data = mvr::container(root, s, more);
	Watch w0; mvr::Mvr m0 = mvr::newMvr(); watch(&w0, nullptr, m0); vp::writeFile(c.scratch + "/a.mvr", data);
	gdtf::must(m0->OpenForRead((c.scratch + "/a.mvr").c_str()), "OpenForRead"); size_t polls = w0.polls;
	mvr::same(mvr::dump(m0), want, "watched"); touch::all(m0); gW = nullptr;
	std::vector<str> all = objects(m0); c.nontrivial = all.size() >= 3 && polls > 5;
	size_t stops = 1 + s.draw(3); mvr::Mvr m;
	for (size_t i = 0; i < stops; i++) {
		Watch w; str how = genStop(s, w, s.coin() ? polls : w0.polls); bool on = w.last == SIZE_MAX && w.first != SIZE_MAX; c.sample += (i ? ", " : "") + how;
		m = mvr::newMvr(); watch(&w, nullptr, m); m->OpenForRead((c.scratch + "/a.mvr").c_str());
		if (s.coin()) gW = nullptr; else if (gW) c.label("fixtures read while stopped");
		std::vector<str> got = objects(m);
		if (w.yes || gW) c.check(on ? begins(got, all) : true, "stopped-objects", "stopped " + how + " the objects are " + listText(got) + ", not the first of " + listText(all));
		if (on && w.first + 1 < polls && !gW && s.coin()) {
			Watch n; n.first = w.first + 1; mvr::Mvr q = mvr::newMvr(); watch(&n, nullptr, q); q->OpenForRead((c.scratch + "/a.mvr").c_str()); gW = nullptr; std::vector<str> more = objects(q);
			c.check(begins(got, more) && more.size() <= got.size() + 1, "goes-on-later", vp::fmt("stopped %s %zu objects are read, stopped one question later %zu", how.c_str(), got.size(), more.size()));
		}
		if (on && w.first < polls) c.check(got.size() <= w.first, "goes-on", vp::fmt("stopped %s, %zu objects are read", how.c_str(), got.size()));
		if (!w.yes && !gW) mvr::same(mvr::dump(m), want, "never-stopped");
		touch::all(m); gW = nullptr;
	}
	mvr::Mvr n = mvr::open(data, c, "b.mvr"); mvr::same(mvr::dump(n), want, "next-scene"); touch::all(n);
	mvr::same(mvr::dump(m0), want, "bystander");
}
VP_SUITE
{
	s.property = "G11"; s.rule = "reading was stopped and the file has at least five elements (scene: three objects), or a section is missing"; s.quickCases = 5000; s.thoroughCases = 200000;
	s.props = {{"fixture-stopped", 6, fixture}, {"sections", 1, sections}, {"scene-stopped", 3, scene}};
}
