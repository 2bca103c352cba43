// G09: every index below a count gives an object, every other one an error; objects report the same however often they are asked.
#include "mvr_file.h"
#include "gdtf_file.h"
#include "walk_util.h"
using vp::Src; using vp::Ctx; using vp::str; using vp::fmt; using doc::E;
using touch::Seen; using VectorworksMVR::IGdtfFixture; using VectorworksMVR::IMediaRessourceVectorInterface; using VectorworksMVR::IGdtfFixturePtr;

static const size_t kSome = 60;
template <class T> static Seen look(T* f, Src& s, Ctx& c, const char* when)
{
	Seen a = touch::all(f, true); for (auto& p : a.problems) c.fail("index", str(when) + ": " + p);
	if (s.chance(60)) touch::equal(c, touch::all(f, true), a, "unstable", str("asked twice ") + when);
	return a;
}
static void builtFixture(Src& s, Ctx& c)
{
	gdtf::Gen g(s, gdtf::genOpt(s)); E t = g.run(); c.sample = doc::render(t); str p = c.scratch + "/a.gdtf"; Seen first[2]; bool defaults = s.coin(), file = s.coin(); int rounds = s.chance(30) ? 2 : 1;
	for (int i = 0; i < rounds; i++) {
		IGdtfFixturePtr f = gdtf::newFixture(); gdtf::open(f, t, file ? p : ""); gdtf::Build b; b.f = f; b.defaults = defaults; b.run(t);
		Seen x = look((IGdtfFixture*) f, s, c, "before saving"); gdtf::must(f->Close(), "Close"); Seen y = look((IGdtfFixture*) f, s, c, "after saving");
		if (i) { touch::equal(c, x, first[0], "differs", "the same fixture built twice, before saving"); touch::equal(c, y, first[1], "differs", "the same fixture built twice, after saving"); } else { first[0] = x; first[1] = y; }
	}
	c.nontrivial = first[0].objects >= kSome;
}
static void readFixture(Src& s, Ctx& c)
{
	gdtf::Gen g(s, gdtf::genOpt(s)); E t = g.run(); E root = gdtf::toFile(t, &s); c.sample = doc::render(root); str z = gdtf::container(root, s); bool file = s.coin();
	IGdtfFixturePtr f = gdtf::newFixture(), k = gdtf::newFixture(); gdtf::readFrom(f, z, file, c); Seen a = look((IGdtfFixture*) f, s, c, "after reading");
	if (s.coin()) { gdtf::readFrom(k, z, file, c); touch::equal(c, look((IGdtfFixture*) k, s, c, "after reading"), a, "differs", "the same file read by two objects"); touch::equal(c, touch::all((IGdtfFixture*) f, true), a, "unstable", "asked again after another object read the same file"); }
	c.nontrivial = a.objects >= kSome;
}
static void builtScene(Src& s, Ctx& c)
{
	mvr::Gen g(s, 1 + (int) s.draw(4)); E t = g.run(); c.sample = doc::render(t); str p = c.scratch + "/a.mvr"; mvr::Mvr m = mvr::newMvr(); mvr::must(m->OpenForWrite(p.c_str()), "OpenForWrite"); mvr::Build b; b.m = m; b.s = &s; b.run(t);
	Seen a = look((IMediaRessourceVectorInterface*) m, s, c, "before saving"); mvr::must(m->Close(), "Close"); look((IMediaRessourceVectorInterface*) m, s, c, "after saving"); c.nontrivial = a.objects >= kSome / 2;
}
static void readScene(Src& s, Ctx& c)
{
	mvr::Gen g(s, 1 + (int) s.draw(4)); E t = g.run(); E root = mvr::toFile(t, s); doc::Entries more;
	if (s.chance(30)) { str n = "spec.gdtf"; mvr::each(root, [&](E& e) { if (e.name == "GDTFSpec" && s.coin()) { if (s.coin() && !e.text.empty()) n = e.text; else e.text = n; } }); gdtf::Gen gg(s, gdtf::genOpt(s)); E gt = gg.run(); more.push_back({n, gdtf::container(gdtf::toFile(gt, &s), s)}); }
	c.sample = doc::render(root); vp::writeFile(c.scratch + "/a.mvr", mvr::container(root, s, more)); Seen a;
	for (int i = 0, n = 1 + (int) s.draw(2); i < n; i++) {
		mvr::Mvr m = mvr::newMvr(); mvr::must(m->OpenForRead((c.scratch + "/a.mvr").c_str()), "OpenForRead"); Seen x = look((IMediaRessourceVectorInterface*) m, s, c, "after reading"); if (x.fixtures) c.label("fixture read");
		if (i) touch::equal(c, x, a, "differs", "the same file read by two objects, one after the other"); a = x;
	}
	c.nontrivial = a.objects >= kSome / 2;
}
// the document lacks what references name, and objects are bare
static void sparse(Src& s, Ctx& c)
{
	E root, t; bool scene = s.coin(); if (scene) { mvr::Gen g(s, 1 + (int) s.draw(3)); t = g.run(); root = mvr::toFile(t, s); } else { gdtf::Gen g(s, gdtf::genOpt(s)); t = g.run(); root = gdtf::toFile(t, &s); }
	size_t dropped = 0; int rate = s.oneof<int>({5, 20, 50});
	std::function<void(E&, int)> go = [&](E& e, int depth) {
		for (size_t i = 0; i < e.kids.size();) { if (depth >= 1 && s.chance(rate)) { dropped++; e.kids.erase(e.kids.begin() + i); } else go(e.kids[i++], depth + 1); }
		for (size_t i = 0; i < e.at.size();) { if (depth >= 2 && s.chance(rate)) { dropped++; e.at.erase(e.at.begin() + i); } else i++; }
	};
	go(root, 0); c.sample = doc::render(root); c.nontrivial = dropped >= 3; Seen a; str z = scene ? mvr::container(root, s) : gdtf::container(root, s);
	for (int i = 0; i < 2; i++) {
		Seen x;
		if (scene) { vp::writeFile(c.scratch + "/a.mvr", z); mvr::Mvr m = mvr::newMvr(); m->OpenForRead((c.scratch + "/a.mvr").c_str()); x = look((IMediaRessourceVectorInterface*) m, s, c, "after reading"); }
		else { IGdtfFixturePtr f = gdtf::newFixture(); f->FromBuffer(z.data(), z.size()); x = look((IGdtfFixture*) f, s, c, "after reading"); }
		if (i) touch::equal(c, x, a, "differs", "the same document read twice"); a = x;
	}
}
// what an application hangs on an object is found again on every way to it, and on no other object
static void marks(Src& s, Ctx& c)
{
	gdtf::Gen g(s, gdtf::genOpt(s)); E t = g.run(); c.sample = doc::render(t); IGdtfFixturePtr f = gdtf::newFixture(); std::vector<str> bad; gdtf::Build b;
	if (s.coin()) { E root = gdtf::toFile(t, &s); gdtf::readFrom(f, gdtf::container(root, s), s.coin(), c); } else { gdtf::open(f, t, ""); b.f = f; b.run(t); }
	size_t n = touch::marks((IGdtfFixture*) f, bad); for (auto& p : bad) c.fail("mark", p); c.nontrivial = n >= 30;
}
// objects that were never given anything
static void fresh(Src& s, Ctx& c)
{
	c.nontrivial = true; int k = (int) s.draw(6); c.sample = fmt("state %d", k);
	if (k < 3) { IGdtfFixturePtr f = gdtf::newFixture(); if (k == 1) { f->ReadFromFile("/nonexistent/x.gdtf"); } if (k == 2) f->FromBuffer("abc", 3); look((IGdtfFixture*) f, s, c, "of an empty fixture"); }
	else { mvr::Mvr m = mvr::newMvr(); if (k == 4) m->OpenForRead("/nonexistent/x.mvr"); if (k == 5) m->OpenForWrite((c.scratch + "/e.mvr").c_str()); look((IMediaRessourceVectorInterface*) m, s, c, "of an empty scene"); }
}
VP_SUITE
{
	s.property = "G09"; s.rule = "at least 60 objects of a fixture or 30 of a scene are reached, or 3 parts of the document were left out"; s.quickCases = 8000; s.thoroughCases = 200000;
	s.props.push_back({"built-fixture", 3, builtFixture});
	s.props.push_back({"read-fixture", 3, readFixture});
	s.props.push_back({"built-scene", 2, builtScene});
	s.props.push_back({"read-scene", 2, readScene});
	s.props.push_back({"sparse", 3, sparse});
	s.props.push_back({"marks", 2, marks});
	s.props.push_back({"fresh", 1, fresh});
}
