// M01: a scene built through the interface and saved is reported the same after opening it again.
#include "mvr_file.h"
using namespace mvr;

static void writeRead(vp::Src& s, vp::Ctx& c)
{
	Gen g(s, (int) s.draw(4)); E t = g.run(); c.sample = doc::render(t); E want = saved(t);
	size_t objs = count(want, [](E&) { return true; }); c.nontrivial = objs >= 5;
	str p = c.scratch + "/a.mvr"; bool look = s.chance(20), prov = false;
	{
		Mvr m = newMvr(); must(m->OpenForWrite(p.c_str()), "OpenForWrite"); prov = s.coin(); if (prov) must(m->AddProviderAndProviderVersion("prov", "1.0"), "AddProviderAndProviderVersion");
		Build b; b.m = m; b.s = &s; b.run(t);
		if (look) same(dump(m), asBuilt(t), "built");
		must(m->Close(), "Close");
	}
	// what was written is what the format asks for, read with readers of our own
	{
		auto es = doc::zipRead(vp::readFile(p)); const str* x = doc::find(es, "GeneralSceneDescription.xml"); c.check(x != nullptr, "no-description", "the file has no scene description");
		doc::XmlParser xp(*x); E got = xp.parse(), w = FileOut(nullptr, true).run(saved(t, true)); got.set("verMinor", w.val("verMinor")); if (!prov) { w.set("provider", ""); w.set("providerVersion", ""); if (!got.has("provider")) { w.del("provider"); w.del("providerVersion"); } }
		canon(got); canon(w); same(got, w, "document");
	}
	Mvr m = newMvr(); must(m->OpenForRead(p.c_str()), "OpenForRead"); same(dump(m), want, "read");
	size_t n = 99; must(m->GetSceneObjectCount(n), "GetSceneObjectCount"); c.eq(n, count(want, [](E& e) { return hasPatch(e.name); }), "object-count", "number of scene objects");
	bool dup = true; must(m->GetDuplicatedUuids(dup), "GetDuplicatedUuids"); c.check(!dup, "duplicates", "distinct identifiers are reported as duplicated");
	Sint32 a = -1, b = -1, x = -2, y = -2; must(m->GetMVRVersion(a, b), "GetMVRVersion"); must(m->GetLatestMVRSupoortedVersion(x, y), "GetLatestMVRSupoortedVersion"); c.eq(fmt("%d.%d", a, b), fmt("%d.%d", x, y), "version", "version of a written file");
}
VP_SUITE
{
	s.property = "M01"; s.rule = "the saved scene has at least 5 objects"; s.quickCases = 4000; s.thoroughCases = 100000;
	s.props.push_back({"write-read", 1, writeRead});
}
