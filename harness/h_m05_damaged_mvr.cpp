// M05: no MVR file makes the library crash, hang or touch memory out of bounds, and whatever was loaded is safe to read and to save.
#include "mvr_file.h"
#include "gdtf_file.h"
#include "mutate.h"
#include "walk_util.h"
using namespace mvr;
using vp::Src; using vp::Ctx;

// reads everything of the scene; returns a short description
static str touchAll(IMediaRessourceVectorInterface* m, Ctx& c)
{
	touch::Seen r = touch::all(m); for (auto& p : r.problems) c.fail("index", p); if (r.fixtures) c.label("fixture read"); return r.text();
}
static void exercise(Src& s, Ctx& c, const str& data, const E* valid)
{
	str path = c.scratch + "/d.mvr"; vp::writeFile(path, data); if (getenv("VP_DUMP")) vp::writeFile(getenv("VP_DUMP"), data);
	Mvr m = newMvr(); int rc = m->OpenForRead(path.c_str()); str got = touchAll(m, c); c.label(rc ? "refused" : "loaded");
	if (s.coin()) c.eq(touchAll(m, c), got, "unstable", "reading twice");
	if (!rc && s.coin()) { m->OpenForWrite((c.scratch + "/again.mvr").c_str()); m->Close(); c.label("saved"); if (s.coin()) { Mvr k = newMvr(); k->OpenForRead((c.scratch + "/again.mvr").c_str()); touchAll(k, c); } }
	// the same object still reads a sound file, and so does another one
	if (valid && s.chance(40)) { E root = toFile(*valid, s); str z = container(root, s); vp::writeFile(c.scratch + "/ok.mvr", z); Mvr k = s.coin() ? m : newMvr(); m = s.coin() ? m : Mvr(); int r2 = k->OpenForRead((c.scratch + "/ok.mvr").c_str()); c.check(r2 == 0, "poisoned", fmt("after a damaged file a sound one is refused with %d", r2)); same(dump(k), read(*valid), "poisoned"); }
}
static E scene(Src& s) { Gen g(s, 1 + (int) s.draw(4)); g.files = s.coin(); return g.run(); }
static str fixtureFile(Src& s, bool damaged, str& log)
{
	gdtf::Gen g(s, gdtf::genOpt(s)); E t = g.run(); E root = gdtf::toFile(t, &s); if (damaged) { log += "[gdtf: "; mut::damageTree(root, s, log); log += "] "; } return gdtf::container(root, s);
}
// the description is a well-formed document with wrong content
static void document(Src& s, Ctx& c)
{
	E t = scene(s); E root = toFile(t, s); E before = root; str log; mut::damageTree(root, s, log); doc::Entries more;
	if (s.chance(25)) { str n = "spec.gdtf"; each(root, [&](E& e) { if (e.name == "GDTFSpec" && s.coin()) { if (s.coin()) n = e.text; else e.text = n; } }); if (!n.empty()) more.push_back({n, fixtureFile(s, s.chance(70), log)}); }
	c.sample = log + "\n" + doc::render(root); c.nontrivial = doc::render(before) != doc::render(root) && mut::sizeOf(root) >= 15; exercise(s, c, container(root, s, more), &t);
}
// damaged bytes of the description in a sound container
static void textDamage(Src& s, Ctx& c)
{
	static const std::vector<str> words = {"<", ">", "/>", "</", "\"", "'", "&", "&amp;", "&#0;", "&#x110000;", "&#xD800;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml?>", "<?", "?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", str("\0", 1), "\xff\xfe", "\xef\xbb\xbf", "<Layers>", "</Layers>", "<ChildList>", "<Fixture>", "<Geometries/>", "<Symbol/>", "{1,2,3}", "\n", "\t"};
	E t = scene(s); E root = toFile(t, s); str x = doc::xmlDoc(root, doc::genStyle(s), s), log; str d = mut::damage(x, s, {}, words, log); c.sample = log + "\n" + vp::quote(d).substr(0, 3000); c.nontrivial = d != x && d.size() > 300;
	doc::ZipStyle z; z.mode = (int) s.draw(3); exercise(s, c, doc::zipWrite({{"GeneralSceneDescription.xml", d}}, z, &s), &t);
}
// a description that ends early is not taken for a sound one
static void truncated(Src& s, Ctx& c)
{
	E t = scene(s); E root = toFile(t, s); str x = doc::xmlDoc(root, doc::genStyle(s), s); size_t lo = x.find("<GeneralSceneDescription"), hi = x.rfind('>'), at = lo + 1 + s.draw(hi - lo - 1); str d = x.substr(0, at); c.sample = fmt("cut at %zu of %zu\n", at, x.size()) + d; c.nontrivial = x.size() > 300;
	doc::ZipStyle z; z.mode = (int) s.draw(3); doc::Entries es; if (s.coin()) es.push_back({"GeneralSceneDescription.xml", d}); es.push_back({"a.3ds", "x"}); if (es.size() == 1) es.push_back({"GeneralSceneDescription.xml", d}); vp::writeFile(c.scratch + "/t.mvr", doc::zipWrite(es, z, &s));
	Mvr m = newMvr(); int rc = m->OpenForRead((c.scratch + "/t.mvr").c_str()); c.check(rc != 0, "unnoticed", "a description that is not complete is read without an error"); touchAll(m, c);
}
// damaged bytes of the container
static void containerDamage(Src& s, Ctx& c)
{
	E t = scene(s); E root = toFile(t, s); doc::Entries more; str log; size_t n = s.draw(4);
	for (size_t i = 0; i < n; i++) { str nm = s.chance(30) ? mut::hostile(s) : fmt("f%zu.", i) + s.oneof<const char*>({"3ds", "png", "gdtf", "xml"}); if (nm.size() > 250 || nm.find('\0') != str::npos) nm = "x"; more.push_back({nm, s.chance(20) ? fixtureFile(s, false, log) : str(s.draw(400), 'd')}); }
	str z = container(root, s, more), d = s.chance(15) ? z : mut::damageZip(z, s, log); c.sample = log; for (auto& e : more) c.sample += vp::quote(e.name) + " "; c.nontrivial = d != z && d.size() > 100; exercise(s, c, d, &t);
}
VP_SUITE
{
	s.property = "M05"; s.rule = "the damaged file differs from the sound one, and the scene has 15 nodes or the description 300 bytes"; s.quickCases = 12000; s.thoroughCases = 400000; s.cpuLimit = 20;
	s.props.push_back({"document", 5, document});
	s.props.push_back({"text", 2, textDamage});
	s.props.push_back({"truncated", 1, truncated});
	s.props.push_back({"container", 2, containerDamage});
}
