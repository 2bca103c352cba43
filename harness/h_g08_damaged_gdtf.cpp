// G08: no GDTF file or buffer makes the library crash, hang or touch memory out of bounds, and whatever was loaded is safe to read and to save.
#include "gdtf_file.h"
#include "mutate.h"
#include "walk_util.h"
using namespace gdtf;
using vp::Src; using vp::Ctx;

static str touchAll(IGdtfFixture* f, Ctx& c) { touch::Seen r = touch::all(f); for (auto& p : r.problems) c.fail("index", p); return r.text(); }
static void exercise(Src& s, Ctx& c, const str& data, const E* valid)
{
	if (getenv("VP_DUMP")) vp::writeFile(getenv("VP_DUMP"), data);
	IGdtfFixturePtr f(IID_IGdtfFixture); int rc; str path = c.scratch + "/d.gdtf";
	if (s.coin()) { vp::writeFile(path, data); rc = f->ReadFromFile(path.c_str()); }
	else { char* b = (char*) malloc(data.size() ? data.size() : 1); memcpy(b, data.data(), data.size()); rc = f->FromBuffer(b, data.size()); free(b); }
	str got = touchAll(f, c); c.label(rc ? "refused" : "loaded");
	if (s.coin()) c.eq(touchAll(f, c), got, "unstable", "reading twice");
	if (!rc && s.coin()) {
		f->RefreshBuffer(); size_t len = 0; if (f->GetBufferLength(len) == 0 && len) { str out(len, '\0'); if (f->ToBuffer(&out[0]) == 0) { c.label("saved"); if (s.coin()) touchAll(f, c); if (s.coin()) { IGdtfFixturePtr g(IID_IGdtfFixture); g->FromBuffer(out.data(), out.size()); touchAll(g, c); } } }
	}
	if (valid && s.chance(40)) { E root = toFile(*valid, &s); IGdtfFixturePtr g = s.coin() ? f : IGdtfFixturePtr(IID_IGdtfFixture); readFrom(g, container(root, s), s.coin(), c); noErrors(g); same(dump(g), normalise(*valid, false), "poisoned"); }
}
static E fixture(Src& s) { Gen g(s, genOpt(s)); return g.run(); }
static void document(Src& s, Ctx& c)
{
	E t = fixture(s); E root = toFile(t, &s); str before = doc::render(root), log; mut::damageTree(root, s, log); str after = doc::render(root);
	c.sample = log + "\n" + after; c.nontrivial = before != after && mut::sizeOf(root) >= 15; exercise(s, c, container(root, s), &t);
}
// references of the right kind to the wrong node: dangling, circular, to another kind
static void references(Src& s, Ctx& c)
{
	static const std::set<str> refs = {"Geometry", "Model", "Attribute", "InitialFunction", "ModeMaster", "Master", "Follower", "Wheel", "Emitter", "Filter", "ColorSpace", "Gamut", "DMXProfile", "Feature", "ActivationGroup", "MainAttribute", "DMXMode", "Name", "DMXChannel", "ChannelFunction", "ToWiringObject", "FromPin", "ToPin", "LinkedDmxChannel", "Offset", "DMXBreak", "DMXOffset"};
	E t = fixture(s); E root = toFile(t, &s); str before = doc::render(root), log; size_t n = 1 + s.count(10);
	for (size_t i = 0; i < n; i++) {
		std::vector<E*> all; mut::every(root, all); std::vector<std::pair<E*, str>> at; std::vector<str> vals; for (auto e : all) for (auto& a : e->at) if (refs.count(a.first)) { at.push_back({e, a.first}); vals.push_back(a.second); }
		if (at.empty()) break;
		// every kind of reference is as likely as the others
		std::map<str, std::vector<E*>> kinds; std::map<str, std::vector<str>> names; for (auto& x : at) { kinds[x.first->name + "." + x.second].push_back(x.first); if (x.second == "Name" && !x.first->val("Name").empty()) names[x.first->name].push_back(x.first->val("Name")); }
		auto k = kinds.begin(); std::advance(k, s.draw(kinds.size())); E* e = s.pick(k->second); str an = k->first.substr(k->first.find('.') + 1), v;
		if (!names.empty() && s.coin()) { auto q = names.begin(); std::advance(q, s.draw(names.size())); v = s.pick(q->second); } else v = s.chance(70) ? s.pick(vals) : s.chance(50) ? s.pick(vals) + "." + s.pick(vals) : s.pick(vals) + "_" + s.pick(vals);
		if (s.chance(8)) v = ""; e->set(an, v); log += k->first + "=" + vp::quote(v) + " ";
	}
	str after = doc::render(root); c.sample = log + "\n" + after; c.nontrivial = before != after && mut::sizeOf(root) >= 15; exercise(s, c, container(root, s), &t);
}
static void textDamage(Src& s, Ctx& c)
{
	static const std::vector<str> words = {"<", ">", "/>", "</", "\"", "'", "&", "&amp;", "&#0;", "&#x110000;", "&#xD800;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml?>", "<?", "?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", str("\0", 1), "\xff\xfe", "\xef\xbb\xbf", "<DMXModes>", "<Geometries>", "</Geometry>", "<ChannelFunction>", "<Slot/>", "{1,2,3}", "\n", "\t"};
	E t = fixture(s); E root = toFile(t, &s); str x = doc::xmlDoc(root, doc::genStyle(s), s), log; str d = mut::damage(x, s, {}, words, log); c.sample = log + "\n" + vp::quote(d).substr(0, 3000); c.nontrivial = d != x && d.size() > 300;
	doc::ZipStyle z; z.mode = (int) s.draw(3); exercise(s, c, doc::zipWrite({{"description.xml", d}}, z, &s), &t);
}
// a description that ends early, or has no fixture, is not taken for a sound one
static void truncated(Src& s, Ctx& c)
{
	E t = fixture(s); E root = toFile(t, &s); str x = doc::xmlDoc(root, doc::genStyle(s), s), d; size_t lo = x.find("<GDTF"), hi = x.rfind('>');
	if (s.chance(75)) { size_t at = lo + 1 + s.draw(hi - lo - 1); d = x.substr(0, at); c.sample = fmt("cut at %zu of %zu", at, x.size()); } else { if (s.coin()) root.kids.clear(); else if (s.coin()) root = E("Fixture"); else { E k = root.kids[0]; root = k; } d = doc::xmlDoc(root, doc::genStyle(s), s); c.sample = d.substr(0, 500); }
	c.nontrivial = x.size() > 300; doc::ZipStyle z; z.mode = (int) s.draw(3); str data = doc::zipWrite({{"description.xml", d}}, z, &s);
	IGdtfFixturePtr f(IID_IGdtfFixture); int rc; if (s.coin()) { vp::writeFile(c.scratch + "/t.gdtf", data); rc = f->ReadFromFile((c.scratch + "/t.gdtf").c_str()); } else rc = f->FromBuffer(data.data(), data.size());
	size_t n = 0; f->GetParsingErrorCount(n); c.check(rc != 0 || n > 0, "unnoticed", "a description that is not complete is read without an error"); touchAll(f, c);
}
static void containerDamage(Src& s, Ctx& c)
{
	E t = fixture(s); E root = toFile(t, &s); doc::Entries more; str log; size_t n = s.draw(4);
	for (size_t i = 0; i < n; i++) { str nm = s.chance(30) ? mut::hostile(s) : str(s.oneof<const char*>({"models/3ds/", "models/svg/", "models/gltf/", "wheels/", ""})) + fmt("f%zu.", i) + s.oneof<const char*>({"3ds", "png", "svg", "glb"}); if (nm.size() > 250 || nm.find('\0') != str::npos) nm = "x"; more.push_back({nm, str(s.draw(400), 'd')}); }
	str z = container(root, s, more), d = s.chance(15) ? z : mut::damageZip(z, s, log); c.sample = log; for (auto& e : more) c.sample += vp::quote(e.name) + " "; c.nontrivial = d != z && d.size() > 100; exercise(s, c, d, &t);
}
VP_SUITE
{
	s.property = "G08"; s.rule = "the damaged file differs from the sound one, and the fixture has 15 nodes or the description 300 bytes"; s.quickCases = 12000; s.thoroughCases = 400000; s.cpuLimit = 20;
	s.props.push_back({"document", 5, document});
	s.props.push_back({"references", 3, references});
	s.props.push_back({"text", 1, textDamage});
	s.props.push_back({"truncated", 1, truncated});
	s.props.push_back({"container", 1, containerDamage});
}
