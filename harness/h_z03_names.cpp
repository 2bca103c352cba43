// Z03: whatever names a container holds, reading it leaves everything outside the library's own working folders alone.
#include "gdtf_file.h"
#include "mutate.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace gdtf;

static void snap(const str& dir, const str& rel, const std::set<str>& own, std::map<str, str>& out)
{
	DIR* d = opendir((dir + "/" + rel).c_str()); if (!d) return;
	while (dirent* e = readdir(d)) {
		str n = e->d_name; if (n == "." || n == "..") continue; str r = rel.empty() ? n : rel + "/" + n; if (own.count(r)) continue;
		struct stat st; if (lstat((dir + "/" + r).c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { out[r] = "folder"; snap(dir, r, own, out); } else { str c; try { c = vp::readFile(dir + "/" + r); } catch (...) { c = "unreadable"; } out[r] = "file " + c; }
	}
	closedir(d);
}
static const std::vector<str>& leafs() { static const std::vector<str> v = {"evil.txt", "x.gdtf", "x.3ds", "keep", "MVR_Export", "GDTFs", "GdtfGroup", "home", "s5", "work"}; return v; }
static str genHostile(vp::Src& s, const str& root)
{
	static const std::vector<str> seg = {"..", "..", "..", ".", "", "a", "models", "wheels", "...", ".. ", " ..", "..%2F..", "..%5C..", "%2E%2E", "..\\..", "..:..", "C:", "~", "\xef\xbc\x8e\xef\xbc\x8e", "\xc0\xae\xc0\xae"};
	str n; size_t ups = 0;
	switch (s.draw(10)) { case 0: n = "/"; break; case 1: n = "\\"; break; case 2: n = root + "/abs/"; break; case 3: { n = root + "/abs/"; for (char& c : n) if (c == '/') c = '\\'; break; } case 4: n = "//"; break; default: break; }
	size_t k = s.count(8); for (size_t i = 0; i < k; i++) { const str& x = s.pick(seg); size_t u = 0; for (size_t p = 0; (p = x.find("..", p)) != str::npos; p += 2) u++; if (ups + u > 8) continue; ups += u; n += x + s.oneof<const char*>({"/", "/", "/", "\\", ":", "%2F", "%5C", "//", "\\\\"}); }
	n += s.chance(15) ? s.oneof<const char*>({"..", ".", "", "...", "..gdtf"}) : s.pick(leafs());
	return n.empty() ? "evil.txt" : n;
}
struct Guard {
	vp::Ctx& c; str root; std::set<str> own; std::map<str, str> before; str home;
	Guard(vp::Ctx& x) : c(x)
	{
		root = c.scratch.substr(0, c.scratch.rfind('/')); home = "s1/s2/s3/s4/s5/home"; own = {home + "/MVR_Export", home + "/GDTFs"};
	}
	void plant()
	{
		// the library's own folders, as they are after any use
		{ IGdtfFixturePtr f = newFixture(); doc::Entries es{{"description.xml", "<GDTF DataVersion=\"1.2\"/>"}}; str z = doc::zipWrite(es, doc::ZipStyle()); f->FromBuffer(z.data(), z.size()); }
		{ IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); (void) m; }
		std::map<str, str> now; snap(root, "", {}, now); own.clear(); for (auto& e : now) { size_t p = e.first.rfind('/'); str leaf = p == str::npos ? e.first : e.first.substr(p + 1); if (leaf == "MVR_Export" || leaf == "GDTFs") own.insert(e.first); }
		std::vector<str> dirs{root, root + "/abs", c.scratch}; mkdir((root + "/abs").c_str(), 0777); for (auto& e : now) if (e.second == "folder") { bool mine = false; for (auto& o : own) if (e.first == o || e.first.compare(0, o.size() + 1, o + "/") == 0) mine = true; if (!mine) dirs.push_back(root + "/" + e.first); }
		for (auto& d : dirs) { for (const char* n : {"evil.txt", "x.gdtf", "x.3ds"}) vp::writeFile(d + "/" + n, "sentinel"); str k = d + "/keep"; mkdir(k.c_str(), 0777); vp::writeFile(k + "/inner", "sentinel"); }
		snap(root, "", own, before);
	}
	void verify(const str& what)
	{
		std::map<str, str> after; snap(root, "", own, after);
		for (auto& e : before) { auto i = after.find(e.first); c.check(i != after.end(), "removed", what + " removed " + e.first); c.check(i->second == e.second, "changed", what + " changed " + e.first); }
		for (auto& e : after) c.check(before.count(e.first), "created", what + " created " + vp::quote(e.first));
	}
};
static str tinyGdtf(vp::Src& s, const str& root, str& log, size_t hostile)
{
	doc::Entries es; str thumb = s.chance(50) ? genHostile(s, root) : "t"; E x("GDTF"); x.set("DataVersion", "1.2"); E& f = x.add("FixtureType"); f.set("Name", "n"); f.set("ShortName", "s"); f.set("LongName", "l"); f.set("Manufacturer", "m"); f.set("Description", "d"); f.set("FixtureTypeID", "11111111-2222-3333-4444-555555555555"); f.set("Thumbnail", thumb);
	f.add("Models").add("Model").set("Name", "mo"); f.kid("Models")->kids[0].set("File", s.chance(50) ? genHostile(s, root) : "x");
	E& w = f.add("Wheels").add("Wheel"); w.set("Name", "w"); E& sl = w.add("Slot"); sl.set("Name", "sl"); sl.set("MediaFileName", s.chance(50) ? genHostile(s, root) : "g");
	for (size_t i = 0; i < hostile; i++) { str n = genHostile(s, root); es.push_back({n, "hostile"}); log += vp::quote(n) + " "; }
	es.insert(es.begin() + s.draw(es.size() + 1), {"description.xml", doc::xmlDoc(x, doc::XmlStyle(), s)});
	return doc::zipWrite(es, doc::ZipStyle());
}
static void lookAt(IGdtfFixture* f)
{
	size_t n = 0; (void) n;
	f->GetFixtureThumbnail_PNG_FullPath(); f->GetFixtureThumbnail_SVG_FullPath();
	if (!f->GetModelCount(n)) for (size_t i = 0; i < n; i++) { IGdtfModelPtr m; if (!f->GetModelAt(i, &m)) { m->GetGeometryFile_3DS_FullPath(); m->GetGeometryFile_SVG_FullPath(); size_t l = 0; char* b = nullptr; m->GetBuffer3DS((void**) &b, l); } }
	if (!f->GetWheelCount(n)) for (size_t i = 0; i < n; i++) { IGdtfWheelPtr w; size_t k = 0; if (!f->GetWheelAt(i, &w) && !w->GetWheelSlotCount(k)) for (size_t j = 0; j < k; j++) { IGdtfWheelSlotPtr sl; if (!w->GetWheelSlotAt(j, &sl)) sl->GetGoboFileFullPath(); } }
}
static void gdtf1(vp::Src& s, vp::Ctx& c)
{
	Guard g(c); str log; str z = tinyGdtf(s, g.root, log, 1 + s.count(5)); c.sample = log; c.nontrivial = log.find("..") != str::npos || log[0] == '/' || log[0] == '\\';
	g.plant(); bool file = s.coin(); str p = c.scratch + "/in.gdtf"; if (file) { vp::writeFile(p, z); g.before.clear(); snap(g.root, "", g.own, g.before); }
	{ IGdtfFixturePtr f = newFixture(); VCOMError e = file ? f->ReadFromFile(p.c_str()) : f->FromBuffer(z.data(), z.size()); if (!e) lookAt(f); g.verify("reading " + log); if (!e && s.coin()) { f->RefreshBuffer(); size_t n = 0; f->GetBufferLength(n); g.verify("refreshing " + log); } }
	g.verify("closing " + log);
}
static void mvr1(vp::Src& s, vp::Ctx& c)
{
	Guard g(c); str log; doc::Entries es; E x("GeneralSceneDescription"); x.set("verMajor", "1"); x.set("verMinor", "6"); E& layers = x.add("Scene").add("Layers"); E& ly = layers.add("Layer"); ly.set("name", "l"); ly.set("uuid", "11111111-2222-3333-4444-555555555555"); E& cl = ly.add("ChildList");
	size_t n = s.count(4), inner = s.count(3);
	for (size_t i = 0; i < inner; i++) { str h = s.chance(60) ? genHostile(s, g.root) : s.oneof<const char*>({"...gdtf", "..gdtf", "%2F...gdtf", "x.gdtf", "a.gdtf", "%5C...gdtf", ". .gdtf", "....gdtf"}); str in; es.push_back({h, tinyGdtf(s, g.root, in, s.count(2))}); log += vp::quote(h) + "(" + in + ") "; }
	for (size_t i = 0; i < n; i++) { str h = genHostile(s, g.root); es.push_back({h, "hostile"}); log += vp::quote(h) + " "; }
	size_t fx = s.count(4);
	for (size_t i = 0; i < fx; i++) { E& f = cl.add("Fixture"); f.set("name", "f"); f.set("uuid", fmt("11111111-2222-3333-4444-5555555555%02zu", i + 10)); str h = !es.empty() && s.coin() ? s.pick(es).name : genHostile(s, g.root); if (s.chance(30) && h.size() > 5 && h.substr(h.size() - 5) == ".gdtf") h.resize(h.size() - 5); f.add("GDTFSpec").text = h; f.add("GDTFMode").text = "m"; f.add("Gobo").text = genHostile(s, g.root); log += "spec " + vp::quote(h) + " "; }
	{ E& f = cl.add("SceneObject"); f.set("name", "o"); f.set("uuid", "21111111-2222-3333-4444-555555555555"); E& ge = f.add("Geometries").add("Geometry3D"); ge.set("fileName", genHostile(s, g.root)); }
	es.insert(es.begin() + s.draw(es.size() + 1), {"GeneralSceneDescription.xml", doc::xmlDoc(x, doc::XmlStyle(), s)});
	str z = doc::zipWrite(es, doc::ZipStyle()); c.sample = log; c.nontrivial = log.find("..") != str::npos;
	{ IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); vp::writeFile(c.scratch + "/first.mvr", doc::zipWrite({{"GeneralSceneDescription.xml", "<GeneralSceneDescription/>"}}, doc::ZipStyle())); m->OpenForRead((c.scratch + "/first.mvr").c_str()); m->Close(); }
	str p = c.scratch + "/in.mvr"; vp::writeFile(p, z); g.plant();
	{
		IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); VCOMError e = m->OpenForRead(p.c_str()); g.verify("opening " + log);
		ISceneObjPtr layer; if (!e && !m->GetFirstLayer(&layer) && layer) {
			ISceneObjPtr o; VCOMError ce = m->GetFirstChild(layer, &o);
			while (!ce && o) { { IGdtfFixturePtr f; if (!o->GetGdtfFixture(&f) && f) lookAt(f); } g.verify("fetching the GDTF of " + log); o->GetGobo(); o->GetGoboFullPath(); size_t k = 0; o->GetGeometryCount(k); for (size_t i = 0; i < k; i++) { IGeometryReferencePtr gr; if (!o->GetGeometryAt(i, &gr) && gr) gr->GetFileForGeometry(); } ISceneObjPtr nx; ce = m->GetNextObject(o, &nx); o = nx; }
		}
		m->Close();
	}
	g.verify("closing " + log);
}
VP_SUITE
{
	s.property = "Z03"; s.rule = "a name leads upwards or is absolute"; s.quickCases = 12000; s.thoroughCases = 300000;
	s.props.push_back({"gdtf", 1, gdtf1});
	s.props.push_back({"mvr", 1, mvr1});
}
