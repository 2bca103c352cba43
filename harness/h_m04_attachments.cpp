// M04: files attached to a scene keep their names and bytes, over saving, opening and copying.
#include "gdtf_file.h"
#include "mvr_file.h"
#include "zip_util.h"
#include <sys/stat.h>
using doc::E; using vp::str; using vp::fmt; using vp::Src; using vp::Ctx; using mvr::Mvr; using mvr::must; using mvr::S; using mvr::each;

typedef std::map<str, str> Files;
struct Gdtf { str data; bool good = false; E t{""}; str thumb; };
struct World {
	Src& s; Ctx& c; std::map<str, Gdtf> gdtf; std::vector<str> names, specs; str log;
	World(Src& a, Ctx& b) : s(a), c(b) {}
	str bytes() { return s.chance(4) ? genBytes(s, c.thorough ? 1500000 : 120000) : genBytes(s, s.chance(20) ? 30000 : 1200); }
	// names that differ in more than case
	void pools()
	{
		static const std::vector<str> w = {"body.3ds", "b c.glb", "\xc3\x9cn\xc3\xaf.png", "\xe6\x97\xa5\xe6\x9c\xac.svg", "x.y.z", "noext", "gobo 1.png", "gobo2.png", "t.3DS", "#1.png", "%41.txt", "a.gltf", "body.glb", "_", "0", "~x.png", "General.xml", "n(1).3ds", "+", "a&b.png", "ody.3ds", "bo2.png", "ext"};
		static const std::vector<str> g = {"spot.gdtf", "Acme@Wash 600.gdtf", "\xe6\x97\xa5.gdtf", "x.y.gdtf", "led-bar.gdtf", "ot.gdtf", "600.gdtf", "bar.gdtf", "spot.gdtf.gdtf"};
		size_t n = 1 + s.draw(6); for (size_t i = 0; i < n; i++) names.push_back(s.pick(w));
		n = 1 + s.draw(4); for (size_t i = 0; i < n; i++) specs.push_back(s.pick(g));
	}
	// a fixture file: a real one, with its thumbnail, or bytes that are none
	Gdtf file()
	{
		Gdtf x; if (s.chance(20)) { x.data = bytes(); if (x.data.empty()) x.data = "x"; return x; }
		gdtf::GenOpt o = gdtf::genOpt(s); o.size = (int) s.draw(2); o.manyChannels = o.manyElements = false; gdtf::Gen g(s, o); E t = g.run(); t.set("Thumbnail", "thumb"); doc::Entries es; if (s.coin()) { x.thumb = bytes(); es.push_back({"thumb.png", x.thumb}); }
		x.good = true; x.data = gdtf::container(gdtf::toFile(t, &s), s, es); x.t = gdtf::normalise(t, false); return x;
	}
};
static str put(const str& dir, const str& name, const str& data) { mkdir(dir.c_str(), 0777); vp::writeFile(dir + "/" + name, data); return dir + "/" + name; }
// what an opened MVR gives out: the attached files, the files of geometries, gobos and fixtures
static void verifyRead(World& w, Mvr& m, E& t, const Files& files, const str& what)
{
	Ctx& c = w.c; std::map<str, str> got; size_t n = 999; must(m->GetAttachedFileCount(n), "GetAttachedFileCount"); str dir;
	for (size_t i = 0; i < n; i++) { str p = S(m->GetAttachedFileCountAt(i)); c.check(vp::fileExists(p), "attached-missing", what + ": attached file not found at its path <" + p + ">"); size_t k = p.find("/MVR_Export"); size_t e = k == str::npos ? k : p.find('/', k + 1); str name = e == str::npos ? p : p.substr(e + 1); c.check(got.insert({name, vp::readFile(p)}).second, "attached-twice", what + ": two attached files " + name); if (e != str::npos) dir = p.substr(0, e); }
	for (auto& f : files) { auto i = got.find(f.first); c.check(i != got.end(), "attached-lost", what + " has no attached file " + vp::quote(f.first)); if (i->second != f.second) c.fail("attached-bytes", what + fmt(": %zu bytes at its path, %zu expected, or other bytes for ", i->second.size(), f.second.size()) + vp::quote(f.first)); got.erase(i); }
	c.check(got.empty(), "attached-extra", what + " has an attached file " + (got.empty() ? str() : vp::quote(got.begin()->first)) + " that was never added");
	c.eq(S(m->GetAttachedFileCountAt(n)), str(), "attached-past-end", what + ": attached file past the end");
	// all objects, in order
	struct Walk { World& w; Mvr& m; const Files& files; const str& what;
		const str* at(const str& n) { auto i = files.find(n); return i == files.end() ? nullptr : &i->second; }
		void path(const str& p, const str* want, const str& x) { Ctx& c = w.c; if (!want) { c.check(!vp::fileExists(p), "path-of-nothing", what + ": a file at the path of " + x); return; } c.check(!p.empty() && vp::fileExists(p), "path-missing", what + ": no file at the path of " + x + " <" + p + ">"); if (vp::readFile(p) != *want) c.fail("path-bytes", what + ": other bytes at the path of " + x); }
		void obj(ISceneObj* o, const E& e)
		{
			Ctx& c = w.c; if (e.name == "Fixture") { str g = e.val("Gobo"); auto x = at(g + ".png"); str p = S(o->GetGoboFullPath()); if (!x) c.eq(p, str(), "gobo-of-nothing", what + ": path of a gobo that is not attached"); else path(p, x, "gobo " + g); }
			size_t k = 0; int rc = o->GetGeometryCount(k); auto gs = e.kid("Geometries"); must(rc, "GetGeometryCount");
			for (size_t i = 0; i < k; i++) { IGeometryReferencePtr g; must(o->GetGeometryAt(i, &g), "GetGeometryAt"); if (gs->kids[i].name == "Geometry3D") path(S(g->GetFileForGeometry()), at(gs->kids[i].val("fileName")), "geometry " + vp::quote(gs->kids[i].val("fileName"))); }
			if (w.s.chance(60)) fixture(o, e);
			ISceneObjPtr ch; if (m->GetFirstChild(o, &ch) != 0) return; auto l = e.kid("ChildList");
			for (auto& k2 : l->kids) { obj(ch, k2); ISceneObjPtr nx; if (m->GetNextObject(ch, &nx) != 0) break; ch = nx; }
		}
		void fixture(ISceneObj* o, const E& e)
		{
			Ctx& c = w.c; IGdtfFixturePtr f; int rc = o->GetGdtfFixture(&f); str n = e.val("GDTFSpec");
			if (!mvr::hasSpec(e.name)) { c.check(rc != 0, "fixture-of-nothing", what + ": a " + e.name + " has a fixture"); return; }
			if (n.find(".gdtf") == str::npos) n += ".gdtf"; auto x = at(n);
			if (!x) { c.check(rc != 0, "fixture-of-nothing", what + ": a fixture from " + vp::quote(n) + " which is not attached"); return; }
			// which of the fixtures the scene was made with these bytes are
			const Gdtf* g = nullptr; for (auto& q : w.gdtf) if (q.second.good && q.second.data == *x) g = &q.second;
			if (!g) { c.check(rc != 0, "fixture-of-garbage", what + ": " + vp::quote(n) + " is no fixture file and was read as one"); return; }
			must(rc, "GetGdtfFixture"); gdtf::same(gdtf::dump(f), g->t, "fixture"); str p = S(f->GetFixtureThumbnail_PNG_FullPath());
			if (g->thumb.empty()) { if (g->data.find("thumb.png") == str::npos) c.eq(p, str(), "thumbnail-of-nothing", "path of a thumbnail"); } else path(p, &g->thumb, "thumbnail of " + n);
		}
	} walk{w, m, files, what};
	ISceneObjPtr l; int rc = m->GetFirstLayer(&l); auto ls = t.kid("Layers"); c.eq(rc == 0, !ls->kids.empty(), "layers", what + ": layers");
	for (auto& e : ls->kids) { walk.obj(l, e); ISceneObjPtr nx; if (m->GetNextObject(l, &nx) != 0) break; l = nx; }
}
static void verifyContainer(Ctx& c, const str& z, const Files& files, const str& what)
{
	doc::Entries es; str err; try { es = doc::zipRead(z); } catch (vp::Fail& e) { c.fail("container", what + ": " + e.msg); }
	Files got; for (auto& e : es) c.check(got.insert({e.name, e.data}).second, "entry-twice", what + " holds " + vp::quote(e.name) + " twice");
	c.check(got.count("GeneralSceneDescription.xml") && got["GeneralSceneDescription.xml"].find("<GeneralSceneDescription") != str::npos, "no-description", what + " has no scene description"); got.erase("GeneralSceneDescription.xml");
	for (auto& e : files) { auto i = got.find(e.first); c.check(i != got.end(), "entry-missing", what + " lacks " + vp::quote(e.first)); if (i->second != e.second) c.fail("entry-bytes", what + fmt(" holds %zu bytes, %zu expected, or other bytes for ", i->second.size(), e.second.size()) + vp::quote(e.first)); got.erase(i); }
	c.check(got.empty(), "entry-extra", what + " holds " + (got.empty() ? str() : vp::quote(got.begin()->first)) + " that was never added");
}
static E scene(World& w)
{
	Src& s = w.s; mvr::Gen g(s, (int) s.draw(3)); g.files = false; E t = g.run();
	each(t, [&](E& e) {
		if (e.name == "Geometry3D" && s.chance(85)) e.set("fileName", s.pick(w.names));
		if (mvr::isObj(e) && mvr::hasSpec(e.name)) { str n = s.chance(25) ? str() : s.pick(w.specs); if (s.chance(15)) n = n.substr(0, n.find(".gdtf")); e.set("GDTFSpec", n); }
		if (e.name == "Fixture") { str n = s.pick(w.names); size_t d = n.rfind(".png"); e.set("Gobo", d != str::npos && d + 4 == n.size() ? n.substr(0, d) : s.coin() ? str() : str("gobo")); }
	});
	return t;
}
// attach, save, open, look; then copy everything into another MVR, with the first one still open
static void history(Src& s, Ctx& c)
{
	World w(s, c); w.pools(); E t = scene(w); Files byFile, byBuffer, byFolder; std::vector<std::map<str, str>> folders(s.draw(4)); str& log = w.log; str path = c.scratch + "/out.mvr"; Mvr m = mvr::newMvr(); bool early = s.coin();
	std::vector<std::vector<char>> keep; must(m->OpenForWrite(path.c_str()), "OpenForWrite");
	auto attach = [&]() {
		str n, data; bool fix = s.coin(); if (fix) { n = s.pick(w.specs); Gdtf g = w.file(); data = g.data; w.gdtf[fmt("%zu", w.gdtf.size())] = g; } else { n = s.chance(3) ? str("GeneralSceneDescription.xml") : s.pick(w.names); data = w.bytes(); }
		if (s.coin()) { str p = put(c.scratch + "/" + s.oneof<const char*>({"d1", "d 2", "d3"}), n, data); if (s.chance(8)) c.check(m->AddFileToMvrFile((p + "x").c_str()) != 0, "added-nothing", "a file that does not exist was attached"); must(m->AddFileToMvrFile(p.c_str()), "AddFileToMvrFile"); byFile.insert({n, data}); log += "file "; 
			// a file attached a second time is the same file
			if (s.chance(10)) must(m->AddFileToMvrFile(p.c_str()), "AddFileToMvrFile"); }
		else { std::vector<char> b(data.begin(), data.end()); b.push_back(0); int rc = m->AddBufferToMvrFile(n.c_str(), b.data(), data.size()); if (data.empty()) { c.check(rc != 0, "empty-buffer", "an empty buffer was attached"); return; } must(rc, "AddBufferToMvrFile"); std::fill(b.begin(), b.end(), 'Z'); byBuffer.insert({n, data}); log += "buffer "; }
		log += vp::quote(n) + fmt("(%zu) ", data.size());
	};
	// a file keeps its content until the MVR is closed: no two attached files at one path
	auto attachAll = [&](size_t n) { for (size_t i = 0; i < n; i++) { std::set<str> had; attach(); } };
	size_t n = s.count(6); std::map<str, str> disk;
	if (early) attachAll(n);
	for (size_t i = 0; i < folders.size(); i++) {
		str d = fmt("%s/f%zu", c.scratch.c_str(), i); mkdir(d.c_str(), 0777); size_t k = s.count(3);
		for (size_t j = 0; j < k; j++) { str x = s.pick(w.specs); Gdtf g = w.file(); put(d, x, g.data); folders[i][x] = g.data; w.gdtf[fmt("%zu", w.gdtf.size())] = g; log += fmt("folder%zu ", i) + vp::quote(x) + " "; }
		must(m->AddGdtfFolderLocation((d + (s.coin() ? "/" : "")).c_str()), "AddGdtfFolderLocation");
	}
	mvr::Build b{m, &s}; b.run(t); if (!early) attachAll(n); else attachAll(s.count(2));
	E sv = mvr::saved(t);
	each(sv, [&](E& e) { if (mvr::isObj(e) && mvr::hasSpec(e.name)) for (auto& f : folders) { auto i = f.find(e.val("GDTFSpec")); if (i != f.end()) { byFolder.insert(*i); break; } } });
	// the content a file on disk had last is what counts
	for (auto& f : byFile) for (auto d : {"d1", "d 2", "d3"}) { str p = c.scratch + "/" + d + "/" + f.first; if (vp::fileExists(p)) disk[f.first] = disk.count(f.first) ? str("\x01") : vp::readFile(p); }
	for (auto& d : disk) if (d.second == "\x01") throw vp::Discard{}; byFile = disk;
	Files all = byFile; for (auto& x : byBuffer) all.insert(x); for (auto& x : byFolder) all.insert(x); all.erase("GeneralSceneDescription.xml");
	c.sample = log + "\n" + doc::render(sv); c.nontrivial = all.size() >= 2;
	must(m->Close(), "Close"); str data = vp::readFile(path); verifyContainer(c, data, all, "the saved MVR"); if (s.coin()) m = Mvr();
	Mvr r = mvr::newMvr(); must(r->OpenForRead(path.c_str()), "OpenForRead"); verifyRead(w, r, sv, all, "the opened MVR");
	size_t rounds = s.draw(3); E now = mvr::saved(t, true);
	for (size_t i = 0; i < rounds; i++) {
		str p2 = fmt("%s/copy%zu.mvr", c.scratch.c_str(), i); Mvr q = mvr::newMvr(); must(q->OpenForWrite(p2.c_str()), "OpenForWrite"); mvr::Build b2{q, &s}; E next = mvr::saved(now, true); b2.run(now); size_t k = 0; must(r->GetAttachedFileCount(k), "GetAttachedFileCount"); log += "copy ";
		c.sample = log + "\n" + doc::render(sv);
		for (size_t j = 0; j < k; j++) must(q->AddFileToMvrFile(r->GetAttachedFileCountAt(j)), "attaching a file of an opened MVR"); must(q->Close(), "Close");
		verifyContainer(c, vp::readFile(p2), all, "the copy"); verifyRead(w, r, sv, all, "the first MVR after copying"); Mvr r2 = mvr::newMvr(); must(r2->OpenForRead(p2.c_str()), "OpenForRead"); E sv2 = mvr::saved(now); verifyRead(w, r2, sv2, all, "the opened copy"); if (s.coin()) verifyRead(w, r, sv, all, "the first MVR with its copy open"); r = r2; sv = sv2; now = next;
	}
}
// containers of other tools: files in folders, several MVR files open at once
static void foreign(Src& s, Ctx& c)
{
	World w(s, c); w.pools(); size_t n = 1 + s.draw(3); std::vector<Mvr> ms(n); std::vector<Files> fs(n); std::vector<E> ts; w.log = "";
	for (size_t i = 0; i < n; i++) {
		E t = scene(w); Files& f = fs[i]; size_t k = s.count(5); doc::Entries es;
		for (size_t j = 0; j < k; j++) { str nm, d; if (s.coin()) { nm = s.pick(w.specs); Gdtf g = w.file(); d = g.data; w.gdtf[fmt("%zu", w.gdtf.size())] = g; } else { nm = s.pick(w.names); d = w.bytes(); } if (s.chance(15)) nm = str(s.oneof<const char*>({"tex/", "a/b/", "models/3ds/"})) + nm; if (!f.insert({nm, d}).second) continue; es.push_back({nm, d}); w.log += vp::quote(nm) + fmt("(%zu) ", d.size()); }
		if (s.chance(15)) { es.insert(es.begin() + s.draw(es.size() + 1), {s.oneof<const char*>({"tex/", "a/", "empty/"}), str()}); w.log += "(folder entry) "; } E root = mvr::toFile(t, s); ts.push_back(mvr::read(t)); str z = mvr::container(root, s, es); c.sample = w.log + "\n" + doc::render(root); w.log += "| ";
		ms[i] = mvr::open(z, c, fmt("in%zu.mvr", i)); verifyRead(w, ms[i], ts[i], f, fmt("MVR %zu", i)); c.nontrivial = c.nontrivial || f.size() >= 2;
	}
	for (size_t i = 0; i < n; i++) { if (ms[i] && s.coin()) verifyRead(w, ms[i], ts[i], fs[i], fmt("MVR %zu with others open", i)); if (s.chance(30)) ms[i] = Mvr(); }
	for (size_t i = 0; i < n; i++) if (ms[i]) verifyRead(w, ms[i], ts[i], fs[i], fmt("MVR %zu at the end", i));
}
// the files extracted for an object are gone when the object is
static void tidy(vp::Src& s, vp::Ctx& c, void (*run)(vp::Src&, vp::Ctx&))
{
	str home = c.scratch.substr(0, c.scratch.rfind('/')) + "/s1/s2/s3/s4/s5/home"; auto was = vp::listTree(home); std::set<str> before(was.begin(), was.end());
	run(s, c);
	for (auto& x : vp::listTree(home)) c.check(before.count(x) > 0, "left-behind", "all objects are released, and " + vp::quote(x) + " is still in the folder of the library");
}
VP_SUITE
{
	s.property = "M04"; s.rule = "at least two files are attached"; s.quickCases = 3000; s.thoroughCases = 60000;
	s.props.push_back({"history", 3, [](vp::Src& a, vp::Ctx& b) { tidy(a, b, history); }});
	s.props.push_back({"foreign", 2, [](vp::Src& a, vp::Ctx& b) { tidy(a, b, foreign); }});
}
