// G03: files and buffers of a fixture keep their names and bytes, over files, buffers, refreshes and edits.
#include "gdtf_file.h"
#include "zip_util.h"
#include <sys/stat.h>
using namespace gdtf;

typedef std::map<str, str> Res;
static const std::vector<std::pair<ERessourceType, str>>& folders()
{
	static const std::vector<std::pair<ERessourceType, str>> v = {{ERessourceType::Model3DS, "models/3ds/"}, {ERessourceType::ModelSVG, "models/svg/"}, {ERessourceType::ModelGLTF, "models/gltf/"}, {ERessourceType::ImageWheel, "wheels/"}, {ERessourceType::RessoureFixture, ""},
		{ERessourceType::Model3DSLow, "models/3ds_low/"}, {ERessourceType::Model3DSHigh, "models/3ds_high/"}, {ERessourceType::ModelGLTFLow, "models/gltf_low/"}, {ERessourceType::ModelGLTFHigh, "models/gltf_high/"}, {ERessourceType::ModelSVGSide, "models/svg_side/"}, {ERessourceType::ModelSVGFront, "models/svg_front/"}};
	return v;
}
static str stem(vp::Src& s, const std::vector<str>& pool) { return s.pick(pool); }
static std::vector<str> genPool(vp::Src& s)
{
	std::vector<str> v; size_t n = 1 + s.draw(4); static const std::vector<str> w = {"a", "A", "body", "Body", "x.y", "Prisma 3", "k\xc3\xb6rper", "\xe6\x97\xa5\xe6\x9c\xac", "_", "0", "gobo-1", "n(1)", "#", "a.3ds", "+", "%41", "~x", "thumb", "models", "wheels"};
	for (size_t i = 0; i < n; i++) v.push_back(s.pick(w)); return v;
}
static str genRes(vp::Src& s, vp::Ctx& c) { return s.chance(4) ? genBytes(s, c.thorough ? 2000000 : 150000) : genBytes(s, s.chance(20) ? 40000 : 1500); }
// a name for the folder of the kind, mostly one a model, gobo or thumbnail refers to
static str genName(vp::Src& s, ERessourceType k, const std::vector<str>& pool)
{
	static const std::vector<str> ext = {".3ds", ".svg", ".glb", ".gltf", ".png", "", ".3DS", ".txt"};
	str e; switch (k) { case ERessourceType::Model3DS: case ERessourceType::Model3DSLow: case ERessourceType::Model3DSHigh: e = ".3ds"; break; case ERessourceType::ModelSVG: case ERessourceType::ModelSVGSide: case ERessourceType::ModelSVGFront: e = ".svg"; break; case ERessourceType::ImageWheel: e = ".png"; break; case ERessourceType::RessoureFixture: e = s.coin() ? ".png" : ".svg"; break; default: e = s.coin() ? ".glb" : ".gltf"; }
	if (s.chance(15)) e = s.pick(ext);
	str n = stem(s, pool) + e; return n == "wheels" ? "wheels_" : n; // a file named like the folder leaves no room for the folder
}
static const str* find(const Res& r, const str& n) { auto i = r.find(n); return i == r.end() ? nullptr : &i->second; }
static void atPath(vp::Ctx& c, const str& p, const str* want, const str& what)
{
	if (!want) { c.eq(p, str(), "path-of-nothing", what + " has a path, the container has no such file"); return; }
	c.check(!p.empty() && vp::fileExists(p), "path-missing", what + ": file not found at its path <" + p + ">");
	str got = vp::readFile(p); if (got != *want) c.fail("path-bytes", what + fmt(": %zu bytes at its path, %zu expected, or other bytes", got.size(), want->size()));
}
static void memory(vp::Ctx& c, IGdtfModel* m, int (*get)(IGdtfModel*, void**, size_t&), const str* want, const str& what)
{
	void* p = nullptr; size_t n = 0; get(m, &p, n); str got = p ? str((char*) p, n) : str(); bool any = p; delete[] (char*) p;
	if (!want) { c.check(!any, "buffer-of-nothing", what + " has a buffer, the container has no such file"); return; }
	c.check(any, "buffer-missing", what + " has no buffer"); if (got != *want) c.fail("buffer-bytes", what + fmt(": %zu bytes in its buffer, %zu expected, or other bytes", n, want->size()));
}
// the fixture as read, its files on disk and in memory
static void verifyRead(vp::Ctx& c, IGdtfFixture* f, const E& t, const Res& r, bool written)
{
	same(dump(f), normalise(t, written), "read");
	str th = t.val("Thumbnail"); atPath(c, S(f->GetFixtureThumbnail_PNG_FullPath()), find(r, th + ".png"), "PNG thumbnail"); atPath(c, S(f->GetFixtureThumbnail_SVG_FullPath()), find(r, th + ".svg"), "SVG thumbnail");
	size_t listed = 0; must(f->GetImageRessourcesCount(listed), "GetImageRessourcesCount"); std::vector<std::pair<str, str>> are, shouldBe;
	for (size_t i = 0; i < listed; i++) { str p = S(f->GetImageRessourcesPathAt(i)); c.check(vp::fileExists(p), "listed-missing", "listed resource not found at its path <" + p + ">"); are.push_back({p.substr(p.rfind('/') + 1), vp::readFile(p)}); }
	for (auto& x : r) shouldBe.push_back({x.first.substr(x.first.rfind('/') + 1), x.second});
	std::sort(are.begin(), are.end()); std::sort(shouldBe.begin(), shouldBe.end()); c.check(are == shouldBe, "listed", fmt("the fixture lists %zu resources that are not the %zu of its file", are.size(), shouldBe.size()));
	c.eq(S(f->GetImageRessourcesPathAt(listed)), str(), "listed-beyond", "path after the last resource");
	const E* ms = t.kid("Models"); size_t n = 0; if (ms) must(f->GetModelCount(n), "GetModelCount");
	for (size_t i = 0; i < n; i++) {
		IGdtfModelPtr m; must(f->GetModelAt(i, &m), "GetModelAt"); str file = ms->kids[i].val("File"), w = "model " + vp::quote(ms->kids[i].val("Name"));
		auto gl = [&](const char* d) { const str* x = find(r, str(d) + file + ".glb"); return x ? x : find(r, str(d) + file + ".gltf"); };
		atPath(c, S(m->GetGeometryFile_3DS_FullPath()), find(r, "models/3ds/" + file + ".3ds"), "3DS of " + w);
		atPath(c, S(m->GetGeometryFile_3DSLow_FullPath()), find(r, "models/3ds_low/" + file + ".3ds"), "low 3DS of " + w);
		atPath(c, S(m->GetGeometryFile_3DSHigh_FullPath()), find(r, "models/3ds_high/" + file + ".3ds"), "high 3DS of " + w);
		atPath(c, S(m->GetGeometryFile_SVG_FullPath()), find(r, "models/svg/" + file + ".svg"), "SVG of " + w);
		atPath(c, S(m->GetGeometryFile_SVGSide_FullPath()), find(r, "models/svg_side/" + file + ".svg"), "side SVG of " + w);
		atPath(c, S(m->GetGeometryFile_SVGFront_FullPath()), find(r, "models/svg_front/" + file + ".svg"), "front SVG of " + w);
		atPath(c, S(m->GetGeometryFile_GLTF_FullPath()), gl("models/gltf/"), "glTF of " + w); atPath(c, S(m->GetGeometryFile_GLTFLow_FullPath()), gl("models/gltf_low/"), "low glTF of " + w); atPath(c, S(m->GetGeometryFile_GLTFHigh_FullPath()), gl("models/gltf_high/"), "high glTF of " + w);
		auto mem = [&](const char* d, const char* e) -> const str* { if (file.empty()) return nullptr; const str* x = find(r, str(d) + file + e); return x ? x : find(r, file + e); };
		memory(c, m, [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBuffer3DS(p, l); }, mem("models/3ds/", ".3ds"), "3DS of " + w);
		memory(c, m, [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBufferSVG(p, l); }, mem("models/svg/", ".svg"), "SVG of " + w);
		memory(c, m, [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBufferGLTF(p, l); }, mem("models/gltf/", ".glb"), "glTF of " + w);
	}
	const E* ws = t.kid("Wheels"); n = 0; if (ws) must(f->GetWheelCount(n), "GetWheelCount");
	for (size_t i = 0; i < n; i++) {
		IGdtfWheelPtr w; must(f->GetWheelAt(i, &w), "GetWheelAt"); size_t k = 0; must(w->GetWheelSlotCount(k), "GetWheelSlotCount");
		for (size_t j = 0; j < k; j++) { IGdtfWheelSlotPtr sl; must(w->GetWheelSlotAt(j, &sl), "GetWheelSlotAt"); str g = ws->kids[i].kids[j].val("MediaFileName"); atPath(c, S(sl->GetGoboFileFullPath()), find(r, "wheels/" + g + ".png"), "image of a slot"); }
	}
}
static void verifyContainer(vp::Ctx& c, const str& z, const Res& r, const str& what)
{
	doc::Entries es; str err; try { es = doc::zipRead(z); } catch (vp::Fail& e) { c.fail("container", what + ": " + e.msg); }
	std::map<str, str> got; for (auto& e : es) c.check(got.insert({e.name, e.data}).second, "entry-twice", what + " holds " + vp::quote(e.name) + " twice");
	c.check(got.count("description.xml"), "no-description", what + " has no description.xml"); got.erase("description.xml");
	for (auto& e : r) { auto i = got.find(e.first); c.check(i != got.end(), "entry-missing", what + " lacks " + vp::quote(e.first)); if (i->second != e.second) c.fail("entry-bytes", what + fmt(" holds %zu bytes, %zu expected, or other bytes for ", i->second.size(), e.second.size()) + vp::quote(e.first)); got.erase(i); }
	c.check(got.empty(), "entry-extra", what + " holds " + (got.empty() ? str() : vp::quote(got.begin()->first)) + " that was never added");
}
static str buffered(IGdtfFixture* f) { size_t n = 0; must(f->GetBufferLength(n), "GetBufferLength"); str o(n, 0); must(f->ToBuffer(&o[0]), "ToBuffer"); return o; }

static void addSome(vp::Src& s, vp::Ctx& c, IGdtfFixture* f, Res& r, const std::vector<str>& pool, size_t n, str& log)
{
	for (size_t i = 0; i < n; i++) {
		auto& k = s.pick(folders()); str name = genName(s, k.first, pool), data = genRes(s, c), full = k.second + name; bool twice = r.count(full) > 0; int e;
		if (s.coin()) { e = f->AddBufferToGdtfFile(name.c_str(), data.data(), data.size(), k.first); log += "buffer "; }
		else if (s.chance(70)) { str p = c.scratch + "/" + s.oneof<const char*>({"src", "s.3ds", "x y"}); vp::writeFile(p, data); e = f->AddFileToGdtfFile(p.c_str(), k.first, name.c_str()); log += "file "; }
		else { str p = c.scratch + "/in"; mkdir(p.c_str(), 0777); p += "/" + name; vp::writeFile(p, data); e = f->AddFileToGdtfFile(p.c_str(), k.first, ""); log += "file-own-name "; }
		log += vp::quote(full) + fmt("(%zu%s) ", data.size(), twice ? " again" : "");
		if (twice) c.check(e != 0, "added-twice", "a second file named " + vp::quote(full) + " was accepted"); else { must(e, "adding " + vp::quote(full)); r[full] = data; }
		if (s.chance(8)) c.check(f->AddFileToGdtfFile((c.scratch + "/none").c_str(), k.first, "none") != 0, "added-nothing", "a file that does not exist was added");
	}
}
static E genTree(vp::Src& s, const std::vector<str>& pool)
{
	GenOpt o = genOpt(s); o.size = (int) s.draw(2); o.manyChannels = o.manyElements = false; Gen g(s, o); E t = g.run(); auto nm = [&]() { return s.chance(15) ? str() : stem(s, pool); };
	t.set("Thumbnail", nm()); if (E* m = t.kid("Models")) for (auto& x : m->kids) x.set("File", nm()); if (E* w = t.kid("Wheels")) for (auto& x : w->kids) for (auto& y : x.kids) y.set("MediaFileName", nm()); return t;
}
static void edit(vp::Src& s, IGdtfFixture* f, E& t, const std::vector<str>& pool, str& log)
{
	size_t n = s.count(3);
	for (size_t i = 0; i < n; i++) switch (s.draw(5)) {
		case 0: { str v = doc::genText(s); must(f->SetFixtureTypeDescription(v.c_str()), "SetFixtureTypeDescription"); t.set("Description", v); log += "description "; break; }
		case 1: { str v = stem(s, pool); must(f->SetFixtureThumbnail(v.c_str()), "SetFixtureThumbnail"); t.set("Thumbnail", v); log += "thumbnail=" + v + " "; break; }
		case 2: { E* ms = t.kid("Models"); if (!ms || ms->kids.empty()) break; size_t k = s.draw(ms->kids.size()); IGdtfModelPtr m; must(f->GetModelAt(k, &m), "GetModelAt"); str v = stem(s, pool); must(m->SetGeometryFile(v.c_str()), "SetGeometryFile"); ms->kids[k].set("File", v); log += "model=" + v + " "; break; }
		case 3: { E* ws = t.kid("Wheels"); if (!ws || ws->kids.empty()) break; size_t k = s.draw(ws->kids.size()); IGdtfWheelPtr w; must(f->GetWheelAt(k, &w), "GetWheelAt"); if (ws->kids[k].kids.empty()) break; size_t j = s.draw(ws->kids[k].kids.size()); IGdtfWheelSlotPtr sl; must(w->GetWheelSlotAt(j, &sl), "GetWheelSlotAt"); str v = stem(s, pool); must(sl->SetGobo(v.c_str()), "SetGobo"); ws->kids[k].kids[j].set("MediaFileName", v); log += "slot=" + v + " "; break; }
		default: { str v = doc::genText(s); must(f->SetLongName(v.c_str()), "SetLongName"); t.set("LongName", v); log += "longname "; break; }
	}
}
static void history(vp::Src& s, vp::Ctx& c)
{
	auto pool = genPool(s); E t = genTree(s, pool); Res r; str log; IGdtfFixturePtr f = newFixture(); str data; bool toDisk = s.coin(); str path = c.scratch + "/a.gdtf";
	bool foreign = s.chance(30); str again;
	if (foreign) {
		doc::Entries es; bool back = s.chance(20); size_t n = s.count(6);
		for (size_t i = 0; i < n; i++) { auto& k = s.pick(folders()); str full = k.second + genName(s, k.first, pool), d = genRes(s, c); if (!r.insert({full, d}).second) continue; str nm = full; if (back) for (char& ch : nm) if (ch == '/') ch = '\\'; es.push_back({nm, d}); log += vp::quote(nm) + fmt("(%zu) ", d.size()); }
		data = container(toFile(t, &s), s, es); log = "foreign " + log;
	} else {
		if (toDisk) open(f, t, path); else { VWFC::Tools::VWUUID id; (void) id; E tt = t; open(f, tt, ""); }
		bool before = s.coin(); size_t n = s.count(6); if (before) addSome(s, c, f, r, pool, n, log); Build b; b.f = f; b.run(t);
		// the buffer can be asked for while building, the file is still written on closing
		if (s.chance(25)) { must(f->RefreshBuffer(), "RefreshBuffer"); verifyContainer(c, buffered(f), r, "the buffer of the open fixture"); log += "refresh "; }
		addSome(s, c, f, r, pool, before ? s.count(2) : n, log);
		must(f->Close(), "Close"); data = buffered(f); log += "close ";
		if (toDisk) { str d = vp::readFile(path); verifyContainer(c, d, r, "the file"); if (s.coin()) data = d; } verifyContainer(c, data, r, "the buffer");
		if (s.chance(30)) { addSome(s, c, f, r, pool, s.count(2), log); edit(s, f, t, pool, log); must(f->RefreshBuffer(), "RefreshBuffer"); data = buffered(f); verifyContainer(c, data, r, "the refreshed buffer of the built fixture"); log += "refresh-after-close "; }
	}
	size_t rounds = 1 + s.draw(3); bool written = !foreign; if (foreign) t = normalise(t, false);
	for (size_t i = 0; i < rounds; i++) {
		bool sameObj = s.chance(25); IGdtfFixturePtr g = sameObj ? f : newFixture(); c.sample = doc::render(t) + "\n" + log;
		readFrom(g, data, s.coin(), c, s.oneof<const char*>({"in.gdtf", "b c.gdtf", "x"})); log += "read "; noErrors(g); c.sample = doc::render(t) + "\n" + log; verifyRead(c, g, t, r, written); f = g; written = true; t = normalise(t, true);
		if (s.coin()) { str d = buffered(f); if (d != data) c.fail("buffer-changed", "the buffer of a fixture that was just read is not the one it was read from"); }
		edit(s, f, t, pool, log); size_t n = s.count(3); must(f->RefreshBuffer(), "RefreshBuffer"); data = buffered(f); verifyContainer(c, data, r, "the refreshed buffer"); log += "refresh ";
		if (n) { addSome(s, c, f, r, pool, n, log); if (s.coin()) edit(s, f, t, pool, log); must(f->RefreshBuffer(), "RefreshBuffer"); data = buffered(f); verifyContainer(c, data, r, "the refreshed buffer after adding files"); log += "refresh "; }
	}
	IGdtfFixturePtr g = newFixture(); readFrom(g, data, s.coin(), c); noErrors(g); c.sample = doc::render(t) + "\n" + log; verifyRead(c, g, t, r, true); c.nontrivial = r.size() >= 2;
}
static void modelBuffers(vp::Src& s, vp::Ctx& c)
{
	IGdtfFixturePtr f = newFixture(); must(f->OpenForWrite("", "N", "M", MvrUUID(1, 2, 3, 4)), "OpenForWrite"); size_t n = 1 + s.draw(3); std::vector<IGdtfModelPtr> ms(n); std::vector<std::map<int, str>> have(n); str log;
	for (size_t i = 0; i < n; i++) must(f->CreateModel(fmt("m%zu", i).c_str(), &ms[i]), "CreateModel");
	size_t k = 1 + s.count(8);
	for (size_t i = 0; i < k; i++) {
		size_t m = s.draw(n); int kind = (int) s.draw(3); str d = genBytes(s, 3000); std::vector<char> src(d.begin(), d.end()); src.push_back(0); int e = kind == 0 ? ms[m]->SetBuffer3DS(src.data(), d.size()) : kind == 1 ? ms[m]->SetBufferSVG(src.data(), d.size()) : ms[m]->SetBufferGLTF(src.data(), d.size());
		must(e, "SetBuffer"); have[m][kind] = d; log += fmt("model %zu kind %d %zu bytes; ", m, kind, d.size());
	}
	c.sample = log; c.nontrivial = k >= 2;
	for (size_t i = 0; i < n; i++) {
		auto w = [&](int q) { auto x = have[i].find(q); return x == have[i].end() ? nullptr : &x->second; };
		memory(c, ms[i], [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBuffer3DS(p, l); }, w(0), "3DS"); memory(c, ms[i], [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBufferSVG(p, l); }, w(1), "SVG"); memory(c, ms[i], [](IGdtfModel* x, void** p, size_t& l) { return (int) x->GetBufferGLTF(p, l); }, w(2), "glTF");
	}
}
// several fixtures read into memory at the same time do not disturb each other's resources, whatever they are read from and in whatever order they go
static void alive(vp::Src& s, vp::Ctx& c)
{
	struct One { IGdtfFixturePtr f; E t; Res r; }; std::vector<One> all; auto pool = genPool(s); size_t steps = 2 + s.draw(5); str log; bool replaced = false; size_t most = 0;
	auto names = std::vector<const char*>{"in.gdtf", "IN.gdtf", "in_1.gdtf", "x"};
	for (size_t k = 0; k < steps; k++) {
		if (!all.empty() && s.chance(25)) { size_t i = s.draw(all.size()); all.erase(all.begin() + i); log += fmt("free %zu; ", i); }
		else {
			One o; o.t = genTree(s, pool); doc::Entries es; size_t n = s.count(4);
			for (size_t i = 0; i < n; i++) { auto& q = s.pick(folders()); str full = q.second + genName(s, q.first, pool), d = genBytes(s, 200); if (o.r.insert({full, d}).second) es.push_back({full, d}); }
			str data = container(toFile(o.t, &s), s, es); o.t = normalise(o.t, false); bool file = s.coin(), again = !all.empty() && s.chance(20); const char* name = s.pick(names);
			size_t at = again ? s.draw(all.size()) : all.size(); o.f = again ? all[at].f : newFixture(); readFrom(o.f, data, file, c, name); noErrors(o.f); replaced |= again;
			if (again) all[at] = o; else all.push_back(o); log += fmt("%s %zu from a %s with %zu files; ", again ? "read again into" : "read", at, file ? name : "buffer", o.r.size()); most = std::max(most, all.size());
		}
		c.sample = log; for (auto& o : all) verifyRead(c, o.f, o.t, o.r, false);
	}
	c.nontrivial = most >= 2; if (replaced) c.label("replaced");
}
// the files extracted for an object are gone when the object is
static void tidy(vp::Src& s, vp::Ctx& c, void (*run)(vp::Src&, vp::Ctx&))
{
	str home = c.scratch.substr(0, c.scratch.rfind('/')) + "/s1/s2/s3/s4/s5/home"; auto was = vp::listTree(home); std::set<str> before(was.begin(), was.end());
	run(s, c);
	for (auto& x : vp::listTree(home)) c.check(before.count(x) > 0, "left-behind", "all objects are released, and " + vp::quote(x) + " is still in the folder of the library");
}
VP_SUITE
{
	s.property = "G03"; s.rule = "at least two files were added"; s.quickCases = 12000; s.thoroughCases = 200000;
	s.props.push_back({"history", 12, [](vp::Src& a, vp::Ctx& b) { tidy(a, b, history); }});
	s.props.push_back({"alive", 3, [](vp::Src& a, vp::Ctx& b) { tidy(a, b, alive); }});
	s.props.push_back({"model-buffers", 1, modelBuffers});
}
