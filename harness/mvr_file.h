// Writing a scene description the way another tool could: one of the many forms the format allows
// for the same content.
#pragma once
#include "mvr_gen.h"
#include "gdtf_file.h"

namespace mvr {

struct FileOut {
	vp::Src* s = nullptr; bool canonical = false; gdtf::FileOut g;
	FileOut(vp::Src* src, bool canon) : s(src), canonical(canon) { g.s = src; g.o.canonical = canon; }
	bool yes(int pct) { return s && !canonical && s->chance(pct); }
	str uid(const str& u) { return yes(30) ? doc::lower(u) : u; }
	str num(const str& t) { return g.num(t); }
	str mat(const str& t)
	{
		double v[16] = {0}; matNums(t, v); str o; bool sp = yes(15);
		for (int r = 0; r < 4; r++) { o += "{"; for (int c = 0; c < 3; c++) { o += num(dtext(v[3 * r + c])); if (c < 2) o += sp ? ", " : ","; } o += "}"; }
		return o;
	}
	// the three numbers of a vector: {x,y,z}
	str vec(const str& t) { SVector3 v = toVec(t); return "{" + num(dtext(v.x)) + "," + num(dtext(v.y)) + "," + num(dtext(v.z)) + "}"; }
	void text(E& x, const str& n, const str& v, const str& def = "\x01") { if (v == def && (canonical ? false : yes(50))) return; x.add(n).text = v; }
	void list(E& x, const str& n, std::vector<E> kids, bool always) { if (kids.empty() && !(canonical ? always : yes(40))) return; E& l = x.add(n); l.kids = kids; }
	void matrix(E& x, const str& t) { if (t == kIdent && !yes(40)) return; x.add("Matrix").text = mat(t); }
	void name(E& x, const E& e) { if (!e.val("name").empty() || yes(30)) x.set("name", e.val("name")); }
	void shuffle(E& x) { if (!canonical && s && s->coin()) for (size_t i = x.kids.size(); i > 1; i--) std::swap(x.kids[i - 1], x.kids[s->draw(i)]); }
	E source(const E& q) { E x("Source"); if (!q.val("linkedGeometry").empty() || yes(30)) x.set("linkedGeometry", q.val("linkedGeometry")); if (!(q.val("type") == "NDI" && yes(30))) x.set("type", q.val("type")); x.text = q.text; return x; }
	std::vector<E> geometries(const E& l)
	{
		std::vector<E> o;
		for (auto& k : l.kids) {
			E x(k.name); if (k.name == "Symbol") { x.set("uuid", k.val("~uuid")); x.set("symdef", uid(k.val("symdef"))); } else x.set("fileName", k.val("fileName"));
			matrix(x, k.val("~m")); o.push_back(x);
		}
		return o;
	}
	E obj(const E& e)
	{
		const str& k = e.name; E x(k); x.set("uuid", uid(e.val("uuid"))); name(x, e); if (e.has("multipatch")) x.set("multipatch", uid(e.val("multipatch")));
		matrix(x, e.val("~m"));
		list(x, "Geometries", geometries(*e.kid("Geometries")), false);
		std::vector<E> l;
		for (auto& a : e.kid("CustomCommands")->kids) { E y("CustomCommand"); y.text = a.val("function") + (a.val("percent") == "true" ? "/percent" : "") + ",f " + num(a.val("value")); l.push_back(y); }
		list(x, "CustomCommands", l, false); l.clear();
		for (auto& a : e.kid("Alignments")->kids) { E y("Alignment"); y.set("geometry", a.val("geometry")); y.set("up", vec(a.val("up"))); y.set("direction", vec(a.val("direction"))); l.push_back(y); }
		list(x, "Alignments", l, false); l.clear();
		for (auto& a : e.kid("Overwrites")->kids) { E y("Overwrite"); y.set("universal", a.val("universal")); y.set("target", a.val("target")); l.push_back(y); }
		list(x, "Overwrites", l, false); l.clear();
		if (e.has("Classing")) x.add("Classing").text = uid(e.val("Classing"));
		for (auto& a : e.kid("Connections")->kids) { E y("Connection"); y.set("own", a.val("own")); y.set("other", a.val("other")); y.set("toObject", uid(a.val("toObject"))); l.push_back(y); }
		list(x, "Connections", l, false); l.clear();
		for (auto& a : e.kid("ChildList")->kids) l.push_back(obj(a));
		list(x, "ChildList", l, false); l.clear();
		if (hasSpec(k)) { text(x, "GDTFSpec", e.val("GDTFSpec"), ""); text(x, "GDTFMode", e.val("GDTFMode"), ""); }
		if (k == "Fixture") fixture(x, e);
		if (k == "VideoScreen") { if (auto q = e.kid("Source")) l.push_back(source(*q)); list(x, "Sources", l, true); }
		if (k == "Projector") {
			E p("Projection"); if (auto q = e.kid("Source")) p.kids.push_back(source(*q)); text(p, "ScaleHandling", e.val("ScaleHandling"), "ScaleKeepRatio"); shuffle(p);
			if (!p.kids.empty() || canonical || yes(50)) { l.push_back(p); } list(x, "Projections", l, true);
		}
		shuffle(x); return x;
	}
	void fixture(E& x, const E& e)
	{
		if (e.has("Focus")) x.add("Focus").text = uid(e.val("Focus")); if (e.has("Position")) x.add("Position").text = uid(e.val("Position"));
		std::vector<E> l;
		for (auto& a : e.kid("Addresses")->kids) { E y("Address"); if (!(a.val("break") == "0" && yes(30))) y.set("break", a.val("break")); unsigned long long v = uval(a.text); y.text = v && v < (1u << 24) && yes(40) ? fmt("%llu.%llu", (v - 1) / 512 + 1, (v - 1) % 512 + 1) : a.text; l.push_back(y); }
		list(x, "Addresses", l, true); l.clear();
		text(x, "FixtureID", e.val("FixtureID"), ""); if (e.val("FixtureIDNumeric") != "0" || yes(50)) x.add("FixtureIDNumeric").text = e.val("FixtureIDNumeric");
		text(x, "UnitNumber", e.val("UnitNumber"), "0"); text(x, "FixtureTypeId", e.val("FixtureTypeId"), "0"); text(x, "CustomId", e.val("CustomId"), "0");
		if (!(e.val("Color") == kMvrColor && yes(50))) x.add("Color").text = g.list(e.val("Color"));
		if (!e.val("Gobo").empty()) { E& y = x.add("Gobo"); y.text = e.val("Gobo"); if (!(e.val("GoboRotation") == dtext(0) && yes(50))) y.set("rotation", num(e.val("GoboRotation"))); }
		if (!e.val("Function").empty()) x.add("Function").text = e.val("Function");
		text(x, "CastShadow", e.val("CastShadow"), "false");
		for (auto& a : e.kid("Mappings")->kids) { E y("Mapping"); y.set("linkedDef", uid(a.val("linkedDef"))); for (auto n : {"ux", "uy", "ox", "oy"}) text(y, n, a.val(n), "0"); if (!(a.val("rz") == dtext(0) && yes(50))) y.add("rz").text = num(a.val("rz")); shuffle(y); l.push_back(y); }
		list(x, "Mappings", l, true); l.clear();
		text(x, "DMXInvertPan", e.val("DMXInvertPan"), "false"); text(x, "DMXInvertTilt", e.val("DMXInvertTilt"), "false");
		for (auto& a : e.kid("Protocols")->kids) {
			E y("Protocol"); str ge = a.val("geometry"); if (ge.empty()) ge = "NetworkInOut_1"; if (!(ge == "NetworkInOut_1" && yes(50))) y.set("geometry", ge);
			for (auto n : {"name", "type", "version"}) if (!a.val(n).empty() || canonical || yes(50)) y.set(n, a.val(n));
			if (!(a.val("transmission") == "Anycast" && yes(50))) y.set("transmission", a.val("transmission")); l.push_back(y);
		}
		list(x, "Protocols", l, true);
	}
	E run(const E& t)
	{
		E r("GeneralSceneDescription"); r.set("verMajor", "1"); r.set("verMinor", canonical ? "6" : itext(s->range(4, 6)));
		if (canonical || yes(70)) { r.set("provider", canonical ? "prov" : doc::genText(*s, 8)); r.set("providerVersion", canonical ? "1.0" : doc::genText(*s, 5)); }
		std::vector<E> l;
		for (auto& d : t.kid("UserData")->kids) { E x("Data"); x.set("provider", d.val("provider")); x.set("ver", d.val("ver")); x.kids = d.kids; l.push_back(x); }
		list(r, "UserData", l, true); l.clear();
		E& sc = r.add("Scene"); E la("Layers"), ad("AUXData");
		for (auto& o : t.kid("Layers")->kids) la.kids.push_back(obj(o));
		// kinds may be interleaved
		std::vector<std::vector<E>> q;
		for (auto& e : t.kid("MappingDefinitions")->kids) { E x(e.name); x.set("uuid", uid(e.val("uuid"))); name(x, e); text(x, "SizeX", e.val("SizeX"), "0"); text(x, "SizeY", e.val("SizeY"), "0"); if (auto z = e.kid("Source")) x.kids.push_back(source(*z)); text(x, "ScaleHandling", e.val("ScaleHandling"), "ScaleKeepRatio"); shuffle(x); l.push_back(x); }
		q.push_back(l); l.clear();
		for (auto n : {"Positions", "Classes"}) { for (auto& e : t.kid(n)->kids) { E x(e.name); x.set("uuid", uid(e.val("uuid"))); name(x, e); l.push_back(x); } q.push_back(l); l.clear(); }
		for (auto& e : t.kid("Symdefs")->kids) { E x(e.name); x.set("uuid", uid(e.val("uuid"))); name(x, e); list(x, "ChildList", geometries(e), true); l.push_back(x); }
		q.push_back(l); l.clear();
		bool mix = yes(50); std::vector<size_t> at(q.size(), 0);
		for (;;) { std::vector<size_t> open; for (size_t i = 0; i < q.size(); i++) if (at[i] < q[i].size()) open.push_back(i); if (open.empty()) break; size_t i = mix ? s->pick(open) : open[0]; ad.kids.push_back(q[i][at[i]++]); }
		if (!la.kids.empty() || canonical || yes(60)) sc.kids.push_back(la);
		if (!ad.kids.empty() || canonical || yes(60)) sc.kids.push_back(ad);
		shuffle(sc); shuffle(r); return r;
	}
};
static inline E toFile(const E& t, vp::Src& s) { return FileOut(&s, false).run(t); }
// the scene an opened file reports: nothing is dropped
static inline E read(E t)
{
	common(t); each(t, [](E& e) { if (e.name == "Fixture" && e.val("Gobo").empty()) e.set("GoboRotation", dtext(0)); }); return t;
}
static inline str container(const E& root, vp::Src& s, const doc::Entries& more = {})
{
	doc::Entries es = more; es.insert(es.begin() + s.draw(es.size() + 1), {"GeneralSceneDescription.xml", doc::xmlDoc(root, doc::genStyle(s), s)});
	doc::ZipStyle z; z.mode = (int) s.draw(3); z.level = (int) s.range(1, 9); z.extra = s.chance(20); z.comment = s.chance(20); z.utf8flag = s.chance(20); z.longExtra = s.chance(3);
	return doc::zipWrite(es, z, &s);
}
static inline Mvr open(const str& data, vp::Ctx& c, const str& name = "in.mvr") { vp::writeFile(c.scratch + "/" + name, data); Mvr m = newMvr(); must(m->OpenForRead((c.scratch + "/" + name).c_str()), "OpenForRead"); return m; }
// the same, independent of the order of elements of different kinds
static inline void canon(E& e)
{
	static const std::set<str> lists = {"ChildList", "Geometries", "CustomCommands", "Alignments", "Overwrites", "Connections", "Sources", "Mappings", "Protocols", "Addresses"};
	std::vector<E> k; for (auto& x : e.kids) if (!(lists.count(x.name) && x.kids.empty() && x.at.empty())) k.push_back(x);
	if (!lists.count(e.name) && e.name != "Layers") std::stable_sort(k.begin(), k.end(), [](const E& a, const E& b) { return a.name < b.name; });
	e.kids = k; for (auto& x : e.kids) canon(x);
}
} // namespace mvr
