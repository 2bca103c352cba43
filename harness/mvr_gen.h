// Generator of MVR scene trees and the model of what a saved scene holds.
#pragma once
#include "mvr_api.h"

namespace mvr {

// text of an element: a text of blanks only is not distinguishable from none (XML reader drops it)
static inline str genBody(vp::Src& s, size_t max = 20) { str t = doc::genText(s, max); return t.find_first_not_of(" \n\t") == str::npos ? str() : t; }
static inline str genFile(vp::Src& s) { str o; size_t n = 1 + s.count(10); for (size_t i = 0; i < n; i++) o += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"[s.draw(44)]; return o + s.oneof({".glb", ".3ds", "", ".gltf"}); }
static inline str genVec(vp::Src& s) { return doc::genDbl(s) + " " + doc::genDbl(s) + " " + doc::genDbl(s); }

struct Gen {
	vp::Src& s; int size; bool files = false;
	std::set<str> used; std::vector<str> classes, positions, symdefs, mapdefs, objs, focus; size_t budget = 40;
	Gen(vp::Src& src, int sz) : s(src), size(sz) {}
	size_t n(size_t max) { return s.count(size <= 0 ? std::min<size_t>(max, 1) : size == 1 ? std::min<size_t>(max, 2) : max); }
	str uuid() { str u; do u = genUuid(s); while (u == "00000000-0000-0000-0000-000000000000" || !used.insert(u).second); return u; }
	E source() { E q("Source"); q.set("linkedGeometry", s.coin() ? str() : doc::genText(s, 10)); q.set("type", s.pick(texts(eSource))); q.text = genBody(s); return q; }
	void geometries(E& out, const std::vector<str>& syms)
	{
		size_t k = n(3);
		for (size_t i = 0; i < k; i++) {
			if (!syms.empty() && s.coin()) { E& e = out.add("Symbol"); e.set("symdef", s.pick(syms)); e.set("~m", genMat(s, true)); e.set("~uuid", genUuid(s)); }
			else { E& e = out.add("Geometry3D"); e.set("fileName", genFile(s)); e.set("~m", genMat(s, true)); }
		}
	}
	E obj(int depth)
	{
		static const std::vector<str> kinds = {"Fixture", "Fixture", "Fixture", "GroupObject", "GroupObject", "SceneObject", "FocusPoint", "Truss", "Support", "VideoScreen", "Projector"};
		E e(depth ? s.pick(kinds) : str("Layer")); const str k = e.name;
		e.set("name", s.chance(20) ? str() : doc::genText(s, 15)); e.set("uuid", uuid()); e.set("~m", k == "Layer" && !files ? kIdent : genMat(s, true));
		if (hasPatch(k)) objs.push_back(e.val("uuid")); if (k == "FocusPoint") focus.push_back(e.val("uuid"));
		if (hasSpec(k)) { e.set("GDTFSpec", s.coin() ? str() : genBody(s)); e.set("GDTFMode", s.coin() ? str() : genBody(s)); }
		if (k == "Fixture") { doc::genAttrs(fixTab(), e, s); for (auto a : {"FixtureID", "Gobo", "Function"}) if (e.val(a).find_first_not_of(" \n\t") == str::npos) e.set(a, ""); }
		if (k == "Projector") e.set("ScaleHandling", s.pick(texts(eScale)));
		if (k == "Fixture") {
			E& ad = e.add("Addresses"); size_t c = n(5); std::set<int> br;
			for (size_t i = 0; i < c; i++) { int b = (int) (s.coin() ? (int64_t) i : s.range(0, 100)); if (!br.insert(b).second) continue; E& a = ad.add("Address"); a.set("break", itext(b)); a.text = itext(s.coin() ? s.range(0, 1024) : s.range(0, kI32)); }
			E& mp = e.add("Mappings"); c = mapdefs.empty() ? 0 : n(3); std::set<str> ds;
			for (size_t i = 0; i < c; i++) { str d = s.chance(90) ? s.pick(mapdefs) : genUuid(s); if (!ds.insert(d).second) continue; E& m = mp.add("Mapping"); m.set("linkedDef", d); for (auto f : {"ux", "uy", "ox", "oy"}) m.set(f, itext(s.coin() ? s.range(0, 2000) : s.range(0, kI32))); m.set("rz", doc::genDbl(s)); }
			E& pr = e.add("Protocols"); c = n(3); for (size_t i = 0; i < c; i++) { E& p = pr.add("Protocol"); p.set("geometry", s.chance(30) ? str() : doc::genText(s, 10)); p.set("name", doc::genText(s, 10)); p.set("type", doc::genText(s, 10)); p.set("version", doc::genText(s, 6)); p.set("transmission", s.pick(texts(eTrans))); }
		}
		{ size_t c; E& cn = e.add("Connections"); c = n(3); for (size_t i = 0; i < c; i++) { E& p = cn.add("Connection"); p.set("own", doc::genText(s, 10)); p.set("other", doc::genText(s, 10)); p.set("toObject", !objs.empty() && s.coin() ? s.pick(objs) : genUuid(s)); } }
		if ((k == "Projector" || k == "VideoScreen") && s.chance(70)) e.kids.push_back(source());
		geometries(e.add("Geometries"), symdefs);
		size_t c = n(2); E& cc = e.add("CustomCommands"); for (size_t i = 0; i < c; i++) { E& x = cc.add("CustomCommand"); x.set("function", s.coin() ? "Body_" + doc::genNameRaw(s, true) + ",f" : doc::genText(s, 12)); x.set("percent", s.coin() ? "true" : "false"); x.set("value", doc::genDbl(s)); if (s.chance(10)) x.set("function", "a/percent" + x.val("function") + ","); }
		c = n(2); E& al = e.add("Alignments"); for (size_t i = 0; i < c; i++) { E& x = al.add("Alignment"); x.set("geometry", doc::genText(s, 10)); x.set("up", s.chance(20) ? kZero : genVec(s)); x.set("direction", s.chance(20) ? kZero : genVec(s)); }
		c = n(2); E& ow = e.add("Overwrites"); for (size_t i = 0; i < c; i++) { E& x = ow.add("Overwrite"); x.set("universal", doc::genText(s, 10)); x.set("target", doc::genText(s, 10)); }
		E l("ChildList"); c = depth >= 6 ? 0 : depth == 0 ? n(6) : k == "GroupObject" ? n(4) : s.chance(25) ? n(3) : 0;
		for (size_t i = 0; i < c && budget; i++) { budget--; l.kids.push_back(obj(depth + 1)); }
		e.kids.push_back(l); return e;
	}
	void links(E& e)
	{
		if (hasPatch(e.name) && isObj(e)) {
			if (!classes.empty() && s.coin()) e.set("Classing", s.pick(classes));
			if (s.chance(30)) { const str& p = s.pick(objs); if (p != e.val("uuid")) e.set("multipatch", p); }
			if (e.name == "Fixture") { if (!focus.empty() && s.coin()) e.set("Focus", s.pick(focus)); if (!positions.empty() && s.coin()) e.set("Position", s.pick(positions)); }
		}
		for (auto& k : e.kids) links(k);
	}
	E run()
	{
		E t("MVR"); E& ud = t.add("UserData"); size_t k = n(2);
		for (size_t i = 0; i < k; i++) { E& d = ud.add("Data"); d.set("provider", doc::genText(s, 10)); d.set("ver", doc::genText(s, 6)); size_t q = n(3); for (size_t j = 0; j < q; j++) { E& x = d.add("VWEntry"); x.set("key", doc::genText(s, 10)); x.text = genBody(s, 40); } }
		doc::Names cn, pn; E& cl = t.add("Classes"); k = n(4); for (size_t i = 0; i < k; i++) { E& e = cl.add("Class"); e.set("uuid", uuid()); e.set("name", cn.fresh(s, true)); classes.push_back(e.val("uuid")); }
		E& po = t.add("Positions"); k = n(4); for (size_t i = 0; i < k; i++) { E& e = po.add("Position"); e.set("uuid", uuid()); e.set("name", pn.fresh(s, true)); positions.push_back(e.val("uuid")); }
		E& sy = t.add("Symdefs"); k = n(4); for (size_t i = 0; i < k; i++) { E& e = sy.add("Symdef"); e.set("uuid", uuid()); e.set("name", doc::genText(s, 10)); symdefs.push_back(e.val("uuid")); }
		// a symbol definition may use any definition but itself (no cycles: later ones use earlier ones, or the other way round)
		bool rev = s.coin();
		for (size_t i = 0; i < sy.kids.size(); i++) { std::vector<str> can; for (size_t j = 0; j < symdefs.size(); j++) if (rev ? j > i : j < i) can.push_back(symdefs[j]); geometries(sy.kids[i], can); sy.kids[i].set("~contains", sy.kids[i].count("Symbol") ? "true" : "false"); }
		E& md = t.add("MappingDefinitions"); k = n(3); for (size_t i = 0; i < k; i++) { E& e = md.add("MappingDefinition"); e.set("uuid", uuid()); e.set("name", doc::genText(s, 10)); e.set("SizeX", itext(s.range(0, kI32))); e.set("SizeY", itext(s.range(0, 4000))); e.set("ScaleHandling", s.pick(texts(eScale))); if (s.chance(70)) e.kids.push_back(source()); mapdefs.push_back(e.val("uuid")); }
		E& la = t.add("Layers"); k = (size >= 1 ? 1 : 0) + n(3); for (size_t i = 0; i < k; i++) la.kids.push_back(obj(0));
		links(la); return t;
	}
};

static inline void strip(E& e) { e.del("~uuid"); for (auto& k : e.kids) strip(k); }
static inline void common(E& t, bool keep = false)
{
	if (!keep) strip(t);
	each(t, [](E& e) { if (e.name == "Protocol" && e.val("geometry").empty()) e.set("geometry", "NetworkInOut_1"); });
}
// the scene while it is being built
static inline E asBuilt(E t) { common(t); return t; }
// the scene after saving and opening: groups without content are not saved
static inline void dropEmpty(E& e) { if (auto l = e.kid("ChildList")) { std::vector<E> keep; for (auto& k : l->kids) if (k.name != "GroupObject" || !k.kid("ChildList")->kids.empty()) keep.push_back(k); l->kids = keep; for (auto& k : l->kids) dropEmpty(k); } }
static inline E saved(E t, bool keep = false)
{
	common(t, keep); for (auto& l : t.kid("Layers")->kids) dropEmpty(l);
	each(t, [](E& e) { if (e.name == "Fixture" && e.val("Gobo").empty()) e.set("GoboRotation", dtext(0)); });
	return t;
}
static inline size_t count(E& t, const std::function<bool(E&)>& f) { size_t n = 0; each(t, [&](E& e) { if (isObj(e) && f(e)) n++; }); return n; }
// attribute order is of no meaning: both sides sorted
static inline void sorted(E& e) { std::stable_sort(e.at.begin(), e.at.end()); for (auto& k : e.kids) sorted(k); }
} // namespace mvr
