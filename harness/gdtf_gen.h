// Generator of GDTF fixture trees, the model of what a written or read fixture must look like
// (normalise), and the conversion of a tree to a GDTF description another tool could have written.
#pragma once
#include "gdtf_api.h"

namespace gdtf {

struct GenOpt {
	int size = 2;               // 0..3
	bool manyChannels = false;  // at least 64 channels in a mode
	bool manyElements = false;  // at least 128 elements
	bool attributes = true, wheels = true, physical = true, geometry = true, dmx = true, protocols = true;
	bool overlaps = true;       // functions with equal DMX ranges told apart by mode masters
	bool files = false;         // the tree is for a file: more than the interface can build
};

static inline str genUuid(vp::Src& s)
{
	str h; for (int i = 0; i < 4; i++) h += fmt("%08X", (unsigned) (s.chance(10) ? s.oneof({0u, 0xffffffffu, 0x80000000u, 1u}) : (unsigned) s.draw(1ull << 32)));
	return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20);
}
static inline str genMat(vp::Src& s, bool offset)
{
	if (s.chance(20)) return kIdent;
	// next to the identity: one value, or two, differ from it
	if (s.chance(25)) {
		double v[12] = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; str r; size_t m = offset ? 12 : 9;
		for (size_t k = 1 + s.draw(2); k--;) { size_t i = s.draw(m); v[i] = s.coin() ? v[i] + s.oneof<double>({0.000001, -0.000001, 0.0005, -0.0005, 0.01, 1000000}) : s.coin() ? -v[i] : 0; }
		for (int i = 0; i < 12; i++) { if (i) r += " "; double x = strtod(fmt("%.6f", v[i]).c_str(), nullptr); r += dtext(x == 0 ? 0 : x); }
		return r;
	}
	str o; for (int i = 0; i < 12; i++) { if (i) o += " "; o += (i >= 9 && !offset) ? dtext(0) : doc::genDbl(s); }
	return o;
}

struct Gen {
	vp::Src& s; GenOpt o;
	std::vector<str> attrs, wheels, emits, filters, spaces, gamuts, profs, models, geos, topGeos, wiring, modes, feats, acts;
	std::map<str, std::vector<str>> subUnits; std::map<str, str> unitText; std::map<str, size_t> slots;
	doc::Names geoNames{true};
	Gen(vp::Src& src, GenOpt opt) : s(src), o(opt) {}
	size_t n(size_t max) { return s.count(o.size <= 0 ? std::min<size_t>(max, 1) : o.size == 1 ? std::min<size_t>(max, 2) : max); }

	void genGeometry(E& out, int depth, bool inRef)
	{
		static const std::vector<str> kinds = {"Geometry", "Geometry", "Axis", "Beam", "FilterBeam", "FilterColor", "FilterGobo", "FilterShaper", "GeometryReference", "MediaServerCamera", "MediaServerLayer", "MediaServerMaster", "Display", "Laser", "WiringObject", "Inventory", "Structure", "Support", "Magnet"};
		E& g = out.add(s.pick(kinds)); str name = geoNames.fresh(s); g.set("Name", name); geos.push_back(name); if (depth == 0) topGeos.push_back(name); if (g.name == "WiringObject") wiring.push_back(name);
		g.set("~Position", genMat(s, true)); if (!models.empty() && s.chance(60)) g.set("Model", s.pick(models));
		doc::genAttrs(geoTab(g.name), g, s);
		if (g.name == "Support") g.set("~RopeOffset", doc::genDbl(s) + " " + doc::genDbl(s) + " " + doc::genDbl(s));
		if (g.name == "Beam" && !emits.empty() && s.coin()) g.set("EmitterSpectrum", s.pick(emits));
		if (g.name == "Laser") { if (!emits.empty() && s.coin()) g.set("Emitter", s.pick(emits)); size_t k = n(3); for (size_t i = 0; i < k; i++) g.add("Protocol").set("Name", doc::genNameRaw(s, true)); }
		if (g.name == "GeometryReference") { size_t k = n(4); for (size_t i = 0; i < k; i++) { E& b = g.add("Break"); b.set("DMXBreak", itext(s.range(1, 6))); b.set("DMXOffset", itext(s.coin() ? s.range(1, 30) : s.coin() ? s.range(1, 512) : s.range(1, 65536))); } return; }
		size_t k = depth >= 4 ? 0 : n(depth ? 2 : 4);
		for (size_t i = 0; i < k; i++) { E tmp("x"); genGeometry(tmp, depth + 1, inRef); g.kids.push_back(tmp.kids[0]); }
	}
	void linkGeometry(E& g)
	{
		if (g.name == "GeometryReference") g.set("Geometry", s.pick(topGeos));
		if (g.name == "Structure" && s.coin()) g.set("LinkedGeometry", s.pick(geos));
		std::vector<E> pins;
		if (g.name == "WiringObject") { size_t k = n(3); for (size_t i = 0; i < k; i++) { E p("PinPatch"); p.set("ToWiringObject", s.pick(wiring)); p.set("FromPin", itext(s.range(0, 20))); p.set("ToPin", itext(s.range(0, 20))); pins.push_back(p); } }
		for (auto& k : g.kids) linkGeometry(k);
		g.kids.insert(g.kids.begin(), pins.begin(), pins.end());
	}
	uint64_t dmx(uint64_t lo, uint64_t hi) { switch (s.draw(4)) { case 0: return lo; case 1: return hi; case 2: return lo + s.draw(std::min<uint64_t>(hi - lo, 40) + 1); default: return lo + s.draw(hi - lo + 1); } }
	// k strictly increasing values in [lo,hi], the first is lo if firstAtLo
	std::vector<uint64_t> starts(uint64_t lo, uint64_t hi, size_t k, bool firstAtLo)
	{
		std::set<uint64_t> v; if (firstAtLo && k) v.insert(lo);
		for (size_t i = 0; i < k * 3 && v.size() < k; i++) v.insert(dmx(lo, hi));
		return std::vector<uint64_t>(v.begin(), v.end());
	}
	void genFunction(E& l, const str& attr, int res, uint64_t from, uint64_t end, doc::Names& fnames, bool allowSubSets)
	{
		E& f = l.add("ChannelFunction"); f.set("Name", s.chance(25) ? str() : fnames.fresh(s)); f.set("Attribute", s.chance(70) ? attr : s.pick(attrs));
		f.set("DMXFrom", dmxText(from, res)); f.set("~End", utext(end)); f.set("Default", dmxText(s.chance(30) ? 0 : dmx(0, maxFor(res)), res));
		doc::genAttrs(funTab(), f, s);
		str w;
		if (!wheels.empty() && s.chance(30)) { w = s.pick(wheels); f.set("Wheel", w); }
		if (!emits.empty() && s.chance(20)) f.set("Emitter", s.pick(emits)); if (!filters.empty() && s.chance(20)) f.set("Filter", s.pick(filters));
		if (!spaces.empty() && s.chance(20)) f.set("ColorSpace", s.pick(spaces)); if (!gamuts.empty() && s.chance(20)) f.set("Gamut", s.pick(gamuts)); if (!profs.empty() && s.chance(20)) f.set("DMXProfile", s.pick(profs));
		size_t k = n(4); auto st = starts(from, end, k, s.chance(50));
		for (size_t i = 0; i < st.size(); i++) {
			E& c = f.add("ChannelSet"); c.set("Name", s.chance(20) ? str() : doc::genNameRaw(s, true)); uint64_t lim = i + 1 < st.size() ? st[i + 1] - 1 : end;
			c.set("DMXFrom", dmxText(st[i], res)); c.set("~End", utext(s.chance(50) ? lim : dmx(st[i], lim)));
			if (s.coin()) { c.set("PhysicalFrom", doc::genDbl(s)); c.set("PhysicalTo", doc::genDbl(s)); }
			c.set("WheelSlotIndex", itext(w.empty() ? s.range(0, 3) : s.range(0, slots[w])));
		}
		auto& su = subUnits[f.val("Attribute")];
		if (!su.empty() && allowSubSets) { size_t m = n(2); for (size_t i = 0; i < m; i++) { E& c = f.add("SubChannelSet"); c.set("Name", doc::genNameRaw(s, true)); doc::genAttrs(subSetTab(), c, s); c.set("SubPhysicalUnit", s.pick(su)); c.set("~Unit", unitText[f.val("Attribute") + "|" + c.val("SubPhysicalUnit")]); if (!profs.empty() && s.coin()) c.set("DMXProfile", s.pick(profs)); } }
	}
	void genMode(E& out, doc::Names& names, size_t minChannels)
	{
		E& m = out.add("DMXMode"); str mn = names.fresh(s); m.set("Name", mn); modes.push_back(mn); m.set("Description", doc::genText(s)); m.set("Geometry", s.pick(topGeos));
		E chans("DMXChannels"), rels("Relations"), macs("FTMacros");
		size_t k = minChannels ? minChannels + s.draw(20) : n(5); bool simple = minChannels > 0;
		std::set<str> pairs; int next = 1;
		for (size_t i = 0; i < k; i++) {
			// a channel needs a (geometry, attribute) pair nobody else has
			std::vector<str> la; str geo = s.pick(geos); size_t ln = simple ? 1 : 1 + (s.chance(25) ? s.draw(3) : 0);
			for (size_t j = 0; j < ln; j++) { str a; bool ok = false; for (int t = 0; t < 6 && !ok; t++) { a = s.pick(attrs); if (j == 0 && t) geo = s.pick(geos); ok = pairs.insert(doc::lower(geo + "|" + a)).second; } if (ok) la.push_back(a); else if (j == 0) break; }
			if (la.empty()) continue;
			E& c = chans.add("DMXChannel"); c.set("DMXBreak", s.chance(15) ? str("Overwrite") : itext(s.range(1, 4)));
			int res = (int) s.range(0, 4); str off;
			for (int j = 0; j < res; j++) { int v = s.chance(70) ? next++ : (int) s.range(1, 512); off += (j ? "," : "") + itext(v); }
			c.set("Offset", off); if (res == 0) res = 2; c.set("~Res", itext(res));
			c.set("Highlight", s.chance(40) ? str("None") : dmxText(dmx(0, maxFor(res)), res)); c.set("Geometry", geo);
			std::vector<str> paths; str cn = geo + "_" + la[0];
			for (size_t j = 0; j < la.size(); j++) {
				E& l = c.add("LogicalChannel"); l.set("Attribute", la[j]); doc::genAttrs(logTab(), l, s);
				size_t fn = j == 0 ? 1 + (simple ? 0 : n(3)) : n(3); auto st = starts(0, maxFor(res), fn, true); doc::Names fnames;
				std::vector<size_t> grp(st.size(), 0); bool groups = o.overlaps && !simple && fn && s.chance(12);
				if (groups) { size_t gn = 2 + s.draw(2); st.clear(); grp.clear(); for (size_t q = 0; q < gn; q++) for (uint64_t v : starts(0, maxFor(res), 1 + s.draw(3), true)) { st.push_back(v); grp.push_back(q); } }
				auto endOf = [&](size_t q) { return q + 1 < st.size() && st[q + 1] > st[q] ? st[q + 1] - 1 : maxFor(res); };
				for (size_t q = 0; q < st.size(); q++) { genFunction(l, la[j], res, st[q], endOf(q), fnames, !simple); if (groups) l.kids.back().set("~Group", itext((long long) grp[q])); paths.push_back(cn + "." + la[j] + "." + funName(l.kids.back(), q)); }
			}
			if (s.chance(60)) c.set("InitialFunction", s.pick(paths));
		}
		// links between channels
		struct Ref { str path; int res; };
		std::vector<Ref> cr, fr; for (auto& c : chans.kids) { int r = resOf(c); cr.push_back({chanName(c), r}); for (auto& l : c.kids) for (size_t q = 0; q < l.kids.size(); q++) fr.push_back({chanName(c) + "." + l.val("Attribute") + "." + funName(l.kids[q], q), r}); }
		if (!cr.empty()) {
			for (auto& c : chans.kids) for (auto& l : c.kids) {
				if (l.kids.empty() || !l.kids[0].has("~Group")) continue;
				const Ref& r = s.coin() ? s.pick(cr) : s.pick(fr); uint64_t gn = uval(l.kids.back().val("~Group")) + 1, step = (maxFor(r.res) + 1) / gn;
				for (auto& f : l.kids) { uint64_t q = uval(f.val("~Group")); f.del("~Group"); f.set("ModeMaster", r.path); f.set("ModeFrom", dmxText(q * step, r.res)); f.set("ModeTo", dmxText(q + 1 == gn ? maxFor(r.res) : (q + 1) * step - 1, r.res)); }
			}
			for (auto& c : chans.kids) for (auto& l : c.kids) for (auto& f : l.kids) if (!f.has("ModeMaster") && s.chance(15)) { const Ref& r = s.coin() ? s.pick(cr) : s.pick(fr); f.set("ModeMaster", r.path); uint64_t a = dmx(0, maxFor(r.res)); f.set("ModeFrom", dmxText(a, r.res)); f.set("ModeTo", dmxText(dmx(a, maxFor(r.res)), r.res)); }
			size_t rn = n(3); for (size_t i = 0; i < rn; i++) { E& r = rels.add("Relation"); r.set("Name", doc::genNameRaw(s, true)); r.set("Master", s.pick(cr).path); r.set("Follower", s.pick(fr).path); r.set("Type", s.pick(texts(eRelation))); }
		}
		size_t mc = n(2);
		for (size_t i = 0; i < mc; i++) {
			E& x = macs.add("FTMacro"); x.set("Name", doc::genNameRaw(s, true)); if (!fr.empty() && s.coin()) x.set("ChannelFunction", s.pick(fr).path);
			if (s.coin()) { E& d = x.add("MacroDMX"); size_t sn = n(3); for (size_t j = 0; j < sn; j++) { E& st = d.add("MacroDMXStep"); st.set("Duration", doc::genDbl(s)); size_t vn = cr.empty() ? 0 : n(3); for (size_t z = 0; z < vn; z++) { E& v = st.add("MacroDMXValue"); const Ref& r = s.pick(cr); v.set("DMXChannel", r.path); v.set("Value", dmxText(dmx(0, maxFor(r.res)), r.res)); } } }
			if (s.coin()) { E& d = x.add("MacroVisual"); size_t sn = n(3); for (size_t j = 0; j < sn; j++) { E& st = d.add("MacroVisualStep"); doc::genAttrs(visStepTab(), st, s); size_t vn = fr.empty() ? 0 : n(3); for (size_t z = 0; z < vn; z++) { E& v = st.add("MacroVisualValue"); const Ref& r = s.pick(fr); v.set("ChannelFunction", r.path); v.set("Value", dmxText(dmx(0, maxFor(r.res)), r.res)); } } }
		}
		m.kids.push_back(chans); m.kids.push_back(rels); m.kids.push_back(macs);
	}
	E run()
	{
		E t("FixtureType"); str fname = doc::genNameRaw(s, true); t.set("Name", fname); t.set("Manufacturer", doc::genNameRaw(s, true)); t.set("FixtureTypeID", genUuid(s)); t.set("RefFT", s.coin() ? genUuid(s) : str());
		doc::genAttrs(fixTab(), t, s);
		E ad("AttributeDefinitions"), ag("ActivationGroups"), fg("FeatureGroups"), at("Attributes");
		if (o.attributes || o.dmx) {
			doc::Names an; size_t k = n(3); for (size_t i = 0; i < k; i++) { acts.push_back(an.fresh(s)); ag.add("ActivationGroup").set("Name", acts.back()); }
			doc::Names gn; k = 1 + n(2); for (size_t i = 0; i < k; i++) { E& g = fg.add("FeatureGroup"); g.set("Name", gn.fresh(s)); g.set("Pretty", doc::genText(s)); doc::Names fn; size_t q = (i ? 0 : 1) + n(3); for (size_t j = 0; j < q; j++) { str f = fn.fresh(s); g.add("Feature").set("Name", f); feats.push_back(g.val("Name") + "." + f); } }
			doc::Names names(true); names.used.insert("nofeature"); names.used.insert("dummy"); k = 1 + n(6); if (o.manyElements) k += 128; if (o.manyChannels) k = std::max<size_t>(k, 12);
			for (size_t i = 0; i < k; i++) {
				E& a = at.add("Attribute"); a.set("Name", names.fresh(s)); attrs.push_back(a.val("Name")); a.set("Pretty", doc::genText(s, 10));
				if (!acts.empty() && s.coin()) a.set("ActivationGroup", s.pick(acts)); a.set("Feature", s.pick(feats)); a.set("PhysicalUnit", s.chance(30) ? str("None") : s.pick(texts(ePhysUnit))); if (s.coin()) a.set("Color", doc::genCol(s));
				std::vector<str> ty = texts(eSubType); size_t q = s.chance(40) ? n(3) : 0; for (size_t j = 0; j < q; j++) { size_t p = s.draw(ty.size()); E& u = a.add("SubPhysicalUnit"); u.set("Type", ty[p]); subUnits[a.val("Name")].push_back(ty[p]); ty.erase(ty.begin() + p); doc::genAttrs(subUnitTab(), u, s); unitText[a.val("Name") + "|" + u.val("Type")] = u.val("PhysicalUnit") + " " + u.val("PhysicalFrom") + " " + u.val("PhysicalTo"); }
			}
			for (auto& a : at.kids) if (s.chance(30)) { const str& mname = s.pick(attrs); a.set("MainAttribute", mname); }
		}
		ad.kids = {ag, fg, at};
		E pd("PhysicalDescriptions"), acs("AdditionalColorSpaces"), gam("Gamuts"), fil("Filters"), emi("Emitters"), prf("DMXProfiles"), cri("CRIs"), con("Connectors"), pro("Properties");
		auto space = [&](E& out, const str& name) {
			E& e = out.add("ColorSpace"); e.set("Name", name); e.set("Mode", s.pick(texts(eSpace)));
			if (e.val("Mode") == "Custom") doc::genAttrs(csTab(), e, s); else predefined(e);
		};
		auto measurements = [&](E& e, bool isFilter) { size_t k = n(2); for (size_t i = 0; i < k; i++) { E& m = e.add("Measurement"); doc::genAttrs(measTab(isFilter), m, s); size_t q = n(4); for (size_t j = 0; j < q; j++) doc::genAttrs(mpTab(), m.add("MeasurementPoint"), s); } };
		doc::Names sp;
		if (!o.physical) { E tmp("x"); E& e = tmp.add("ColorSpace"); e.set("Name", ""); e.set("Mode", "sRGB"); predefined(e); pd.kids.push_back(e); }
		else space(pd, s.coin() ? sp.fresh(s) : str());
		if (o.physical) {
			size_t k = n(2); for (size_t i = 0; i < k; i++) { str nm = sp.fresh(s); space(acs, nm); spaces.push_back(nm); }
			doc::Names a; k = n(2); for (size_t i = 0; i < k; i++) { E& g = gam.add("Gamut"); g.set("Name", a.fresh(s)); gamuts.push_back(g.val("Name")); size_t q = 1 + n(4); str pts; for (size_t j = 0; j < q; j++) pts += "{" + doc::genCol(s) + "}"; g.set("Points", pts); }
			doc::Names b; k = n(3); for (size_t i = 0; i < k; i++) { E& x = fil.add("Filter"); x.set("Name", b.fresh(s)); filters.push_back(x.val("Name")); doc::genAttrs(filterTab(), x, s); measurements(x, true); }
			doc::Names c; k = n(3); for (size_t i = 0; i < k; i++) { E& x = emi.add("Emitter"); x.set("Name", c.fresh(s)); emits.push_back(x.val("Name")); doc::genAttrs(emitTab(), x, s); measurements(x, false); }
			doc::Names d; k = n(2); for (size_t i = 0; i < k; i++) { E& x = prf.add("DMXProfile"); x.set("Name", d.fresh(s)); profs.push_back(x.val("Name")); size_t q = n(4); for (size_t j = 0; j < q; j++) doc::genAttrs(pointTab(), x.add("Point"), s); }
			k = n(2); for (size_t i = 0; i < k; i++) { E& x = cri.add("CRIGroup"); x.set("ColorTemperature", doc::genDbl(s)); size_t q = n(4); for (size_t j = 0; j < q; j++) { E& y = x.add("CRI"); y.set("CES", fmt("CES%02d", (int) s.range(1, 99))); y.set("ColorRenderingIndex", itext(s.range(0, 255))); } }
			doc::Names f; k = n(2); for (size_t i = 0; i < k; i++) { E& x = con.add("Connector"); x.set("Name", f.fresh(s, true)); doc::genAttrs(connTab(), x, s); }
		}
		for (auto& a : propTab()) { size_t d = a.name.find('.'); pro.need(a.name.substr(0, d)).set(a.name.substr(d + 1), o.physical ? doc::genAttr(a, s) : a.def); }
		for (E* x : {&acs, &gam, &fil, &emi, &prf, &cri, &con, &pro}) pd.kids.push_back(*x);
		E wh("Wheels");
		if (o.wheels) {
			doc::Names w; size_t k = n(3); if (o.manyElements && s.chance(30)) k += 20;
			for (size_t i = 0; i < k; i++) {
				E& x = wh.add("Wheel"); x.set("Name", w.fresh(s)); wheels.push_back(x.val("Name")); size_t q = n(4); slots[x.val("Name")] = q;
				for (size_t j = 0; j < q; j++) {
					E& y = x.add("Slot"); y.set("Name", doc::genNameRaw(s, true)); doc::genAttrs(slotTab(), y, s); if (!filters.empty() && s.coin()) y.set("Filter", s.pick(filters));
					size_t fc = s.chance(30) ? n(3) : 0; for (size_t z = 0; z < fc; z++) { E& fe = y.add("Facet"); fe.set("Color", doc::genCol(s)); fe.set("~Rotation", genMat(s, false)); }
					if (s.chance(25)) doc::genAttrs(animTab(), y.add("AnimationSystem"), s);
				}
			}
		}
		E mo("Models"), ge("Geometries"), dm("DMXModes"), re("Revisions"), pr("Protocols");
		if (o.geometry || o.dmx) {
			doc::Names md; size_t k = n(3); for (size_t i = 0; i < k; i++) { E& x = mo.add("Model"); x.set("Name", md.fresh(s)); models.push_back(x.val("Name")); doc::genAttrs(modelTab(), x, s); }
			k = 1 + n(4); if (o.manyChannels) k += 6; if (o.manyElements && s.coin()) k += 10;
			for (size_t i = 0; i < k; i++) genGeometry(ge, 0, false);
			for (auto& g : ge.kids) linkGeometry(g);
		}
		if (o.dmx) { doc::Names names; size_t k = 1 + n(2); for (size_t i = 0; i < k; i++) genMode(dm, names, o.manyChannels && i == 0 ? 64 : 0); }
		size_t k = n(3);
		for (size_t i = 0; i < k; i++) { E& r = re.add("Revision"); r.set("Text", doc::genText(s)); r.set("Date", fmt("%d-%02d-%02dT%02d:%02d:%02d", (int) s.range(1000, 9999), (int) s.range(1, 12), (int) s.range(1, 31), (int) s.range(0, 23), (int) s.range(0, 59), (int) s.range(0, 59))); r.set("UserID", itext(s.range(0, kI32))); r.set("ModifiedBy", doc::genText(s)); }
		if (o.protocols) {
			auto hex = [&] { return fmt("%llX", (unsigned long long) s.draw(0x10000)); };
			if (s.chance(40)) { E& e = pr.add("FTRDM"); e.set("ManufacturerID", hex()); e.set("DeviceModelID", hex()); size_t q = n(2); for (size_t i = 0; i < q; i++) { E& v = e.add("SoftwareVersionID"); v.set("Value", hex()); size_t z = modes.empty() ? 0 : n(3); for (size_t j = 0; j < z; j++) { E& d = v.add("DMXPersonality"); d.set("Value", hex()); d.set("DMXMode", s.pick(modes)); } } }
			for (str p : {"Art-Net", "sACN"}) if (s.chance(40)) { E& e = pr.add(p); size_t q = n(4); for (size_t i = 0; i < q; i++) { E& m = e.add("Map"); m.set("Key", itext(s.range(0, kI32))); m.set("Value", itext(s.range(0, kI32))); } }
		}
		for (E* x : {&ad, &wh, &pd, &mo, &ge, &dm, &re, &pr}) t.kids.push_back(*x);
		return t;
	}
	static void predefined(E& e)
	{
		str m = e.val("Mode");
		auto set = [&](const char* r, const char* g, const char* b, const char* w) { e.set("Red", r); e.set("Green", g); e.set("Blue", b); e.set("WhitePoint", w); };
		if (m == "sRGB") set("0.640000,0.330000,21.260000", "0.300000,0.600000,71.520000", "0.150000,0.060000,7.220000", "0.312700,0.329000,100.000000");
		else if (m == "ProPhoto") set("0.734700,0.265300,100.000000", "0.159600,0.840400,100.000000", "0.036600,0.000100,100.000000", "0.345700,0.358500,100.000000");
		else if (m == "ANSI") set("0.734700,0.265300,100.000000", "0.159600,0.840400,100.000000", "0.036600,0.001000,100.000000", "0.425400,0.404400,100.000000");
	}
};
static inline GenOpt genOpt(vp::Src& s)
{
	GenOpt o; o.size = (int) s.draw(4);
	if (s.chance(3)) o.manyElements = true; if (s.chance(3)) o.manyChannels = true;
	if (s.chance(50)) { o.attributes = s.coin(); o.wheels = s.coin(); o.physical = s.coin(); o.geometry = s.coin(); o.dmx = s.coin(); o.protocols = s.coin(); }
	return o;
}

// --- the model of reading -------------------------------------------------------------------------
// What the dump of the fixture read from a file with this content is. asBuilt: the dump of the
// object built through the interface before it is saved.
static inline void normSets(E& f, int res, bool fill)
{
	std::vector<E> sets, rest; for (auto& k : f.kids) (k.name == "ChannelSet" ? sets : rest).push_back(k);
	uint64_t from = dmxVal(f.val("DMXFrom")), end = uval(f.val("~End"));
	auto gap = [&](uint64_t a) { E e("ChannelSet"); e.set("Name", ""); e.set("DMXFrom", dmxText(a, res)); e.set("~End", ""); e.set("WheelSlotIndex", "0"); return e; };
	std::vector<E> out;
	if (fill) for (size_t i = 0; i < sets.size(); i++) {
		uint64_t a = dmxVal(sets[i].val("DMXFrom")), e = uval(sets[i].val("~End"));
		if (i == 0 && a > from) out.push_back(gap(from));
		out.push_back(sets[i]);
		if (i + 1 < sets.size()) { if (dmxVal(sets[i + 1].val("DMXFrom")) - e > 1) out.push_back(gap(e + 1)); }
		else if (e < end) out.push_back(gap(e + 1));
	}
	else out = sets;
	for (size_t i = 0; i < out.size(); i++) out[i].set("~End", utext(i + 1 < out.size() ? dmxVal(out[i + 1].val("DMXFrom")) - 1 : end));
	f.kids = out; f.kids.insert(f.kids.end(), rest.begin(), rest.end());
}
static inline E normalise(E t, bool fillGaps)
{
	{ str n = t.val("Name"); for (auto& c : n) if (c == '/') c = '_'; t.set("Name", n); }   // documented: no path separators in a fixture's name
	for (auto& c : t.kid("PhysicalDescriptions")->kid("CRIs")->kids) for (auto& x : c.kids) x.del("CES");
	for (auto& m : t.kid("DMXModes")->kids)
		for (auto& c : m.kid("DMXChannels")->kids) {
			int res = resOf(c); str cn = chanName(c); c.set("~Res", itext(res));
			for (auto& l : c.kids) for (size_t i = 0; i < l.kids.size(); i++) {
				E& f = l.kids[i]; uint64_t from = dmxVal(f.val("DMXFrom")), mx = maxFor(res);
				uint64_t nx = i + 1 < l.kids.size() ? dmxVal(l.kids[i + 1].val("DMXFrom")) : 0; f.set("~End", utext(nx > from ? nx - 1 : mx));
				f.set("Name", funName(f, i)); normSets(f, res, fillGaps);
			}
			if (!c.has("InitialFunction") && !c.kids.empty() && !c.kids[0].kids.empty()) c.set("InitialFunction", cn + "." + c.kids[0].val("Attribute") + "." + c.kids[0].kids[0].val("Name"));
		}
	return t;
}
// what the getters report before saving
static inline E asBuilt(E t)
{
	for (auto& c : t.kid("PhysicalDescriptions")->kid("CRIs")->kids) for (auto& x : c.kids) x.del("CES");
	return t;
}
static inline IGdtfFixturePtr newFixture() { IGdtfFixturePtr f(IID_IGdtfFixture); if (!f) throw vp::Fail{"create", "no fixture object"}; return f; }
static inline std::vector<str> errors(IGdtfFixture* f)
{
	std::vector<str> o; size_t n = 0; must(f->GetParsingErrorCount(n), "GetParsingErrorCount");
	for (size_t i = 0; i < n; i++) { IGdtfXmlParsingErrorPtr e; must(f->GetParsingErrorAt(i, &e), "GetParsingErrorAt"); EGdtfParsingError k = (EGdtfParsingError) 0; must(e->GetErrorType(k), "GetErrorType"); o.push_back(fmt("%d ", (int) k) + S(e->GetErrorMessage()) + " / node " + S(e->GetNodeName()) + " / object " + S(e->GetObjectName())); }
	return o;
}
static inline void noErrors(IGdtfFixture* f)
{
	auto e = errors(f); if (!e.empty()) throw vp::Fail{"parsing-error-" + e[0].substr(0, e[0].find(' ')), fmt("%zu parsing errors, first: ", e.size()) + e[0]};
}
static inline void same(const E& got, const E& want, const str& where, const std::set<str>& ign = {})
{
	str key; str d = doc::diff(got, want, key, "", ign); if (!d.empty()) throw vp::Fail{where + ":" + key, where + ": " + d};
}
static inline void open(IGdtfFixture* f, const E& t, const str& path)
{
	MvrUUID u = Build::uuidOf(t.val("FixtureTypeID")); must(f->OpenForWrite(path.c_str(), t.val("Name").c_str(), t.val("Manufacturer").c_str(), u), "OpenForWrite");
}

} // namespace gdtf
