// Writing a GDTF description the way another tool could: one of the many forms the format allows
// for the same content.
#pragma once
#include "gdtf_gen.h"

namespace gdtf {

struct FileOpt { bool canonical = false; int omit = 50; bool shuffle = true; bool numbers = true; bool legacyMatrix = true; };
struct FileOut {
	vp::Src* s; FileOpt o;
	bool yes(int pct) { return s && !o.canonical && s->chance(pct); }
	// a decimal number in another notation
	str num(const str& t)
	{
		if (!o.numbers || !yes(60)) return t;
		double d = dval(t); str neg = t[0] == '-' ? "-" : ""; str a = neg.empty() ? t : t.substr(1);
		if (a.find('e') != str::npos || a.find("inf") != str::npos) return t;
		switch (s->draw(6)) {
			case 0: case 1: if (a.find('.') != str::npos) { while (a.back() == '0') a.pop_back(); if (a.back() == '.') a.pop_back(); } return neg + a;
			case 2: return neg + "0" + a;
			case 3: return neg.empty() && s->coin() ? "+" + a : neg + a + (a.find('.') != str::npos ? "000" : ".0");
			case 4: { for (int p = 6; p <= 17; p++) { char b[64]; snprintf(b, sizeof b, s->coin() ? "%.*e" : "%.*E", p, d); if (strtod(b, nullptr) == d) return b; } return t; }
			default: if (a.size() > 2 && a[0] == '0' && a[1] == '.') { a.erase(0, 1); while (a.size() > 2 && a.back() == '0') a.pop_back(); return neg + a; } return t;
		}
	}
	str list(const str& t) { str out, cur; for (char c : t) { if (strchr("0123456789+-.eE", c)) cur += c; else { if (!cur.empty()) { out += num(cur); cur.clear(); } out += c; } } if (!cur.empty()) out += num(cur); return out; }
	str mat(const str& t)
	{
		double v[16] = {0}; matNums(t, v); str r[12]; for (int i = 0; i < 12; i++) r[i] = num(dtext(v[i]));
		if (o.legacyMatrix && yes(15)) return "{" + r[0] + "," + r[1] + "," + r[2] + "}{" + r[3] + "," + r[4] + "," + r[5] + "}{" + r[6] + "," + r[7] + "," + r[8] + "}{" + r[9] + "," + r[10] + "," + r[11] + "}";
		return "{" + r[0] + "," + r[1] + "," + r[2] + "," + r[9] + "}{" + r[3] + "," + r[4] + "," + r[5] + "," + r[10] + "}{" + r[6] + "," + r[7] + "," + r[8] + "," + r[11] + "}{" + num(dtext(0)) + "," + num(dtext(0)) + "," + num(dtext(0)) + "," + num(dtext(1)) + "}";
	}
	str rot(const str& t) { double v[16] = {0}; matNums(t, v); str o2; for (int i = 0; i < 3; i++) o2 += "{" + num(dtext(v[3 * i])) + "," + num(dtext(v[3 * i + 1])) + "," + num(dtext(v[3 * i + 2])) + "}"; return o2; }
	str dmx(const str& t, int res)
	{
		uint64_t v = dmxVal(t); if (!yes(50)) return t;
		switch (s->draw(3)) {
			case 0: for (int n : {1, 2}) { if (res % n || n == res) continue; uint64_t m = maxFor(res) / maxFor(n); if (v % m == 0) return dmxText(v / m, n); } return t;
			case 1: { int k = 0; while (k < res - 1 && !(v >> (8 * k) & 255)) k++; k = (int) s->draw(k + 1); return dmxText(v >> (8 * k), res - k) + "s"; }
			default: if (res < 4) return dmxText((v << 8) | s->draw(256), res + 1) + "s"; return t;
		}
	}
	// attributes that may be absent when they have their default value
	static bool optional(const str& e, const str& a)
	{
		static const std::map<str, std::set<str>> m = {
			{"FixtureType", {"Thumbnail", "RefFT", "ThumbnailOffsetX", "ThumbnailOffsetY", "CanHaveChildren"}},
			{"SubPhysicalUnit", {"PhysicalFrom", "PhysicalTo"}}, {"Attribute", {"PhysicalUnit"}}, {"Facet", {"Color"}},
			{"Slot", {"Color", "MediaFileName", "Duration", "Width", "Height", "FPS"}},
			{"Model", {"File", "Length", "Width", "Height", "PrimitiveType", "SVGOffsetX", "SVGOffsetY", "SVGSideOffsetX", "SVGSideOffsetY", "SVGFrontOffsetX", "SVGFrontOffsetY"}},
			{"Display", {"Width", "Height", "IsCurved"}}, {"Beam", {"LampType", "PowerConsumption", "LuminousFlux", "ColorTemperature", "BeamAngle", "BeamRadius", "FieldAngle", "ThrowRatio", "RectangleRatio", "BeamType", "ColorRenderingIndex"}},
			{"Break", {"DMXBreak", "DMXOffset"}}, {"DMXMode", {"Description"}}, {"DMXChannel", {"DMXBreak", "Highlight", "Offset"}},
			{"LogicalChannel", {"Snap", "Master", "MibFade", "DMXChangeTimeLimit"}},
			{"ChannelFunction", {"Name", "OriginalAttribute", "Default", "DMXFrom", "PhysicalFrom", "PhysicalTo", "RealFade", "RealAcceleration", "Min", "Max", "CustomName"}},
			{"ChannelSet", {"Name", "DMXFrom", "WheelSlotIndex"}}, {"SubChannelSet", {"Name", "PhysicalFrom", "PhysicalTo"}},
			{"Revision", {"Text", "UserID", "ModifiedBy"}}, {"Emitter", {"DominantWaveLength", "DiodePart"}},
			{"Point", {"DMXPercentage", "CFC3", "CFC2", "CFC1", "CFC0"}}, {"CRIGroup", {"ColorTemperature"}}, {"CRI", {"ColorRenderingIndex"}},
			{"MacroDMXStep", {"Duration"}}, {"MacroVisualStep", {"Duration", "Fade", "Delay"}},
			{"ColorSpace", {"Name", "Mode"}}, {"Connector", {"DMXBreak", "Gender", "Length"}},
		};
		auto i = m.find(e); return i != m.end() && i->second.count(a);
	}
	template <class T> static void addDefs(std::map<str, str>& m, const str& e, const std::vector<A<T>>& tab) { for (auto& a : tab) m[e + "." + a.name] = a.def; }
	static const str* defaultOf(const str& e, const str& a)
	{
		static std::map<str, str> m;
		if (m.empty()) {
			addDefs(m, "FixtureType", fixTab()); addDefs(m, "SubPhysicalUnit", subUnitTab()); addDefs(m, "Slot", slotTab()); addDefs(m, "Model", modelTab()); addDefs(m, "LogicalChannel", logTab()); addDefs(m, "ChannelFunction", funTab());
			addDefs(m, "SubChannelSet", subSetTab()); addDefs(m, "Emitter", emitTab()); addDefs(m, "Point", pointTab()); addDefs(m, "MacroVisualStep", visStepTab()); addDefs(m, "Connector", connTab());
			for (auto& g : geoTabs()) addDefs(m, g.first, g.second);
			m["FixtureType.RefFT"] = ""; m["Attribute.PhysicalUnit"] = "None"; m["Facet.Color"] = "0.312730,0.329020,100.000000"; m["FixtureType.CanHaveChildren"] = "Yes"; m["Break.DMXBreak"] = "1"; m["Break.DMXOffset"] = "1"; m["DMXMode.Description"] = ""; m["DMXChannel.DMXBreak"] = "1"; m["DMXChannel.Highlight"] = "None"; m["DMXChannel.Offset"] = "";
			m["ChannelFunction.Name"] = ""; m["ChannelSet.Name"] = ""; m["ChannelSet.WheelSlotIndex"] = "0"; m["SubChannelSet.Name"] = ""; m["Revision.Text"] = ""; m["Revision.UserID"] = "0"; m["Revision.ModifiedBy"] = "";
			m["CRIGroup.ColorTemperature"] = "6000.000000"; m["CRI.ColorRenderingIndex"] = "100"; m["MacroDMXStep.Duration"] = "1.000000"; m["ColorSpace.Name"] = ""; m["ColorSpace.Mode"] = "sRGB";
		}
		auto i = m.find(e + "." + a); return i == m.end() ? nullptr : &i->second;
	}
	bool isDbl(const str& v) { size_t d = v.find('.'); return d != str::npos && v.size() > d + 1 && v.find_first_not_of("0123456789+-.eE") == str::npos; }
	E elem(const E& e, int res, bool legacy = false)
	{
		E x(e.name); if (e.name == "DMXChannel") { res = resOf(e); legacy = e.has("~LegacyDefault"); }
		std::vector<std::pair<str, str>> at;
		for (auto& a : e.at) {
			const str& n = a.first; const str& v = a.second;
			if (n == "~LegacyDefault") { x.set("Default", dmx(v, res)); continue; }
			if (e.name == "ChannelFunction" && n == "Default" && legacy) continue;
			if (e.name == "ChannelFunction" && n == "Attribute" && e.has("~NoAttribute") && s && !o.canonical) continue;
			if (n == "~Position") x.set("Position", mat(v)); else if (n == "~Rotation") x.set("Rotation", rot(v));
			else if (n == "~RopeOffset") { double q[16] = {0}; matNums(v, q); x.set("RopeOffset", "{" + num(dtext(q[0])) + "," + num(dtext(q[1])) + "," + num(dtext(q[2])) + "}"); }
			else if (n == "~P1X") { for (int i = 1; i <= 3; i++) x.set(fmt("P%d", i), num(e.val(fmt("~P%dX", i))) + "," + num(e.val(fmt("~P%dY", i)))); }
			else if (n[0] == '~') {}
			else {
				bool isDmx = (e.name == "DMXChannel" && n == "Highlight") || (e.name == "ChannelFunction" && (n == "Default" || n == "DMXFrom")) || (e.name == "ChannelSet" && n == "DMXFrom");
				str def; if (auto d = defaultOf(e.name, n)) def = *d; else def = "\x01"; if (isDmx && n != "Highlight") def = dmxText(0, res);
				if (v == def && optional(e.name, n) && yes(o.omit)) continue;
				if (n == "DMXOffset") { unsigned long long a2 = uval(v); x.set(n, yes(40) ? fmt("%llu.%llu", (a2 - 1) / 512 + 1, (a2 - 1) % 512 + 1) : v); }
				else if (isDmx) x.set(n, v == "None" ? v : dmx(v, res));
				else if (n == "Color" || n == "Points" || n == "Red" || n == "Green" || n == "Blue" || n == "WhitePoint") { if (e.name == "ColorSpace" && e.val("Mode") != "Custom") continue; x.set(n, e.name == "Laser" ? num(v) : list(v)); }
				else if (e.name == "FTRDM" || e.name == "SoftwareVersionID" || e.name == "DMXPersonality") { if (n == "DMXMode") x.set(n, v); else x.set(n, str("0x") + (yes(50) ? doc::lower(v) : v)); }
				else if (n == "FixtureTypeID" || n == "RefFT") { str u = yes(30) ? doc::lower(v) : v; if (!u.empty() && yes(10)) { str h; for (char ch : u) if (ch != '-') { if (h.size() % 3 == 2) h += ' '; h += ch; } u = h; } x.set(n, u); }
				else if (isDbl(v) && numeric(e.name, n)) x.set(n, num(v));
				else x.set(n, v);
			}
		}
		// points of a gamut are written one by one
		for (auto& k : e.kids) x.kids.push_back(elem(k, res, legacy));
		if (e.name == "FixtureType" || e.name == "PhysicalDescriptions" || e.name == "AttributeDefinitions" || e.name == "DMXMode" || e.name == "Properties" || e.name == "Protocols") {
			std::vector<E> keep;
			for (auto& k : x.kids) {
				if (k.kids.empty() && k.at.empty() && k.name != "Geometries" && k.name != "DMXModes" && k.name != "AttributeDefinitions" && k.name != "Attributes" && k.name != "FeatureGroups" && k.name != "DMXChannels" && e.name != "Protocols" && yes(50)) continue;
				if (e.name == "PhysicalDescriptions" && k.name == "ColorSpace" && k.val("Name").empty() && k.val("Mode", "sRGB") == "sRGB" && yes(50)) continue;
				if (e.name == "Properties" && yes(40)) { bool d = true; for (auto& a : propTab()) { size_t p = a.name.find('.'); if (a.name.substr(0, p) == k.name && e.kid(k.name)->val(a.name.substr(p + 1)) != a.def) d = false; } if (d) continue; }
				keep.push_back(k);
			}
			x.kids = keep;
			if (o.shuffle && s && !o.canonical && s->coin()) for (size_t i = x.kids.size(); i > 1; i--) std::swap(x.kids[i - 1], x.kids[s->draw(i)]);
		}
		return x;
	}
	static bool numeric(const str& e, const str& a)
	{
		static std::set<str> m;
		if (m.empty()) {
			auto add = [&](const str& n, const auto& tab) { for (auto& x : tab) if (x.kind == doc::K_DBL) m.insert(n + "." + x.name); };
			add("SubPhysicalUnit", subUnitTab()); add("Slot", slotTab()); add("Model", modelTab()); add("LogicalChannel", logTab()); add("ChannelFunction", funTab()); add("SubChannelSet", subSetTab()); add("Emitter", emitTab()); add("Point", pointTab()); add("MacroVisualStep", visStepTab()); add("Connector", connTab());
			add("Measurement", measTab(true)); add("Measurement", measTab(false)); add("MeasurementPoint", mpTab()); for (auto& g : geoTabs()) add(g.first, g.second);
			for (const char* x : {"AnimationSystem.Radius", "ChannelSet.PhysicalFrom", "ChannelSet.PhysicalTo", "CRIGroup.ColorTemperature", "MacroDMXStep.Duration", "OperatingTemperature.Low", "OperatingTemperature.High", "Weight.Value", "LegHeight.Value"}) m.insert(x);
		}
		return m.count(e + "." + a) > 0;
	}
};
// the XML document of a fixture. t: as generated (function and set ends are implied by the format)
static inline E toFile(const E& t, vp::Src* s, FileOpt o = FileOpt())
{
	FileOut f{s, o}; E root("GDTF"); root.set("DataVersion", s && !o.canonical && s->chance(30) ? "1.1" : "1.2"); root.kids.push_back(f.elem(t, 0)); return root;
}
static inline str container(const E& root, vp::Src& s, const doc::Entries& more = {})
{
	doc::Entries es = more; es.insert(es.begin() + s.draw(es.size() + 1), {"description.xml", doc::xmlDoc(root, doc::genStyle(s), s)});
	doc::ZipStyle z; z.mode = (int) s.draw(3); z.level = (int) s.range(1, 9); z.extra = s.chance(20); z.comment = s.chance(20); z.utf8flag = s.chance(20); z.longExtra = s.chance(3);
	return doc::zipWrite(es, z, &s);
}
static inline void readFrom(IGdtfFixture* f, const str& data, bool asFile, vp::Ctx& c, const str& name = "in.gdtf")
{
	if (asFile) { vp::writeFile(c.scratch + "/" + name, data); must(f->ReadFromFile((c.scratch + "/" + name).c_str()), "ReadFromFile"); }
	else must(f->FromBuffer(data.data(), data.size()), "FromBuffer");
}
} // namespace gdtf
