// G10: what is wrong in a description is reported, as what it is and where it is; what is sound is not.
#include "gdtf_file.h"
#include "mutate.h"
using namespace gdtf;
typedef EGdtfParsingError P;

// ---- where every element of a document is ------------------------------------------------------
struct Where { size_t line; str node, name; };
struct Located { std::vector<Where> all; std::map<const E*, size_t> at; };
static void preorder(const E& e, std::vector<const E*>& out) { out.push_back(&e); for (auto& k : e.kids) preorder(k, out); }
static size_t lineOf(const str& x, size_t p) { return 1 + std::count(x.begin(), x.begin() + p, '\n'); }
static void starts(const str& x, std::vector<size_t>& out)   // positions of the start tags, in document order
{
	for (size_t p = 0; p < x.size();) {
		if (x.compare(p, 4, "<!--") == 0) { p = x.find("-->", p); if (p == str::npos) return; p += 3; }
		else if (x.compare(p, 9, "<![CDATA[") == 0) { p = x.find("]]>", p); if (p == str::npos) return; p += 3; }
		else if (x.compare(p, 2, "<?") == 0) { p = x.find("?>", p); if (p == str::npos) return; p += 2; }
		else if (x.compare(p, 2, "</") == 0) { p = x.find('>', p); if (p == str::npos) return; }
		else if (x[p] == '<') { out.push_back(p); for (char q = 0; p < x.size(); p++) { if (q) { if (x[p] == q) q = 0; } else if (x[p] == '"' || x[p] == '\'') q = x[p]; else if (x[p] == '>') break; } }
		else p++;
	}
}
static Located locate(const E& root, const str& xml)
{
	Located l; std::vector<const E*> es; preorder(root, es); std::vector<size_t> st; starts(xml, st);
	if (es.size() != st.size()) throw vp::Discard{};
	size_t line = 1, p = 0;
	for (size_t i = 0; i < es.size(); i++) { for (; p < st[i]; p++) line += xml[p] == '\n'; l.all.push_back(Where{line, es[i]->name, es[i]->val("Name")}); l.at[es[i]] = i; }
	return l;
}
// line breaks the way different tools write them
static str document(const E& root, vp::Src& s, bool plain = false)
{
	doc::XmlStyle st = doc::genStyle(s); if (plain) st.cdata = false;
	str x = doc::xmlDoc(root, st, s); int more = (int) s.draw(4); bool crlf = s.chance(25);
	if (more) {   // more line breaks between the tags
		std::vector<size_t> b; starts(x, b); str o; size_t from = 0;
		for (size_t p : b) { o.append(x, from, p - from); from = p; if (p && x[p - 1] == '>' && s.chance(more * 20)) o.append(1 + s.draw(3), '\n'); }
		o.append(x, from, str::npos); x = o;
	}
	if (crlf) { str o; for (char c : x) { if (c == '\n') o += '\r'; o += c; } x = o; }
	return x;
}
struct Err { int kind; str message, node, name; size_t line; };
static str text(const Err& e) { return fmt("%d at <%s Name=\"%s\"> line %zu \"%s\"", e.kind, e.node.c_str(), e.name.c_str(), e.line, e.message.c_str()); }
static std::vector<Err> reported(IGdtfFixture* f, vp::Ctx& c)
{
	std::vector<Err> out; size_t n = 0; must(f->GetParsingErrorCount(n), "GetParsingErrorCount");
	for (size_t i = 0; i < n; i++) {
		IGdtfXmlParsingErrorPtr e; must(f->GetParsingErrorAt(i, &e), "GetParsingErrorAt"); Err x; P t; size_t col = 0;
		must(e->GetErrorType(t), "GetErrorType"); x.kind = (int) t; x.message = e->GetErrorMessage(); x.node = e->GetNodeName(); x.name = e->GetObjectName(); must(e->GetLineAndColumnNumber(x.line, col), "GetLineAndColumnNumber");
		out.push_back(x);
	}
	IGdtfXmlParsingErrorPtr no; c.check(f->GetParsingErrorAt(n, &no) != 0, "error-count", "GetParsingErrorAt gives an error beyond the count");
	return out;
}

// ---- the attributes of the elements the format describes --------------------------------------
struct Known { std::set<str> all, drop; };   // drop: mandatory, and nothing else depends on it
static std::set<str> words(const char* t) { std::set<str> o; str w; for (; ; t++) { if (*t && *t != ' ') { w += *t; continue; } if (!w.empty()) o.insert(w); w.clear(); if (!*t) return o; } }
static const std::map<str, Known>& known()
{
	static std::map<str, Known> m;
	if (m.empty()) {
		auto a = [&](const char* n, const char* drop, const char* rest) { Known k; k.drop = words(drop); k.all = words(rest); k.all.insert(k.drop.begin(), k.drop.end()); m[n] = k; };
		a("FixtureType", "Name ShortName LongName Manufacturer Description FixtureTypeID", "Thumbnail RefFT ThumbnailOffsetX ThumbnailOffsetY CanHaveChildren");
		a("ActivationGroup", "", "Name"); a("FeatureGroup", "Pretty", "Name"); a("Feature", "", "Name");
		a("Attribute", "Pretty Feature", "Name ActivationGroup MainAttribute PhysicalUnit Color"); a("SubPhysicalUnit", "PhysicalUnit", "Type PhysicalFrom PhysicalTo");
		a("Wheel", "Name", ""); a("Slot", "Name", "Color MediaFileName Filter Duration Width Height FPS"); a("AnimationSystem", "Radius", "P1 P2 P3"); a("Facet", "", "Rotation Color");
		a("Emitter", "Color", "Name DominantWaveLength DiodePart"); a("MeasurementPoint", "WaveLength Energy", ""); a("ColorSpace", "", "Red Green Blue WhitePoint Mode Name"); a("Gamut", "Points", "Name");
		a("Point", "", "DMXPercentage CFC0 CFC1 CFC2 CFC3"); a("DMXProfile", "", "Name"); a("CRIGroup", "", "ColorTemperature"); a("CRI", "", "CES ColorRenderingIndex"); a("Connector", "Name Type", "DMXBreak Gender Length");
		a("Model", "", "Name File Length Width Height PrimitiveType SVGOffsetX SVGOffsetY SVGSideOffsetX SVGSideOffsetY SVGFrontOffsetX SVGFrontOffsetY");
		for (const char* g : {"Geometry", "Axis", "FilterBeam", "FilterColor", "FilterGobo", "FilterShaper", "MediaServerCamera", "MediaServerLayer", "MediaServerMaster", "Magnet"}) a(g, "Position", "Name Model");
		a("Display", "Position Texture", "Name Model Width Height IsCurved"); a("Inventory", "Position Count", "Name Model"); a("GeometryReference", "Position", "Name Model Geometry");
		a("Beam", "Position", "Name Model LampType PowerConsumption LuminousFlux ColorTemperature BeamAngle FieldAngle BeamRadius ThrowRatio RectangleRatio BeamType ColorRenderingIndex EmitterSpectrum");
		a("Laser", "Position OutputStrength BeamDiameter BeamDivergenceMin BeamDivergenceMax ScanAnglePan ScanAngleTilt ScanSpeed", "Name Model ColorType Color Emitter");
		a("WiringObject", "Position ConnectorType SignalType PinCount SignalLayer Orientation WireGroup", "Name Model ComponentType ElectricalPayLoad VoltageRangeMin VoltageRangeMax FrequencyRangeMin FrequencyRangeMax CosPhi MaxPayLoad Voltage FuseCurrent FuseRating");
		a("Structure", "Position StructureType", "Name Model LinkedGeometry CrossSectionType CrossSectionHeight CrossSectionWallThickness TrussCrossSection");
		a("Support", "Position", "Name Model SupportType RopeCrossSection RopeOffset CapacityX CapacityY CapacityZ CapacityXX CapacityYY CapacityZZ ResistanceX ResistanceY ResistanceZ ResistanceXX ResistanceYY ResistanceZZ");
		a("PinPatch", "FromPin ToPin", "ToWiringObject"); a("Break", "", "DMXOffset DMXBreak"); a("DMXMode", "", "Name Geometry Description"); a("DMXChannel", "", "Geometry InitialFunction DMXBreak Offset Highlight Default");
		a("LogicalChannel", "", "Attribute Snap Master MibFade DMXChangeTimeLimit");
		a("ChannelFunction", "", "Name Attribute OriginalAttribute Default DMXFrom PhysicalFrom PhysicalTo Wheel Emitter ModeMaster ModeFrom ModeTo RealFade Filter RealAcceleration ColorSpace Gamut DMXProfile Min Max CustomName");
		a("ChannelSet", "", "Name DMXFrom WheelSlotIndex PhysicalFrom PhysicalTo"); a("SubChannelSet", "", "Name PhysicalFrom PhysicalTo DMXProfile SubPhysicalUnit"); a("Relation", "Name Type", "Master Follower");
		a("FTMacro", "Name", "ChannelFunction"); a("MacroDMXStep", "", "Duration"); a("MacroDMXValue", "Value", "DMXChannel"); a("MacroVisualStep", "", "Duration Fade Delay"); a("MacroVisualValue", "Value", "ChannelFunction");
		a("Revision", "Date", "Text UserID ModifiedBy"); a("FTRDM", "ManufacturerID DeviceModelID", ""); a("Map", "Key Value", "");
	}
	return m;
}
static const std::set<str>& geometries() { static const std::set<str> g = words("Geometry Axis FilterBeam FilterColor FilterGobo FilterShaper MediaServerCamera MediaServerLayer MediaServerMaster Magnet Display Inventory GeometryReference Beam Laser WiringObject Structure Support"); return g; }

// ---- defects ----------------------------------------------------------------------------------
struct Defect { int kind; str message; str what; std::set<int> also; E* at = nullptr; bool closed = false, loose = false; std::vector<str> more; int first = -1; };   // more: other attributes of the same element;   // loose: others may be reported as well, what hangs on it   // also: kinds the same element may be reported with besides
struct Spot { E* e; E* parent; E* channel; bool laserProtocol; };
static void spots(E& e, E* parent, E* channel, std::vector<Spot>& out)
{
	if (e.name == "DMXChannel") channel = &e;
	out.push_back(Spot{&e, parent, channel, parent && parent->name == "Laser"});
	for (auto& k : e.kids) spots(k, &e, channel, out);
}
static bool untouched(const E& e) { for (auto& k : e.kids) if (k.has("~d") || !untouched(k)) return false; return true; }
static str word(vp::Src& s) { str o; size_t n = s.range(3, 9); for (size_t i = 0; i < n; i++) o += (char) ((i ? 'a' : s.coin() ? 'A' : 'a') + s.draw(26)); return o; }
static str notOf(vp::Src& s) { static const char* odd[] = {"Unknown", "none ", "Yes please", "-", "0", "1", "true", "LEDs", "Gran", "sRGBA", "CES100", "CES00", "Multiplies", "Wash2", "Linear1", "Base2", "Meter"}; return s.coin() ? str(odd[s.draw(sizeof odd / sizeof *odd)]) : "q" + word(s) + "q"; }
static str col(vp::Src& s, int n) { str o; for (int i = 0; i < n; i++) o += (i ? "," : "") + fmt("%.3f", s.draw(1000) / 1000.); return o; }
static str row(vp::Src& s, int n) { str o = "{"; for (int i = 0; i < n; i++) o += (i ? "," : "") + fmt("%.3f", (double) s.range(-1000, 1000) / 1000.); return o + "}"; }
static str rows(vp::Src& s, int lines, int n) { str o; for (int i = 0; i < lines; i++) o += row(s, n); return o; }
static int other(vp::Src& s, std::vector<int> v) { return s.pick(v); }

typedef std::function<bool(Spot&, vp::Src&, Defect&)> Plant;   // true: planted
static Plant value(const str& node, const str& attr, int kind, const std::function<str(vp::Src&)>& bad, std::set<int> also = {})
{
	return [=](Spot& p, vp::Src& s, Defect& d) {
		if (node == "*" ? !geometries().count(p.e->name) : p.e->name != node) return false;
		str v = bad(s); p.e->set(attr, v); d.kind = kind; d.what = attr + "=\"" + v + "\""; d.also = also; return true;
	};
}
static const std::vector<std::pair<str, Plant>>& plants()
{
	static std::vector<std::pair<str, Plant>> v;
	if (!v.empty()) return v;
	auto add = [&](const str& n, const Plant& p) { v.push_back({n, p}); };
	add("unknown attribute", [](Spot& p, vp::Src& s, Defect& d) {
		auto k = known().find(p.e->name); if (k == known().end() || p.laserProtocol) return false;
		static const char* near[] = {"Names", "Colour", "Nam", "Positions", "Attr", "DMX", "Id", "UUID", "Comment", "Feature", "Geometry", "Value", "Wheel", "DMXFrom", "PhysicalFrom", "Type", "Description", "Default"};
		str n = s.coin() ? word(s) : str(near[s.draw(sizeof near / sizeof *near)]);
		for (auto& a : k->second.all) if (doc::lower(a) == doc::lower(n)) return false;
		p.e->set(n, s.coin() ? "" : doc::genLine(s, 12)); d.kind = (int) P::eNodeWrongAttribute; d.message = n; d.what = "attribute " + n;
		while (d.more.size() < 3 && s.chance(25)) { str o = fmt("%s%zu", n.c_str(), d.more.size()); p.e->set(o, word(s)); d.more.push_back(o); }
		return true;
	});
	add("missing attribute", [](Spot& p, vp::Src& s, Defect& d) {
		auto k = known().find(p.e->name); if (k == known().end() || p.laserProtocol) return false;
		std::vector<str> c(k->second.drop.begin(), k->second.drop.end());
		if (p.e->name == "WiringObject" && p.e->val("ComponentType") == "Consumer") for (auto& x : words("ElectricalPayLoad VoltageRangeMin VoltageRangeMax FrequencyRangeMin FrequencyRangeMax CosPhi")) c.push_back(x);
		if (p.e->name == "WiringObject" && p.e->val("ComponentType") == "PowerSource") for (auto& x : words("MaxPayLoad Voltage")) c.push_back(x);
		if (p.e->name == "WiringObject" && p.e->val("ComponentType") == "Fuse") for (auto& x : words("FuseCurrent FuseRating")) c.push_back(x);
		if (p.e->name == "Support" && p.e->val("SupportType") == "Rope") for (auto& x : words("RopeCrossSection RopeOffset")) c.push_back(x);
		if (p.e->name == "Support" && p.e->val("SupportType") == "GroundSupport") for (auto& x : words("CapacityX CapacityY CapacityZ CapacityXX CapacityYY CapacityZZ ResistanceX ResistanceY ResistanceZ ResistanceXX ResistanceYY ResistanceZZ")) c.push_back(x);
		if (p.e->name == "Structure" && p.e->val("CrossSectionType") == "Tube") for (auto& x : words("CrossSectionHeight CrossSectionWallThickness")) c.push_back(x);
		if (p.e->name == "Structure" && p.e->val("CrossSectionType") == "TrussFramework") c.push_back("TrussCrossSection");
		if (p.e->name == "Laser" && p.e->val("ColorType") == "SingleWaveLength") c.push_back("Color");
		if (c.empty()) return false;
		str n = s.pick(c); if (!p.e->has(n)) return false;
		for (auto& o : c) if (o != n && p.e->has(o) && s.chance(25)) { p.e->del(o); d.more.push_back(o); }
		p.e->del(n); d.kind = (int) P::eNodeMissingMandatoryAttribute; d.message = n; d.what = "no attribute " + n; return true;
	});
	// values that are not what they have to be
	add("uuid", value("FixtureType", "FixtureTypeID", (int) P::eValueError_UuidHasWrongFormat, [](vp::Src& s) { str u = genUuid(s); if (s.coin()) u.pop_back(); else u += "0"; return u; }));
	add("reference uuid", value("FixtureType", "RefFT", (int) P::eValueError_UuidHasWrongFormat, [](vp::Src& s) { return s.coin() ? str("1") : genUuid(s) + "12"; }));
	auto badCol = [](vp::Src& s) { return col(s, other(s, {2, 4, 5})); };
	for (const char* n : {"Emitter", "Slot", "Attribute", "Facet", "Filter"}) add(str("color of ") + n, value(n, "Color", (int) P::eValueError_ColorHasWrongFormat, badCol));
	for (const char* n : {"Emitter", "Slot", "Attribute"}) add(str("single number as color of ") + n, value(n, "Color", (int) P::eValueError_ColorHasWrongFormat, [](vp::Src& s) { return col(s, 1); }, {(int) P::eValueError_NoCommaFound}));
	add("gamut points", value("Gamut", "Points", (int) P::eValueError_ColorArrayWrongFormat, [](vp::Src& s) { int bad = (int) s.draw(3); int k = (int) s.draw(3); str o; for (int i = 0; i < 3; i++) o += "{" + col(s, i == k && bad == 0 ? other(s, {2, 4}) : 3) + "}"; if (bad == 1) o.erase(0, 1); if (bad == 2) o.pop_back(); return o; }));
	add("address of a break", value("Break", "DMXOffset", (int) P::eValueError_DmxAdressHasWrongValue, [](vp::Src& s) { static const char* b[] = {"0", "-1", "-512", "0.1", "1.0", "1.513", "2.600", "x", "0.0", "65536", "65537", "128.512", "129.1", "-1.5", "65537.1", "1.65537"}; return str(b[s.draw(16)]); }));
	add("default of a function", [](Spot& p, vp::Src& s, Defect& d) {
		if (p.e->name != "ChannelFunction") return false;
		static const char* b[] = {"12", "x/1", "1/x", "1/", "/1", "one", "1 of 2"}; str t = b[s.draw(7)];
		p.e->set("Default", t); d.kind = (int) P::eValueError_DmxValueHasWrongValue; d.what = "Default=\"" + t + "\""; return true;
	});
	add("highlight", value("DMXChannel", "Highlight", (int) P::eValueError_DmxValueHasWrongValue, [](vp::Src& s) { static const char* b[] = {"12", "x/1", "1/x", "on"}; return str(b[s.draw(4)]); }));
	add("start of a set", [](Spot& p, vp::Src& s, Defect& d) {
		if (p.e->name != "ChannelSet") return false;
		static const char* b[] = {"12", "full", "255"}; str t = b[s.draw(3)]; p.e->set("DMXFrom", t); d.kind = (int) P::eValueError_DmxValueHasWrongValue; d.what = "DMXFrom=\"" + t + "\""; return true;
	});
	add("primitive type", value("Model", "PrimitiveType", (int) P::eValueError_NoMatchInEnum_ConvertPrimitiveType, notOf));
	add("physical unit", value("Attribute", "PhysicalUnit", (int) P::eValueError_NoMatchInEnum_ConvertPhysicalUnit, notOf));
	add("physical unit of a sub unit", value("SubPhysicalUnit", "PhysicalUnit", (int) P::eValueError_NoMatchInEnum_ConvertPhysicalUnit, notOf));
	add("beam type", value("Beam", "BeamType", (int) P::eValueError_NoMatchInEnum_ConvertBeamType, notOf));
	add("lamp type", value("Beam", "LampType", (int) P::eValueError_NoMatchInEnum_ConvertLampeType, notOf));
	add("snap", value("LogicalChannel", "Snap", (int) P::eValueError_NoMatchInEnum_ConvertSnap, notOf));
	add("master", value("LogicalChannel", "Master", (int) P::eValueError_NoMatchInEnum_ConvertMaster, notOf));
	add("relation", value("Relation", "Type", (int) P::eValueError_NoMatchInEnum_ConvertRelation, notOf));
	add("color sample", value("CRI", "CES", (int) P::eValueError_NoMatchInEnum_ConvertColorSample, notOf));
	add("mode of a color space", value("ColorSpace", "Mode", (int) P::eValueError_NoMatchInEnum_ConvertColorSample, notOf));
	add("interpolation", value("Measurement", "InterpolationTo", (int) P::eValueError_NoMatchInEnum_InterpolationTo, notOf));
	add("can have children", value("FixtureType", "CanHaveChildren", (int) P::eValueError_NoMatchInEnum_CanHaveChildren, notOf));
	add("matrix without first bracket", value("*", "Position", (int) P::eValueError_MatrixFormatMissingFirstBracket, [](vp::Src& s) { return rows(s, 4, other(s, {3, 4})).substr(1); }));
	add("matrix without last bracket", value("*", "Position", (int) P::eValueError_MatrixFormatMissingLastBracket, [](vp::Src& s) { str t = rows(s, 4, other(s, {3, 4})); t.pop_back(); return t; }));
	add("matrix with other lines", value("*", "Position", (int) P::eValueError_MatrixFormatTooMuchOrTooLessLines, [](vp::Src& s) { return rows(s, other(s, {1, 2, 3, 5, 6}), other(s, {3, 4})); }));
	add("matrix with other entries", value("*", "Position", (int) P::eValueError_MatrixFormatTooMuchOrTooLessEntries, [](vp::Src& s) { int bad = (int) s.draw(4), n = other(s, {3, 4}); str o; for (int i = 0; i < 4; i++) o += row(s, i == bad ? other(s, {2, 5}) : n); return o; }));
	add("rotation without first bracket", value("Facet", "Rotation", (int) P::eValueError_MatrixRotationFormatMissingFirstBracket, [](vp::Src& s) { return rows(s, 3, 3).substr(1); }));
	add("rotation without last bracket", value("Facet", "Rotation", (int) P::eValueError_MatrixRotationFormatMissingLastBracket, [](vp::Src& s) { str t = rows(s, 3, 3); t.pop_back(); return t; }));
	add("rotation with other lines", value("Facet", "Rotation", (int) P::eValueError_MatrixRotationTooMuchOrTooLessLines, [](vp::Src& s) { return rows(s, other(s, {1, 2, 4}), 3); }));
	add("rotation with other entries", value("Facet", "Rotation", (int) P::eValueError_MatrixRotationTooMuchOrTooLessEntries, [](vp::Src& s) { int bad = (int) s.draw(3); str o; for (int i = 0; i < 3; i++) o += row(s, i == bad ? other(s, {2, 4}) : 3); return o; }));
	add("rope offset", value("Support", "RopeOffset", (int) P::eValueError_MatrixFormatTooMuchOrTooLessEntries, [](vp::Src& s) { return row(s, other(s, {2, 4, 5})); }));
	add("point without comma", value("AnimationSystem", "P1", (int) P::eValueError_NoCommaFound, [](vp::Src& s) { return fmt("%.2f", s.draw(100) / 10.); }));
	add("date", value("Revision", "Date", (int) P::eValueError_DateHasWrongFormat, [](vp::Src& s) { static const char* b[] = {"2020-01-02", "yesterday", "2020-01-02T10:20", "2020-01-02T10:20:30:40", "10:20:30"}; return str(b[s.draw(5)]); }));
	for (const char* n : {"ManufacturerID", "DeviceModelID"}) {
		add(str("hex ") + n, value("FTRDM", n, (int) P::eHexConversion_InvalidChar, [](vp::Src& s) { static const char* b[] = {"0x12G4", "4711", "x12", "0xzz", "0x 1", "$12"}; return str(b[s.draw(6)]); }));
		add(str("large hex ") + n, value("FTRDM", n, (int) P::eHexConversion_ValueToHight, [](vp::Src& s) { static const char* b[] = {"0x10000", "0xFFFFF", "0x123456"}; return str(b[s.draw(3)]); }));
	}
	// references to what is not there
	auto gone = [](vp::Src& s) { return "No such " + word(s); };
	add("model", value("*", "Model", (int) P::eGeometryUnresolvedModel, gone)); add("geometry of a reference", value("GeometryReference", "Geometry", (int) P::eGeometryReferenceUnresolvedLink, gone));
	add("activation group", value("Attribute", "ActivationGroup", (int) P::eAttributeUnresolvedActivationGroup, gone)); add("feature", value("Attribute", "Feature", (int) P::eAttributeUnresolvedFeature, gone));
	add("main attribute", value("Attribute", "MainAttribute", (int) P::eAttributeUnresolvedMainAttribute, gone)); add("initial function", value("DMXChannel", "InitialFunction", (int) P::eFixtureDMXChannelUnresolvedChannelFunction, gone));
	add("channel of a macro", value("MacroDMXValue", "DMXChannel", (int) P::eDmxMacroDmxValueChannelReference, gone)); add("mode of a personality", value("DMXPersonality", "DMXMode", (int) P::eValueError_UnresolvedRdmPersonalityMode, gone));
	add("mode master", [](Spot& p, vp::Src& s, Defect& d) {   // reported for its channel
		if (p.e->name != "ChannelFunction" || !p.channel || p.channel->has("~d")) return false;
		str n = "No such " + word(s); p.e->set("ModeMaster", n); d.kind = (int) P::eDMXModeMastersUnresolved; d.what = "ModeMaster=\"" + n + "\""; d.at = p.channel; p.e->set("~d", ""); return true;
	});
	// what other elements depend on
	auto loosely = [](const Plant& p) -> Plant { return [p](Spot& x, vp::Src& s, Defect& d) { d.loose = d.closed = true; return p(x, s, d); }; };
	add("geometry of a mode", loosely(value("DMXMode", "Geometry", (int) P::eDmxModeUnresolvedGeometry, gone))); add("geometry of a channel", loosely(value("DMXChannel", "Geometry", (int) P::eFixtureDMXChannelMissingGeometryLink, gone)));
	add("attribute of a logical channel", loosely(value("LogicalChannel", "Attribute", (int) P::eFixtureLogicalChannelMissingAttribute, gone))); add("attribute of a function", loosely(value("ChannelFunction", "Attribute", (int) P::eChannelFunctionMissingAttribute, gone)));
	add("first function above zero", loosely([](Spot& p, vp::Src& s, Defect& d) {
		if (p.e->name != "ChannelFunction" || p.e != p.parent->kid("ChannelFunction")) return false;
		str v = fmt("%d/1", (int) s.range(1, 255)); p.e->set("DMXFrom", v); d.kind = (int) P::eChannelFunctionNotStartingWithZero; d.what = "DMXFrom=\"" + v + "\""; return true;
	}));
	add("channel without functions", loosely([](Spot& p, vp::Src&, Defect& d) {
		if (p.e->name != "DMXChannel" || p.e->has("InitialFunction") || !p.e->kid("LogicalChannel") || !untouched(*p.e)) return false;
		E& l = *p.e->kid("LogicalChannel"); l.kids.clear(); d.kind = (int) P::eFixtureDMXChannelMissingChannelFunction; d.what = "no function"; return true;
	}));
	add("attribute twice", loosely([](Spot& p, vp::Src&, Defect& d) {
		if (p.e->name != "LogicalChannel" || p.e->val("Attribute") == "NoFeature") return false; str a = doc::lower(p.e->val("Attribute")); if (a == "nofeature" || a == "dummy" || a.empty()) return false;
		E x = *p.e; x.del("~d"); x.del("~c"); d.kind = (int) P::eFixtureLogicalChannelNoUniqueGeometryAttribute; d.what = "same attribute and geometry"; if (!untouched(*p.parent)) return false;
		p.parent->kids.push_back(x); d.at = &p.parent->kids.back(); return true;
	}));
	add("sets that do not increase", loosely([](Spot& p, vp::Src&, Defect& d) {
		if (p.e->name != "ChannelFunction" || !p.channel || p.channel->val("Offset").empty()) return false; std::vector<E*> sets; for (auto& k : p.e->kids) if (k.name == "ChannelSet" && !k.has("~d")) sets.push_back(&k);
		if (sets.size() < 2 || sets.size() != p.e->kids.size()) return false; sets[1]->set("DMXFrom", sets[0]->val("DMXFrom")); d.kind = (int) P::eValueError_DmxValueHasWrongValue; d.what = "DMXFrom=\"" + sets[0]->val("DMXFrom") + "\""; d.at = sets[1]; return true;
	}));
	// elements where they do not belong
	add("unknown child", [](Spot& p, vp::Src& s, Defect& d) {
		if (!geometries().count(p.e->name) && p.e->name != "Geometries") return false;
		if (p.e->name == "WiringObject" || p.e->name == "Laser") return false;
		static const char* near[] = {"Geometri", "Lens", "Axes", "Breaks", "Beams", "Model", "Attribute", "Filter", "GeometryReferenc"};
		E x(s.coin() ? "Q" + word(s) : str(near[s.draw(9)])); if (s.coin()) x.set("Name", doc::genLine(s, 8)); if (s.chance(30)) x.add("Geometry").set("Name", "inside");
		d.kind = (int) P::eNodeWrongName; d.what = "child <" + x.name + ">"; d.at = &*p.e->kids.insert(p.e->kids.begin() + s.draw(p.e->kids.size() + 1), x); d.closed = true; return true;
	});
	add("break elsewhere", [](Spot& p, vp::Src& s, Defect& d) {
		if (!geometries().count(p.e->name) || p.e->name == "GeometryReference" || p.e->name == "WiringObject" || p.e->name == "Laser") return false;
		E x("Break"); x.set("DMXBreak", "1"); x.set("DMXOffset", "1"); d.kind = (int) P::eBreakObjectInNonGeometryReference; d.also = {(int) P::eNodeWrongName}; d.what = "child <Break>";
		d.at = &*p.e->kids.insert(p.e->kids.begin() + s.draw(p.e->kids.size() + 1), x); d.closed = true; return true;
	});
	return v;
}


static str zip(const str& xml, vp::Src& s) { doc::ZipStyle z; z.mode = (int) s.draw(3); z.level = (int) s.range(1, 9); return doc::zipWrite({{"description.xml", xml}}, z, &s); }
static E start(vp::Src& s) { GenOpt o = genOpt(s); o.files = true; Gen g(s, o); E t = g.run(); return toFile(t, &s); }

// a sound document with a few planted defects: exactly these are reported
static void planted(vp::Src& s, vp::Ctx& c)
{
	E root = start(s); size_t n = s.chance(8) ? 0 : 1 + s.draw(4); std::vector<Defect> ds; str log;
	for (size_t i = 0; i < n; i++) {
		std::vector<Spot> all; std::vector<Spot> sp; spots(root, nullptr, nullptr, all);
		std::set<E*> closed;   // nothing more goes into elements that are dropped
		for (auto& p : all) { if (p.e->has("~c") || (p.parent && closed.count(p.parent))) closed.insert(p.e); else if (!p.e->has("~d")) sp.push_back(p); }
		if (sp.empty()) break;
		for (int tries = 0; tries < 12; tries++) {
			auto& pl = s.pick(plants()); Defect d; bool ok = false; size_t from = s.draw(sp.size());
			for (size_t k = 0; k < sp.size() && !ok; k++) { Spot& p = sp[(from + k) % sp.size()]; if (pl.second(p, s, d)) { ok = true; if (!d.at) d.at = p.e; } }
			if (!ok) continue;
			d.at->set("~d", fmt("%zu", ds.size())); if (d.closed || pl.first == "start of a set") d.at->set("~c", "");
			log += fmt("%s: %s in <%s Name=\"%s\">\n", pl.first.c_str(), d.what.c_str(), d.at->name.c_str(), d.at->val("Name").c_str()); c.label(pl.first); d.at = nullptr; d.first = (int) ds.size(); ds.push_back(d); for (auto& m : d.more) { Defect o = d; o.message = m; o.what = "attribute " + m; ds.push_back(o); log += "and " + m + "\n"; } break;
		}
		if (!ds.empty() && ds.back().loose) break;   // what hangs on it is reported as well: nothing more
	}
	str xml = document(root, s); c.sample = log + xml; c.nontrivial = !ds.empty() && root.total() >= 40;
	Located l = locate(root, xml); std::vector<size_t> at(ds.size(), 0); for (auto& p : l.at) if (auto v = p.first->get("~d")) if (!v->empty()) at[atoi(v->c_str())] = p.second;
	for (size_t i = 0; i < ds.size(); i++) at[i] = at[ds[i].first];
	IGdtfFixturePtr f = newFixture(); readFrom(f, zip(xml, s), s.coin(), c); auto er = reported(f, c); std::vector<int> seen(ds.size(), 0); str list; for (auto& e : er) list += text(e) + "\n";
	bool masters = false; for (auto& d : ds) masters = masters || d.kind == (int) P::eDMXModeMastersUnresolved;
	for (auto& e : er) {
		if (masters && (e.kind == (int) P::eFixtureChannelFunctionMissingModeMaster || e.kind == (int) P::eFixtureChannelFunctionModeMasterOverlap)) continue;   // functions without their master overlap
		bool mine = false; str why = "is about nothing that is wrong";
		for (size_t i = 0; i < ds.size(); i++) {
			auto& w = l.all[at[i]]; bool here = e.line == w.line && e.node == w.node && e.name == w.name;
			if (e.kind == ds[i].kind && !seen[i]) {
				if (here && e.message == ds[i].message) { seen[i] = 1; mine = true; break; }
				if (here) why = "should say \"" + ds[i].message + "\""; else why = fmt("should be at <%s Name=\"%s\"> line %zu", w.node.c_str(), w.name.c_str(), w.line);
			}
			if (ds[i].loose || (here && ds[i].also.count(e.kind))) mine = true;
		}
		if (!mine) c.fail(fmt("reported-%d", e.kind), "the error " + text(e) + " " + why + "\nplanted:\n" + log + "reported:\n" + list);
	}
	for (size_t i = 0; i < ds.size(); i++) if (!seen[i]) c.fail(fmt("unreported-%d", ds[i].kind), fmt("%s in <%s Name=\"%s\"> line %zu is not reported as %d\nplanted:\n", ds[i].what.c_str(), l.all[at[i]].node.c_str(), l.all[at[i]].name.c_str(), l.all[at[i]].line, ds[i].kind) + log + "reported:\n" + list);
}
// whatever is wrong: what is reported names an element of the document and its line
static void located(vp::Src& s, vp::Ctx& c)
{
	E root = start(s); str log; mut::damageTree(root, s, log); str xml = document(root, s); c.sample = log + "\n" + xml;
	Located l = locate(root, xml); std::set<std::pair<size_t, str>> have; auto key = [](const str& node, const str& name) { str o = node + "\n"; for (unsigned char ch : name) if (ch > 32 && ch < 127) o += (char) ch; return o; };
	for (auto& w : l.all) have.insert({w.line, key(w.node, w.name)});
	IGdtfFixturePtr f = newFixture(); str data = zip(xml, s); if (f->FromBuffer(data.data(), data.size()) != 0) return;
	auto er = reported(f, c); c.nontrivial = er.size() >= 2; static const std::set<int> whole = {(int) P::eFixtureNoGdtfFileInXmlBuffer, (int) P::eFixtureChannelFunctionMissingModeMaster, (int) P::eFixtureChannelFunctionModeMasterOverlap};
	for (auto& e : er) {
		if (whole.count(e.kind) || (e.kind == (int) P::eXmlParsingError && e.node.empty())) continue;
		c.check(have.count({e.line, key(e.node, e.name)}), fmt("place-%d", e.kind), "the error " + text(e) + " names no element of the document on that line; damage: " + log);
		if (e.kind == (int) P::eNodeMissingMandatoryAttribute || e.kind == (int) P::eNodeWrongAttribute) c.check(!e.message.empty(), "no-attribute", "the error " + text(e) + " does not say which attribute it is about");
	}
}
// a document that is not XML is reported as such, and nothing else is
static void notXml(vp::Src& s, vp::Ctx& c)
{
	E root = start(s); str xml = document(root, s, true), what; std::vector<size_t> b; starts(xml, b); size_t i = s.draw(b.size()), p = b[i];
	switch (s.draw(4)) {
		case 0: xml.resize(p + 1 + s.draw(3)); what = "cut in a tag"; break;
		case 1: { xml.resize(xml.rfind("</")); what = "last tag missing"; break; }
		case 2: { size_t e = xml.rfind("</GDTF"); xml.replace(e, 6, "</GDTG"); what = "other closing tag"; break; }
		default: { size_t e = xml.find_first_of(" />", p + 1); xml.insert(e, " Unquoted=5"); what = "value without quotes"; break; }
	}
	c.sample = what + "\n" + xml; c.nontrivial = b.size() >= 40; size_t lines = lineOf(xml, xml.size());
	IGdtfFixturePtr f = newFixture(); str data = zip(xml, s); VCOMError r = f->FromBuffer(data.data(), data.size()); if (r != 0) return;
	auto er = reported(f, c); bool found = false; str list; for (auto& e : er) { list += text(e) + "\n"; if (e.kind == (int) P::eXmlParsingError) { found = true; c.check(e.line >= 1 && e.line <= lines, "xml-line", fmt("%s, but the document has %zu lines", text(e).c_str(), lines)); } }
	c.check(found, "not-xml", "a description that is not XML (" + what + ") is read without saying so; reported:\n" + list);
}
// what an earlier document had wrong is forgotten with it
static void again(vp::Src& s, vp::Ctx& c)
{
	E root = start(s); E bad = root; str log; mut::damageTree(bad, s, log); str x1 = zip(document(bad, s), s), x2 = zip(document(root, s), s); c.sample = log;
	IGdtfFixturePtr f = newFixture(), g = newFixture(); bool same = s.coin(), asFile = s.coin();
	if (f->FromBuffer(x1.data(), x1.size()) != 0) throw vp::Discard{};
	auto before = reported(f, c); c.nontrivial = !before.empty();
	readFrom(same ? (IGdtfFixture*) f : (IGdtfFixture*) g, x2, asFile, c); auto er = reported(same ? f : g, c);
	c.check(er.empty(), "leftover", fmt("%zu errors for a sound description read after a damaged one, first ", er.size()) + (er.empty() ? str() : text(er[0])));
	if (!same) { auto now = reported(f, c); str a, b; for (auto& e : before) a += text(e) + "\n"; for (auto& e : now) b += text(e) + "\n"; c.eq(b, a, "kept", "errors of a fixture after another one was read"); }
}
VP_SUITE
{
	s.property = "G10"; s.rule = "the description has at least 40 elements and something wrong in it (for damaged ones: at least two errors are reported)"; s.quickCases = 12000; s.thoroughCases = 250000;
	s.props.push_back({"planted-defects", 6, planted});
	s.props.push_back({"error-places", 2, located});
	s.props.push_back({"not-xml", 1, notXml});
	s.props.push_back({"forgotten", 1, again});
}
