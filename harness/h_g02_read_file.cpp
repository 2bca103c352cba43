// G02: a description written by another tool is reported with its documented meaning.
#include "gdtf_file.h"
using namespace gdtf;

static void eachE(E& e, const std::function<void(E&)>& f) { f(e); for (auto& k : e.kids) eachE(k, f); }

// what only files have: defaults given on the channel (GDTF 1.0), functions without an attribute
static void legacy(E& t, vp::Src& s)
{
	bool noAttr = s.chance(15), oldDef = s.chance(25); bool used = false;
	for (auto& m : t.kid("DMXModes")->kids) {
		std::map<str, str> renamed;
		for (auto& c : m.kid("DMXChannels")->kids) {
			if (oldDef && s.coin()) { str v = dmxText(s.draw(maxFor(resOf(c)) + 1), resOf(c)); bool any = false; for (auto& l : c.kids) for (auto& f : l.kids) { f.set("Default", v); any = true; } if (any) c.set("~LegacyDefault", v); }
			if (noAttr) for (auto& l : c.kids) for (size_t i = 0; i < l.kids.size(); i++) { E& f = l.kids[i]; if (f.count("SubChannelSet") || !s.coin()) continue; str p = chanName(c) + "." + l.val("Attribute") + "."; str was = p + funName(f, i); f.set("Attribute", "NoFeature"); f.set("~NoAttribute", "1"); used = true; renamed[was] = p + funName(f, i); }
		}
		eachE(m, [&](E& e) { for (auto& a : e.at) if (a.first == "InitialFunction" || a.first == "ModeMaster" || a.first == "Follower" || a.first == "ChannelFunction") { auto i = renamed.find(a.second); if (i != renamed.end()) a.second = i->second; } });
	}
	if (used) t.set("~NoFeature", "1");
}
static E expected(E t)
{
	if (t.has("~NoFeature")) {
		t.del("~NoFeature"); E& ad = *t.kid("AttributeDefinitions"); E& fg = *ad.kid("FeatureGroups"); E* g = nullptr; for (auto& x : fg.kids) if (doc::lower(x.val("Name")) == "control") { g = &x; break; }
		if (!g) { g = &fg.add("FeatureGroup"); g->set("Name", "Control"); g->set("Pretty", "Control"); }
		str fn; for (auto& x : g->kids) if (doc::lower(x.val("Name")) == "control") { fn = x.val("Name"); break; }
		if (fn.empty()) { g->add("Feature").set("Name", "Control"); fn = "Control"; }
		E& a = ad.kid("Attributes")->add("Attribute"); a.set("Name", "NoFeature"); a.set("Pretty", "NoFeature"); a.set("Feature", g->val("Name") + "." + fn); a.set("PhysicalUnit", "None");
	}
	eachE(t, [](E& e) { e.del("~LegacyDefault"); e.del("~NoAttribute"); });
	return normalise(t, false);
}
static E start(vp::Src& s, vp::Ctx& c)
{
	GenOpt o = genOpt(s); o.files = true; Gen g(s, o); E t = g.run(); c.nontrivial = t.total() >= 40; legacy(t, s); return t;
}
static void readFile(vp::Src& s, vp::Ctx& c)
{
	E t = start(s, c); E want = expected(t); E root = toFile(t, &s); c.sample = doc::render(root);
	str data = container(root, s);
	IGdtfFixturePtr f = newFixture(); readFrom(f, data, s.coin(), c); noErrors(f); same(dump(f), want, "read");
	Sint32 a = -5, b = -5; must(f->GetGDTFVersion(a, b), "GetGDTFVersion"); c.eq(fmt("%d.%d", a, b), root.val("DataVersion"), "version", "GDTF version");
}
// attributes and elements the format does not know do not disturb the others
static void unknown(vp::Src& s, vp::Ctx& c)
{
	E t = start(s, c); E want = expected(t); E root = toFile(t, &s); std::vector<E*> all; eachE(root, [&](E& e) { if (e.name != "GDTF") all.push_back(&e); });
	size_t n = 1 + s.count(6), attrs = 0; std::vector<std::pair<size_t, E>> elems; str where;
	static const std::set<str> plain = {"ActivationGroups", "FeatureGroups", "Attributes", "Wheels", "PhysicalDescriptions", "AttributeDefinitions", "Models", "Geometries", "DMXModes", "Revisions", "Protocols", "DMXChannels", "Relations", "FTMacros", "Emitters", "Filters", "DMXProfiles", "CRIs", "Connectors", "Properties", "Gamuts", "AdditionalColorSpaces", "MacroDMX", "MacroVisual", "OperatingTemperature", "Weight", "LegHeight"};
	for (size_t i = 0; i < n; i++) {
		size_t at = s.draw(all.size()); E* e = all[at];
		if (s.coin()) { if (plain.count(e->name)) continue; e->at.insert(e->at.begin() + s.draw(e->at.size() + 1), {fmt("Vendor%zu", i), doc::genText(s)}); attrs++; where += " " + e->name; }
		else { E k("VendorNode"); if (s.coin()) k.set("Name", doc::genText(s)); if (s.coin()) k.add("Inner").set("Name", "x"); elems.push_back({at, k}); }
	}
	std::stable_sort(elems.begin(), elems.end(), [](const std::pair<size_t, E>& a, const std::pair<size_t, E>& b) { return a.first > b.first; });   // inner elements first: pointers stay good
	for (auto& p : elems) all[p.first]->kids.push_back(p.second);
	c.sample = doc::render(root); c.nontrivial = c.nontrivial && attrs + elems.size() > 0;
	IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c);
	auto er = errors(f); size_t wrong = 0; for (auto& e : er) if (atoi(e.c_str()) == (int) EGdtfParsingError::eNodeWrongAttribute) wrong++; else if (e.find("/ node VendorNode /") == str::npos) c.fail("unknown-error-" + e.substr(0, e.find(' ')), "parsing error: " + e);
	c.check(wrong <= attrs, "unknown-count", fmt("%zu errors about %zu unknown attributes of", wrong, attrs) + where); same(dump(f), want, "unknown");
}
VP_SUITE
{
	s.property = "G02"; s.rule = "the description has at least 40 elements"; s.quickCases = 9000; s.thoroughCases = 200000;
	s.props.push_back({"file-read", 3, readFile});
	s.props.push_back({"unknown-content", 1, unknown});
}
