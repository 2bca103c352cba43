// G07: every reference resolves to the object it names; one that names nothing resolves to nothing,
// is reported where errors are reported, and leaves the others alone.
#include "gdtf_file.h"
using namespace gdtf;

static void eachE(E& e, const std::function<void(E&)>& f) { f(e); for (auto& k : e.kids) eachE(k, f); }
struct Kind { const char* node; const char* attr; int error; };   // error 0: not reported
static const std::vector<Kind>& kinds()
{
	typedef EGdtfParsingError P;
	static const std::vector<Kind> k = {
		{"Attribute", "ActivationGroup", (int) P::eAttributeUnresolvedActivationGroup}, {"Attribute", "Feature", (int) P::eAttributeUnresolvedFeature}, {"Attribute", "MainAttribute", (int) P::eAttributeUnresolvedMainAttribute},
		{"Slot", "Filter", 0}, {"*", "Model", (int) P::eGeometryUnresolvedModel}, {"GeometryReference", "Geometry", (int) P::eGeometryReferenceUnresolvedLink}, {"Beam", "EmitterSpectrum", 0}, {"Laser", "Emitter", 0},
		{"Structure", "LinkedGeometry", 0}, {"PinPatch", "ToWiringObject", 0}, {"DMXMode", "Geometry", (int) P::eDmxModeUnresolvedGeometry}, {"DMXChannel", "Geometry", (int) P::eFixtureDMXChannelMissingGeometryLink},
		{"DMXChannel", "InitialFunction", (int) P::eFixtureDMXChannelUnresolvedChannelFunction}, {"LogicalChannel", "Attribute", (int) P::eFixtureLogicalChannelMissingAttribute}, {"ChannelFunction", "Attribute", (int) P::eChannelFunctionMissingAttribute},
		{"ChannelFunction", "ModeMaster", (int) P::eDMXModeMastersUnresolved}, {"ChannelFunction", "Wheel", 0}, {"ChannelFunction", "Emitter", 0}, {"ChannelFunction", "Filter", 0}, {"ChannelFunction", "ColorSpace", 0}, {"ChannelFunction", "Gamut", 0}, {"ChannelFunction", "DMXProfile", 0},
		{"SubChannelSet", "DMXProfile", 0}, {"Relation", "Master", 0}, {"Relation", "Follower", 0}, {"FTMacro", "ChannelFunction", 0}, {"MacroDMXValue", "DMXChannel", (int) P::eDmxMacroDmxValueChannelReference}, {"MacroVisualValue", "ChannelFunction", 0},
		{"DMXPersonality", "DMXMode", (int) P::eValueError_UnresolvedRdmPersonalityMode}};
	return k;
}
static const Kind* kindOf(const E& e, const str& attr) { for (auto& k : kinds()) if (attr == k.attr && (e.name == k.node || str(k.node) == "*")) return &k; return nullptr; }

// what a reference may look like that names nothing: close to names there are
static str wrongName(vp::Src& s, const str& was, const std::vector<str>& others, const std::set<str>& taken)
{
	for (int t = 0; t < 12; t++) {
		str n = s.chance(60) || others.empty() ? was : s.pick(others);
		switch (s.draw(7)) {
			case 0: n += (char) ('a' + s.draw(26)); break;
			case 1: if (n.size() > 1) n.pop_back(); break;
			case 2: n = "x" + n; break;
			case 3: { size_t p = n.find('.'); if (p != str::npos) n = s.coin() ? n.substr(p + 1) : n.substr(0, p); else n += "." + n; break; }
			case 4: n += ".1"; break;
			case 5: { size_t p = s.draw(n.size()); n[p] = n[p] == 'q' ? 'z' : 'q'; break; }
			default: break;   // the name of something of another kind
		}
		if (!n.empty() && n[0] != ' ' && n.back() != ' ' && !taken.count(doc::lower(n))) return n;
	}
	return "names nothing";
}
// every text a reference of this kind can have in this tree, in lower case
static void names(E& t, const Kind& k, const E* mode, std::set<str>& out)
{
	str a = k.attr, n = k.node; auto put = [&](const str& x) { out.insert(doc::lower(x)); };
	E& ad = *t.kid("AttributeDefinitions"); E& pd = *t.kid("PhysicalDescriptions");
	auto list = [&](E* l) { if (l) for (auto& x : l->kids) put(x.val("Name")); };
	if (a == "ActivationGroup") list(ad.kid("ActivationGroups"));
	else if (a == "Feature") { for (auto& g : ad.kid("FeatureGroups")->kids) for (auto& f : g.kids) put(g.val("Name") + "." + f.val("Name")); }
	else if (a == "MainAttribute" || a == "Attribute") { list(ad.kid("Attributes")); put("NoFeature"); }
	else if (a == "Filter") list(pd.kid("Filters")); else if (a == "EmitterSpectrum" || a == "Emitter") list(pd.kid("Emitters")); else if (a == "ColorSpace") { list(pd.kid("AdditionalColorSpaces")); for (auto& x : pd.kids) if (x.name == "ColorSpace") put(x.val("Name")); }
	else if (a == "Gamut") list(pd.kid("Gamuts")); else if (a == "DMXProfile") list(pd.kid("DMXProfiles")); else if (a == "Wheel") list(t.kid("Wheels")); else if (a == "Model") list(t.kid("Models")); else if (a == "DMXMode") list(t.kid("DMXModes"));
	else if (a == "Geometry" || a == "LinkedGeometry" || a == "ToWiringObject") eachE(*t.kid("Geometries"), [&](E& e) { if (e.has("Name")) put(e.val("Name")); });
	else for (auto& m : t.kid("DMXModes")->kids) if (!mode || &m == mode || m.val("Name") == mode->val("Name")) for (auto& c : m.kid("DMXChannels")->kids) { put(chanName(c)); for (auto& l : c.kids) { put(chanName(c) + "." + l.val("Attribute")); for (size_t i = 0; i < l.kids.size(); i++) put(chanName(c) + "." + l.val("Attribute") + "." + funName(l.kids[i], i)); } }
}
struct Site { E* e; str attr; const Kind* k; E* mode; };
static void sites(E& e, E* mode, std::vector<Site>& out)
{
	if (e.name == "DMXMode") mode = &e;
	for (auto& a : e.at) if (const Kind* k = kindOf(e, a.first)) out.push_back(Site{&e, a.first, k, mode});
	for (auto& k : e.kids) sites(k, mode, out);
}
static GenOpt options(vp::Src& s)
{
	GenOpt o; o.size = 1 + (int) s.draw(3); o.files = true; if (s.chance(12)) o.manyElements = true; if (s.chance(8)) o.manyChannels = true; return o;
}
struct Conf { Conf(bool b) { doc::confusing() = b; } ~Conf() { doc::confusing() = false; } };

static void valid(vp::Src& s, vp::Ctx& c)
{
	Conf k(s.coin()); Gen g(s, options(s)); E t = g.run(); std::vector<Site> st; sites(t, nullptr, st); c.nontrivial = st.size() >= 5; E want = normalise(t, false); E root = toFile(t, &s); c.sample = doc::render(root);
	IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c); noErrors(f); same(dump(f), want, "valid");
}
static void dangling(vp::Src& s, vp::Ctx& c)
{
	Conf conf(s.coin()); GenOpt o = options(s); o.overlaps = false; Gen g(s, o); E t = g.run(); std::vector<Site> st; sites(t, nullptr, st); if (st.empty()) throw vp::Discard{};
	// what is referred to by a path cannot lose its name
	auto referred = [&](const str& path, E* mode, const Site& self) { for (auto& x : st) if (x.mode == mode && (x.e != self.e || x.attr != self.attr)) { str v = x.e->val(x.attr); if (str(x.attr) != "Attribute" && str(x.attr) != "Geometry" && v.size() >= path.size() && v.compare(0, path.size(), path) == 0) return true; } return false; };
	std::map<int, int> need; size_t n = 1 + s.count(6), done = 0; E bad = t; std::vector<Site> bs; sites(bad, nullptr, bs); str log; std::set<size_t> used;
	for (size_t i = 0; i < n; i++) {
		// any kind as often as any other
		std::map<const Kind*, std::vector<size_t>> by; for (size_t j = 0; j < st.size(); j++) if (!used.count(j)) by[st[j].k].push_back(j); if (by.empty()) break;
		auto it = by.begin(); std::advance(it, (long) s.draw(by.size())); size_t at = s.pick(it->second); Site& x = st[at]; str a = x.attr; used.insert(at);
		if (x.e->name == "DMXChannel" && a == "Geometry") { bool nameless = false; for (auto& l : x.e->kids) for (auto& q : l.kids) nameless = nameless || q.val("Name").empty(); if (nameless || x.e->has("InitialFunction") || referred(chanName(*x.e), x.mode, x)) continue; }
		if (x.e->name == "LogicalChannel" && a == "Attribute") { bool skip = false; for (auto& m : t.kid("DMXModes")->kids) for (auto& ch : m.kid("DMXChannels")->kids) for (auto& l : ch.kids) if (&l == x.e) skip = std::any_of(l.kids.begin(), l.kids.end(), [](const E& q) { return q.val("Name").empty(); }) || ch.has("InitialFunction") || referred(chanName(ch), &m, x) || &l != &ch.kids[0] || ch.kids.size() > 1; if (skip) continue; }
		if (x.e->name == "ChannelFunction" && a == "Attribute") {
			if (x.e->count("SubChannelSet")) continue;
			if (x.e->val("Name").empty()) { bool skip = true; for (auto& m : t.kid("DMXModes")->kids) for (auto& ch : m.kid("DMXChannels")->kids) for (auto& l : ch.kids) for (size_t q = 0; q < l.kids.size(); q++) if (&l.kids[q] == x.e) skip = (!q && &l == &ch.kids[0]) || referred(chanName(ch) + "." + l.val("Attribute") + "." + funName(*x.e, q), &m, x); if (skip) continue; x.e->set("~Nameless", "1"); }
		}
		std::set<str> taken; names(t, *x.k, x.mode, taken); std::vector<str> others; { std::set<str> all; for (auto& y : st) all.insert(y.e->val(y.attr)); others.assign(all.begin(), all.end()); }
		str w = wrongName(s, x.e->val(a), others, taken); bs[at].e->set(a, w); log += x.e->name + "." + a + "=" + w + " "; c.label(x.e->name + "." + a); done++; if (x.k->error) need[x.k->error]++;
		// in the model there is no reference
		if (a == "Geometry" && x.e->name == "DMXChannel") x.e->set("~NoGeo", "1"); else if (x.e->name == "LogicalChannel") x.e->set("~NoAttr", "1"); else if (x.e->name == "ChannelFunction" && a == "Attribute") x.e->set("~NoAttr", "1"); else { x.e->set("~no" + a, "1"); }
	}
	c.nontrivial = done > 0; E want = normalise(t, false);
	eachE(want, [&](E& e) {
		std::vector<str> gone; for (auto& a : e.at) if (a.first.compare(0, 3, "~no") == 0) gone.push_back(a.first); for (auto& a : gone) { str r = a.substr(3); e.del(a); e.del(r); if (r == "ModeMaster") { e.del("ModeFrom"); e.del("ModeTo"); } }
	});
	E root = toFile(bad, &s); c.sample = log + "\n" + doc::render(root);
	eachE(want, [&](E& e) { if (e.name == "MacroDMXValue" && !e.has("DMXChannel")) e.set("Value", "0/1"); if (e.name == "MacroVisualValue" && !e.has("ChannelFunction")) e.set("Value", "0/1"); });
	for (auto& m : want.kid("DMXModes")->kids) for (auto& ch : m.kid("DMXChannels")->kids) {
		bool g = ch.has("~NoGeo"), any = g; for (auto& l : ch.kids) any = any || l.has("~NoAttr");
		if (any && !ch.kids.empty() && !ch.kids[0].kids.empty()) { str a = ch.kids[0].has("~NoAttr") ? str("?") : ch.kids[0].val("Attribute"); ch.set("InitialFunction", (g ? str() : ch.val("Geometry")) + "_" + a + "." + a + "." + ch.kids[0].kids[0].val("Name")); }
		if (g) { ch.del("~NoGeo"); ch.del("Geometry"); } eachE(ch, [](E& e) { if (e.has("~NoAttr")) { e.del("~NoAttr"); e.del("Attribute"); } if (e.has("~Nameless")) { e.del("~Nameless"); e.set("Name", ""); } });
	}
	IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c);
	std::map<int, int> got; auto er = errors(f); for (auto& e : er) got[atoi(e.c_str())]++;
	for (auto& p : need) c.check(got[p.first] >= p.second, fmt("unreported-%d", p.first), fmt("%d errors %d for %d references that name nothing: ", got[p.first], p.first, p.second) + log);
	same(dump(f), want, "dangling");
}
VP_SUITE
{
	s.property = "G07"; s.rule = "at least five references, or at least one that names nothing"; s.quickCases = 9000; s.thoroughCases = 300000;
	s.props = {{"valid", 1, valid}, {"dangling", 2, dangling}};
}
