// G01: what is built through the interface is what the saved file and the reopened fixture hold.
#include "gdtf_gen.h"
using namespace gdtf;

static E expectedAsBuilt(const E& t) { return asBuilt(t); }

static size_t nodes(const E& t) { return t.total(); }

static void writeRead(vp::Src& s, vp::Ctx& c)
{
	GenOpt o = genOpt(s); Gen g(s, o); E t = g.run(); c.sample = doc::render(t); c.nontrivial = nodes(t) >= 40;
	str p1 = c.scratch + "/a.gdtf", p2 = c.scratch + "/b.gdtf";
	bool defaults = s.coin(), look = s.chance(20); E want = normalise(t, true);
	{
		IGdtfFixturePtr f = newFixture(); open(f, t, p1);
		Build b; b.f = f; b.defaults = defaults;
		// characters a name may not have are left out; what was created under one name can be renamed
		if (s.chance(20)) b.dress = [&s](const str& n) {
			str o = n; for (size_t i = 0, k = s.count(3); i < k; i++) { size_t at = s.draw(o.size() + 1); while (at < o.size() && ((unsigned char) o[at] & 0xC0) == 0x80) at++; o.insert(at, s.oneof<const char*>({"!", "?", "[", "]", "^", "{", "}", "|", "~", "\\", "\xC3\xA9", "\xE6\x97\xA5", "\t", "\n"})); }
			return o;
		};
		if (s.chance(30)) { b.interim = [&s] { return s.chance(40); }; b.soon = [&s] { return s.coin(); }; }
		b.run(t);
		if (look) same(dump(f), expectedAsBuilt(t), "built");
		must(f->Close(), "Close");
	}
	{
		IGdtfFixturePtr f = newFixture(); must(f->ReadFromFile(p1.c_str()), "ReadFromFile"); noErrors(f); same(dump(f), want, "read");
	}
}
// ---- a fixture that was read or built is changed through the objects it hands out, and written again
static void visit(E& e, const std::function<void(E&)>& f) { f(e); for (auto& k : e.kids) visit(k, f); }
struct Edit {
	vp::Src& s; IGdtfFixture* f; E& t; str log; doc::Names fresh{true}; size_t done = 0;
	Edit(vp::Src& src, IGdtfFixture* fix, E& tree) : s(src), f(fix), t(tree) { visit(t, [&](E& e) { fresh.used.insert(doc::lower(e.val("Name"))); }); }
	E& pd() { return *t.kid("PhysicalDescriptions"); }
	E& ad() { return *t.kid("AttributeDefinitions"); }
	void relabel(const std::set<str>& attrs, const str& a, const str& b, const std::set<str>& nodes = {}) { visit(t, [&](E& e) { if (nodes.empty() || nodes.count(e.name)) for (auto& x : e.at) if (attrs.count(x.first) && x.second == a) x.second = b; }); }
	template <class P> void rename(P p, E& e, const std::set<str>& attrs, const std::set<str>& nodes = {}) { str a = e.val("Name"), b = fresh.fresh(s); must(p->SetName(b.c_str()), "SetName"); log += e.name + " " + vp::quote(a) + " is now " + vp::quote(b) + "; "; e.set("Name", b); relabel(attrs, a, b, nodes); done++; }
	template <class T> void values(const std::vector<A<T>>& tab, T* o, E& e)
	{
		E n(e.name); doc::genAttrs(tab, n, s); if (tab.empty()) return; log += "values of " + e.name + " " + vp::quote(e.val("Name")) + "; "; done++;
		if (s.coin()) { setAll(tab, o, n, true); for (auto& a : tab) e.set(a.name, n.val(a.name)); }
		else { auto& a = s.pick(tab); must(a.set(o, n.val(a.name)), e.name + ".Set" + a.name); e.set(a.name, n.val(a.name)); }
	}
	bool some(E* l, size_t& i) { if (!l || l->kids.empty()) return false; i = s.draw(l->kids.size()); return true; }
	// names of channels follow from their geometry and attribute
	template <class F> void keepChannels(F change)
	{
		static const std::set<str> composite = {"InitialFunction", "ModeMaster", "Master", "Follower", "ChannelFunction", "DMXChannel"};
		std::vector<std::vector<str>> was; for (auto& m : t.kid("DMXModes")->kids) { was.emplace_back(); for (auto& c : m.kid("DMXChannels")->kids) was.back().push_back(chanName(c)); }
		change(); size_t mi = 0;
		for (auto& m : t.kid("DMXModes")->kids) {
			std::vector<std::pair<str, str>> map; size_t ci = 0; for (auto& c : m.kid("DMXChannels")->kids) map.push_back({was[mi][ci++], chanName(c)}); mi++;
			std::stable_sort(map.begin(), map.end(), [](const std::pair<str, str>& a, const std::pair<str, str>& b) { return a.first.size() > b.first.size(); });
			visit(m, [&](E& e) { for (auto& x : e.at) if (composite.count(x.first)) for (auto& p : map) if (x.second == p.first || x.second.compare(0, p.first.size() + 1, p.first + ".") == 0) { x.second = p.second + x.second.substr(p.first.size()); break; } });
		}
	}
	IGdtfModelPtr model(size_t i) { IGdtfModelPtr p; must(f->GetModelAt(i, &p), "GetModelAt"); return p; }
	void geometry()
	{
		size_t i; E* l = t.kid("Geometries"); if (!some(l, i)) return; IGdtfGeometryPtr p; must(f->GetGeometryAt(i, &p), "GetGeometryAt"); E* e = &l->kids[i];
		for (;;) {
			std::vector<E*> in; for (auto& k : e->kids) if (k.name != "Break" && k.name != "PinPatch" && k.name != "Protocol") in.push_back(&k);
			if (in.empty() || s.coin()) break; size_t k = s.draw(in.size()); IGdtfGeometryPtr q; must(p->GetInternalGeometryAt(k, &q), "GetInternalGeometryAt"); p = q; e = in[k];
		}
		switch (s.draw(4)) {
			case 0: keepChannels([&] { rename(p, *e, {"Geometry", "LinkedGeometry", "ToWiringObject"}); }); break;
			case 1: { size_t m; E* ms = t.kid("Models"); if (!some(ms, m)) break; IGdtfModelPtr x = model(m); IGdtfModel* raw = x; must(p->SetModel(&raw), "SetModel"); e->set("Model", ms->kids[m].val("Name")); log += "model of " + e->val("Name") + "; "; done++; break; }
			case 2: { str m = genMat(s, true); STransformMatrix x = toMat(m); must(p->SetTransformMatrix(x), "SetTransformMatrix"); e->set("~Position", m); log += "position of " + e->val("Name") + "; "; done++; break; }
			default: values(geoTab(e->name), (IGdtfGeometry*) p, *e);
		}
	}
	void attribute()
	{
		size_t i, j, k; E* l = ad().kid("Attributes"); if (!some(l, i)) return; E& e = l->kids[i]; IGdtfAttributePtr p; must(f->GetAttributeAt(i, &p), "GetAttributeAt");
		switch (s.draw(3)) {
			case 0: { E* g = ad().kid("FeatureGroups"); if (!some(g, j) || !some(&g->kids[j], k)) return; IGdtfFeatureGroupPtr a; must(f->GetFeatureGroupAt(j, &a), "GetFeatureGroupAt"); IGdtfFeaturePtr b; must(a->GetFeatureAt(k, &b), "GetFeatureAt"); must(p->SetFeature(b), "SetFeature"); e.set("Feature", g->kids[j].val("Name") + "." + g->kids[j].kids[k].val("Name")); break; }
			case 1: { E* g = ad().kid("ActivationGroups"); if (!some(g, j)) return; IGdtfActivationGroupPtr a; must(f->GetActivationGroupAt(j, &a), "GetActivationGroupAt"); must(p->SetActivationGroup(a), "SetActivationGroup"); e.set("ActivationGroup", g->kids[j].val("Name")); break; }
			default: { if (!some(l, j) || j == i) return; IGdtfAttributePtr a; must(f->GetAttributeAt(j, &a), "GetAttributeAt"); must(p->SetMainAttribute(a), "SetMainAttribute"); e.set("MainAttribute", l->kids[j].val("Name")); }
		}
		log += "links of attribute " + vp::quote(e.val("Name")) + "; "; done++;
	}
	void slot()
	{
		size_t i, j, k; E* l = t.kid("Wheels"); if (!some(l, i) || !some(&l->kids[i], j)) return; E& e = l->kids[i].kids[j]; IGdtfWheelPtr w; must(f->GetWheelAt(i, &w), "GetWheelAt"); IGdtfWheelSlotPtr p; must(w->GetWheelSlotAt(j, &p), "GetWheelSlotAt");
		switch (s.draw(3)) {
			case 0: rename(p, e, {}); break;
			case 1: { E* fs = pd().kid("Filters"); if (!some(fs, k)) return; IGdtfFilterPtr x; must(f->GetFilterAt(k, &x), "GetFilterAt"); must(p->SetFilter(x), "SetFilter"); e.set("Filter", fs->kids[k].val("Name")); log += "filter of a slot; "; done++; break; }
			default: values(slotTab(), (IGdtfWheelSlot*) p, e);
		}
	}
	void physical()
	{
		size_t i;
		switch (s.draw(6)) {
			case 0: { E* l = pd().kid("Filters"); if (!some(l, i)) return; IGdtfFilterPtr p; must(f->GetFilterAt(i, &p), "GetFilterAt"); if (s.coin()) values(filterTab(), (IGdtfFilter*) p, l->kids[i]); else rename(p, l->kids[i], {"Filter"}); break; }
			case 1: { E* l = pd().kid("Emitters"); if (!some(l, i)) return; IGdtfPhysicalEmitterPtr p; must(f->GetEmitterAt(i, &p), "GetEmitterAt"); if (s.coin()) values(emitTab(), (IGdtfPhysicalEmitter*) p, l->kids[i]); else rename(p, l->kids[i], {"Emitter", "EmitterSpectrum"}); break; }
			case 2: { E* l = pd().kid("Gamuts"); if (!some(l, i)) return; IGdtfGamutPtr p; must(f->GetGamutAt(i, &p), "GetGamutAt"); rename(p, l->kids[i], {"Gamut"}); break; }
			case 3: { E* l = pd().kid("DMXProfiles"); if (!some(l, i)) return; IGdtfDMXProfilePtr p; must(f->GetDMXProfileAt(i, &p), "GetDMXProfileAt"); rename(p, l->kids[i], {"DMXProfile"}); break; }
			case 4: { E* l = pd().kid("Connectors"); if (!some(l, i)) return; IGdtfConnectorPtr p; must(f->GetConnectorAt(i, &p), "GetConnectorAt"); if (s.coin()) values(connTab(), (IGdtfConnector*) p, l->kids[i]); else rename(p, l->kids[i], {}); break; }
			default: { E* l = pd().kid("AdditionalColorSpaces"); if (!some(l, i)) return; IGdtfColorSpacePtr p; must(f->GetAdditionalColorSpaceAt(i, &p), "GetAdditionalColorSpaceAt"); rename(p, l->kids[i], {"ColorSpace"}, {"ChannelFunction"}); }
		}
	}
	void mode()
	{
		size_t i, j, k, q; E* l = t.kid("DMXModes"); if (!some(l, i)) return; E& e = l->kids[i]; IGdtfDmxModePtr m; must(f->GetDmxModeAt(i, &m), "GetDmxModeAt");
		if (s.chance(20)) { E* ms = e.kid("FTMacros"); if (!some(ms, j)) return; IGdtfMacroPtr p; must(m->GetDmxMacroAt(j, &p), "GetDmxMacroAt"); rename(p, ms->kids[j], {}); return; }
		E* cs = e.kid("DMXChannels"); if (!some(cs, j) || !some(&cs->kids[j], k)) return; IGdtfDmxChannelPtr ch; must(m->GetDmxChannelAt(j, &ch), "GetDmxChannelAt"); IGdtfDmxLogicalChannelPtr lc; must(ch->GetLogicalChannelAt(k, &lc), "GetLogicalChannelAt"); E& le = cs->kids[j].kids[k];
		if (s.chance(30)) { values(logTab(), (IGdtfDmxLogicalChannel*) lc, le); return; }
		if (!some(&le, q)) return; E& fe = le.kids[q]; IGdtfDmxChannelFunctionPtr fn; must(lc->GetDmxFunctionAt(q, &fn), "GetDmxFunctionAt");
		if (s.coin()) values(funTab(), (IGdtfDmxChannelFunction*) fn, fe);
		else { E* es = pd().kid("Emitters"); size_t x; if (!some(es, x)) return; IGdtfPhysicalEmitterPtr em; must(f->GetEmitterAt(x, &em), "GetEmitterAt"); must(fn->SetEmitter(em), "SetEmitter"); fe.set("Emitter", es->kids[x].val("Name")); log += "emitter of a function; "; done++; }
	}
	void step()
	{
		switch (s.draw(9)) {
			case 0: values(fixTab(), f, t); break;
			case 1: { size_t i; E* l = t.kid("Models"); if (!some(l, i)) return; IGdtfModelPtr p = model(i); if (s.coin()) values(modelTab(), (IGdtfModel*) p, l->kids[i]); else rename(p, l->kids[i], {"Model"}); break; }
			case 2: case 3: geometry(); break;
			case 4: attribute(); break;
			case 5: slot(); break;
			case 6: physical(); break;
			case 7: { size_t i, j; E* g = ad().kid("FeatureGroups"); if (!some(g, i) || !some(&g->kids[i], j)) return; IGdtfFeatureGroupPtr a; must(f->GetFeatureGroupAt(i, &a), "GetFeatureGroupAt"); IGdtfFeaturePtr p; must(a->GetFeatureAt(j, &p), "GetFeatureAt"); E& e = g->kids[i].kids[j]; str was = g->kids[i].val("Name") + "." + e.val("Name"); rename(p, e, {}); relabel({"Feature"}, was, g->kids[i].val("Name") + "." + e.val("Name"), {"Attribute"}); break; }
			default: mode();
		}
	}
};
static void edited(vp::Src& s, vp::Ctx& c)
{
	GenOpt o = genOpt(s); if (o.size > 1) o.size = 1; if (!s.chance(10)) o.manyChannels = o.manyElements = false; Gen g(s, o); E t = g.run(); E want = normalise(t, true); str path = c.scratch + "/a.gdtf"; bool toDisk = s.coin();
	IGdtfFixturePtr f = newFixture(); open(f, t, toDisk ? path : str()); Build b; b.f = f; b.run(t); must(f->Close(), "Close");
	auto buffer = [&] { size_t n = 0; must(f->GetBufferLength(n), "GetBufferLength"); str d(n, 0); must(f->ToBuffer(&d[0]), "ToBuffer"); return d; };
	str data = toDisk && s.coin() ? vp::readFile(path) : buffer(); bool reread = s.chance(70); size_t edits = 0;
	if (reread) { if (s.coin()) f = newFixture(); must(f->FromBuffer(data.data(), data.size()), "FromBuffer"); noErrors(f); }
	else want = t;
	for (size_t r = 0, rounds = 1 + s.draw(3); r < rounds; r++) {
		Edit e(s, f, want); for (size_t i = 0, n = 1 + s.count(6); i < n; i++) e.step(); edits += e.done; c.sample += e.log + "written; "; c.nontrivial = edits >= 3;
		if (reread && s.coin()) same(dump(f), want, "edited");
		must(f->RefreshBuffer(), "RefreshBuffer"); data = buffer(); if (s.coin()) f = newFixture(); must(f->FromBuffer(data.data(), data.size()), "FromBuffer"); c.sample += "read; "; noErrors(f);
		want = normalise(want, true); reread = true; same(dump(f), want, "edited-read");
	}
}
VP_SUITE
{
	s.property = "G01"; s.rule = "the fixture has at least 40 elements, or at least three edits were made"; s.quickCases = 20000; s.thoroughCases = 60000;
	s.props.push_back({"write-read", 3, writeRead});
	s.props.push_back({"edited", 2, edited});
}
