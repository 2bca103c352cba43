// G06: the breaks of a mode and their footprints are those implied by the addresses of its channels, also through geometry references.
#include "gdtf_file.h"
#include "Include/IMediaRessourceVectorInterface.h"
using namespace gdtf;

struct Geo { str name; int parent = -1, link = -1; bool ref = false; std::vector<std::pair<int, unsigned>> breaks; std::vector<size_t> kids; IGdtfGeometryPtr p; };
struct Ch { size_t geo; int brk; std::vector<int> off; IGdtfDmxChannelPtr p; };
struct World {
	std::vector<Geo> g; std::vector<Ch> ch; size_t top = 0;
	void tree(size_t i, std::set<size_t>& o) const { o.insert(i); for (size_t k : g[i].kids) tree(k, o); }
	void reach(size_t i, std::set<size_t>& refs) const { if (g[i].ref) { if (!refs.insert(i).second) return; if (g[i].link >= 0) reach(g[i].link, refs); } for (size_t k : g[i].kids) reach(k, refs); }
	std::set<int> breaks() const
	{
		std::set<int> o; for (auto& c : ch) if (c.brk) o.insert(c.brk); std::set<size_t> refs; reach(top, refs);
		for (size_t r : refs) if (g[r].link >= 0 && !g[r].breaks.empty()) { std::set<size_t> t; tree(g[r].link, t); for (auto& c : ch) if (!c.brk && t.count(c.geo)) o.insert(g[r].breaks.back().first); }
		return o;
	}
	size_t footprint(int b) const
	{
		if (!breaks().count(b)) return 0; std::set<long long> a; std::set<size_t> t; tree(top, t);
		for (size_t i : t) {
			for (auto& c : ch) if (c.geo == i && c.brk == b) for (int o : c.off) a.insert(o);
			if (!g[i].ref || g[i].link < 0) continue; std::set<size_t> l; tree(g[i].link, l); std::set<int> used; for (auto& c : ch) if (l.count(c.geo) && c.brk) used.insert(c.brk); auto& br = g[i].breaks; size_t idx = std::distance(used.begin(), used.find(b));
			if (used.count(b)) { long long add = idx < br.size() ? (long long) br[idx].second - 1 : 0; for (auto& c : ch) if (l.count(c.geo) && c.brk == b) for (int o : c.off) a.insert(o + add); }
			if (!br.empty() && br.back().first == b) for (auto& c : ch) if (l.count(c.geo) && !c.brk) for (int o : c.off) a.insert(o + (long long) br.back().second - 1);
		}
		return a.empty() ? 0 : (size_t) (*a.rbegin() - *a.begin() + 1);
	}
};
static void check(vp::Ctx& c, const World& w, IGdtfFixture* f, IGdtfDmxMode* m, const str& when)
{
	std::set<int> want = w.breaks(); size_t n = 0; must(m->GetBreakCount(n), "GetBreakCount"); std::vector<int> got; for (size_t i = 0; i < n; i++) { size_t b = 0xABAB; must(m->GetBreakAt(i, b), "GetBreakAt"); got.push_back((int) b); }
	auto text = [](auto& v) { str o; for (int b : v) o += fmt(" %d", b); return o; }; if (got != std::vector<int>(want.begin(), want.end())) c.fail("breaks", "breaks " + when + ":" + text(got) + ", expected" + text(want));
	size_t b = 0; c.check(m->GetBreakAt(n, b) != 0, "bounds", "GetBreakAt accepts the count");
	for (int k = 0; k <= 9; k++) { size_t p = 0xABAB; must(m->GetFootprintForBreak(k, p), "GetFootprintForBreak"); size_t e = w.footprint(k); if (p != e) c.fail("footprint", fmt("footprint of break %d ", k) + when + fmt(": %zu, expected %zu", p, e)); }
	// the channels of every geometry, in their order
	std::function<void(size_t, IGdtfGeometry*)> walk = [&](size_t i, IGdtfGeometry* g) {
		std::vector<size_t> mine; for (size_t k = 0; k < w.ch.size(); k++) if (w.ch[k].geo == i) mine.push_back(k); size_t cnt = 0xABAB; must(g->GetCountLinkedDmxChannel(cnt, m), "GetCountLinkedDmxChannel"); c.eq(cnt, mine.size(), "linked", "channels of geometry " + w.g[i].name + " " + when);
		for (size_t k = 0; k < cnt; k++) { IGdtfDmxChannelPtr d; must(g->GetLinkedDmxChannelAt(k, &d, m), "GetLinkedDmxChannelAt"); Sint32 o = -1; must(d->GetCoarse(o), "GetCoarse"); auto& x = w.ch[mine[k]]; c.eq((int) o, x.off.empty() ? 0 : x.off[0], "linked", "offset of a channel of a geometry " + when); Sint32 bb = -1; must(d->GetDmxBreak(bb), "GetDmxBreak"); c.eq((int) bb, x.brk, "linked", "break of a channel of a geometry " + when); }
		IGdtfDmxChannelPtr d; c.check(g->GetLinkedDmxChannelAt(cnt, &d, m) != 0, "bounds", "GetLinkedDmxChannelAt accepts the count");
		size_t kn = 0; must(g->GetInternalGeometryCount(kn), "GetInternalGeometryCount"); c.eq(kn, w.g[i].kids.size(), "tree", "number of geometries below " + w.g[i].name); for (size_t k = 0; k < kn; k++) { IGdtfGeometryPtr q; must(g->GetInternalGeometryAt(k, &q), "GetInternalGeometryAt"); walk(w.g[i].kids[k], q); }
	};
	size_t at = 0; for (size_t i = 0; i < w.g.size(); i++) if (w.g[i].parent < 0) { IGdtfGeometryPtr q; must(f->GetGeometryAt(at++, &q), "GetGeometryAt"); walk(i, q); }
}
static World gen(vp::Src& s, vp::Ctx& c)
{
	World w; size_t tops = s.chance(10) ? 1 : 2 + s.draw(3), n = tops + 1 + s.count(10); 
	for (size_t i = 0; i < n; i++) { Geo g; g.name = fmt("g%zu", i); if (i >= tops) { g.parent = s.chance(50) ? 0 : (int) s.draw(i); if (s.chance(20)) while (w.g[g.parent].ref) g.parent = w.g[g.parent].parent < 0 ? 0 : w.g[g.parent].parent; if (w.g[g.parent].ref) g.parent = 0; g.ref = tops > 1 && s.chance(60); } w.g.push_back(g); if (g.parent >= 0) w.g[g.parent].kids.push_back(i); }
	w.top = 0; bool nested = s.chance(30), refs = false;
	for (size_t i = 0; i < n; i++) if (w.g[i].ref) {
		size_t root = i; while (w.g[root].parent >= 0) root = w.g[root].parent; if (!s.chance(8)) { size_t l = s.draw(tops); if (!nested && root == 0 && l == 0) l = tops > 1 ? 1 : 0; if (l != root && (nested || root == 0)) { w.g[i].link = (int) l; refs = true; } }
		size_t b = s.draw(4); for (size_t k = 0; k < b; k++) w.g[i].breaks.push_back({(int) s.range(1, 6), (unsigned) (s.chance(10) ? s.range(1, 512) : s.range(1, 40))});
	}
	size_t k = s.chance(5) ? 60 + s.draw(20) : s.count(12); int seq = 1; bool over = false;
	for (size_t i = 0; i < k; i++) {
		Ch h; h.geo = s.draw(n); h.brk = s.chance(30) ? 0 : (int) s.range(1, s.coin() ? 2 : 6); size_t r = s.draw(5); over |= !h.brk;
		for (size_t q = 0; q < r; q++) h.off.push_back(s.chance(70) ? seq++ : (int) s.range(1, 512)); w.ch.push_back(h);
	}
	c.nontrivial = refs && k > 0; if (over) c.label("overwrite"); for (auto& g : w.g) { c.sample += g.name + (g.parent >= 0 ? "<" + w.g[g.parent].name : str()); if (g.ref) { c.sample += g.link >= 0 ? "->" + w.g[g.link].name : str("->?"); for (auto& b : g.breaks) c.sample += fmt("{%d@%u}", b.first, b.second); } c.sample += " "; } for (auto& h : w.ch) { c.sample += "[" + w.g[h.geo].name + fmt(" b%d:", h.brk); for (int o : h.off) c.sample += fmt(" %d", o); c.sample += "]"; }
	return w;
}
static void footprints(vp::Src& s, vp::Ctx& c)
{
	World w = gen(s, c); World now = w; now.ch.clear();
	IGdtfFixturePtr f = newFixture(); MvrUUID id(1, 2, 3, 4); str path = c.scratch + "/o.gdtf"; must(f->OpenForWrite(path.c_str(), "F", "M", id), "OpenForWrite"); IGdtfFeatureGroupPtr fg; must(f->CreateFeatureGroup("F", "F", &fg), "CreateFeatureGroup"); IGdtfFeaturePtr fe; must(fg->CreateFeature("F", &fe), "CreateFeature");
	std::vector<IGdtfAttributePtr> at(w.ch.size()); STransformMatrix mat = toMat(kIdent);
	for (size_t i = 0; i < at.size(); i++) { str n = fmt("A%zu", i); must(f->CreateAttribute(n.c_str(), n.c_str(), &at[i]), "CreateAttribute"); must(at[i]->SetFeature(fe), "SetFeature"); }
	for (size_t i = 0; i < w.g.size(); i++) { Geo& g = w.g[i]; EGdtfObjectType ty = (EGdtfObjectType) (g.ref ? 17 : s.oneof<int>({9, 10, 15})); if (g.parent < 0) must(f->CreateGeometry(ty, g.name.c_str(), nullptr, mat, &g.p), "CreateGeometry"); else must(w.g[g.parent].p->CreateGeometry(ty, g.name.c_str(), nullptr, mat, &g.p), "CreateGeometry"); }
	for (auto& g : w.g) if (g.ref) { if (g.link >= 0) must(g.p->SetGeometryReference(w.g[g.link].p), "SetGeometryReference"); for (auto& b : g.breaks) { IGdtfBreakPtr p; must(g.p->CreateBreak(b.first, b.second, &p), "CreateBreak"); } }
	IGdtfDmxModePtr m; must(f->CreateDmxMode("M", &m), "CreateDmxMode"); must(m->SetGeometry(w.g[w.top].p), "SetGeometry");
	for (size_t i = 0; i < w.ch.size(); i++) {
		Ch& h = w.ch[i]; must(m->CreateDmxChannel(w.g[h.geo].p, &h.p), "CreateDmxChannel"); must(h.p->SetDmxBreak(h.brk), "SetDmxBreak"); if (h.off.size() > 0) must(h.p->SetCoarse(h.off[0]), "SetCoarse"); if (h.off.size() > 1) must(h.p->SetFine(h.off[1]), "SetFine"); if (h.off.size() > 2) must(h.p->SetUltra(h.off[2]), "SetUltra"); if (h.off.size() > 3) must(h.p->SetUber(h.off[3]), "SetUber");
		IGdtfDmxLogicalChannelPtr l; must(h.p->CreateLogicalChannel(at[i], &l), "CreateLogicalChannel"); IGdtfDmxChannelFunctionPtr u; must(l->CreateDmxFunction("f", &u), "CreateDmxFunction"); must(u->SetAttribute(at[i]), "SetAttribute"); Ch q = h; q.p = nullptr; now.ch.push_back(q); if (s.chance(30)) check(c, now, f, m, "while building");
	}
	check(c, w, f, m, "when built"); if (w.ch.empty()) return; must(f->Close(), "Close"); check(c, w, f, m, "after saving");
	IGdtfFixturePtr r = newFixture(); must(r->ReadFromFile(path.c_str()), "ReadFromFile"); IGdtfDmxModePtr rm; must(r->GetDmxModeAt(0, &rm), "GetDmxModeAt"); check(c, w, r, rm, "after reading");
}
VP_SUITE
{
	s.property = "G06"; s.rule = "a geometry reference links a geometry and the mode has channels"; s.quickCases = 12000; s.thoroughCases = 400000; s.batch = 20;
	s.props.push_back({"footprints", 1, footprints});
}
