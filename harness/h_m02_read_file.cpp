// M02: a scene description written by another tool is reported with its documented meaning.
#include "mvr_file.h"
using namespace mvr;

static E start(vp::Src& s, vp::Ctx& c)
{
	Gen g(s, (int) s.draw(4)); g.files = true; E t = g.run(); c.nontrivial = count(t, [](E&) { return true; }) >= 5; return t;
}
static void readFile(vp::Src& s, vp::Ctx& c)
{
	E t = start(s, c); E want = read(t); E root = toFile(t, s); c.sample = doc::render(root);
	Mvr m = open(container(root, s), c); same(dump(m), want, "read");
	Sint32 a = -1, b = -1; must(m->GetMVRVersion(a, b), "GetMVRVersion"); c.eq(fmt("%d.%d", a, b), root.val("verMajor") + "." + root.val("verMinor"), "version", "MVR version");
	size_t n = 99; must(m->GetSceneObjectCount(n), "GetSceneObjectCount"); c.eq(n, count(want, [](E& e) { return hasPatch(e.name); }), "object-count", "number of scene objects");
	bool dup = true; must(m->GetDuplicatedUuids(dup), "GetDuplicatedUuids"); c.check(!dup, "duplicates", "distinct identifiers are reported as duplicated");
}
// attributes and elements the format does not know do not disturb the others
static void unknown(vp::Src& s, vp::Ctx& c)
{
	E t = start(s, c); E want = read(t); E root = toFile(t, s); std::vector<E*> all; each(root, [&](E& e) { all.push_back(&e); });
	size_t n = 1 + s.count(6); std::vector<std::pair<size_t, E>> elems;
	for (size_t i = 0; i < n; i++) {
		size_t at = s.draw(all.size()); E* e = all[at];
		if (s.coin() || !e->text.empty()) e->at.insert(e->at.begin() + s.draw(e->at.size() + 1), {fmt("vendor%zu", i), doc::genText(s)});
		else { E k("VendorNode"); if (s.coin()) k.set("name", doc::genText(s)); if (s.coin()) k.set("uuid", genUuid(s)); if (s.coin()) k.add("Matrix").text = "{1,2,3}{4,5,6}{7,8,9}{1,1,1}"; elems.push_back({at, k}); }
	}
	std::stable_sort(elems.begin(), elems.end(), [](const std::pair<size_t, E>& a, const std::pair<size_t, E>& b) { return a.first > b.first; });
	for (auto& p : elems) { auto& k = all[p.first]->kids; k.insert(k.begin() + s.draw(k.size() + 1), p.second); }
	c.sample = doc::render(root);
	Mvr m = open(container(root, s), c); same(dump(m), want, "unknown");
}
VP_SUITE
{
	s.property = "M02"; s.rule = "the scene has at least 5 objects"; s.quickCases = 4000; s.thoroughCases = 100000;
	s.props.push_back({"file-read", 3, readFile});
	s.props.push_back({"unknown-content", 1, unknown});
}
