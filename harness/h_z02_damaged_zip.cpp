// Z02: no byte string makes reading a ZIP container crash, hang, or give bytes that are not in it.
#include "zip_util.h"
#include "mutate.h"

// reads everything there is; returns a description
static str readAll(IZIPFile* z, const str& data, vp::Src& s, vp::Ctx& c, bool opened)
{
	str in, out, seen; size_t n = 0, most = data.size() / 46 + 1; std::vector<str> names;
	while (VCOM_SUCCEEDED(z->GetNextFile(in, out))) { c.check(n++ <= most, "endless", "GetNextFile gives more entries than the container can hold"); names.push_back(out); in = out; }
	if (!opened) c.check(names.empty(), "entries-of-nothing", "a container that did not open lists entries");
	for (auto& nm : names) {
		c.check(data.find(nm) != str::npos, "name-outside", "the name " + vp::quote(nm) + " is not in the container");
		SZIPFileInfo info; VCOMError e = z->GetFileInfo(nm, info); if (e) continue;
		CZIPFileIOBufferImpl b; VCOMError g = z->GetFile(nm, &b); if (g) { seen += "!"; continue; }
		str got = bufText(b); seen += fmt("%s[%zu] ", vp::quote(nm).substr(0, 30).c_str(), got.size());
		if (info.dwCompressionMethod == 0) c.check(data.find(got) != str::npos, "bytes-outside", fmt("the %zu bytes of stored entry %s are not in the container", got.size(), vp::quote(nm).c_str()));
		else c.check(got.size() <= data.size() * 1100 + 1100, "bytes-outside", "an entry inflates to more than its bytes allow");
	}
	if (s.chance(20)) { CZIPFileIOBufferImpl b; str nm = genEntryName(s, 1); z->GetFile(nm, &b); SZIPFileInfo i; z->GetFileInfo(nm, i); z->GetNextFile(nm, nm); }
	Uint64 sz = 0; z->GetSize(sz);
	return seen;
}
static void readBoth(const str& data, vp::Src& s, vp::Ctx& c)
{
	str a, b; bool fileFirst = s.coin();
	for (int k = 0; k < 2; k++) {
		IZIPFilePtr z(IID_ZIPFile); VCOMError e; bool file = (k == 0) == fileFirst;
		if (file) { str p = c.scratch + "/d.zip"; vp::writeFile(p, data); e = z->OpenRead(fileAt(p)); }
		else { char* copy = (char*) malloc(data.size() ? data.size() : 1); memcpy(copy, data.data(), data.size()); e = z->OpenRead(copy, data.size()); if (s.coin()) { free(copy); copy = nullptr; } str r = readAll(z, data, s, c, e == 0); free(copy); b = r; z->Close(); continue; }
		a = readAll(z, data, s, c, e == 0); z->Close();
	}
	c.eq(b, a, "file-buffer", "the same bytes read from a buffer and from a file");
	c.label(a.empty() ? "nothing read" : "entries read");
}
static void damaged(vp::Src& s, vp::Ctx& c)
{
	doc::ZipStyle st; st.mode = s.draw(3); st.level = s.oneof({6, 1, 9}); st.extra = s.coin(); st.longExtra = s.chance(5); st.comment = s.coin(); st.prefix = s.chance(25); st.utf8flag = s.coin(); st.descriptor = s.coin();
	Entries es; size_t n = 1 + s.count(6); std::set<str> seen; for (size_t i = 0; i < n; i++) { str nm = genEntryName(s, (int) i); if (seen.insert(nm).second || s.chance(20)) es.push_back({nm, genBytes(s, 2000)}); }
	str data;
	if (s.chance(70)) data = doc::zipWrite(es, st, &s);
	else { str p = c.scratch + "/m.zip"; IZIPFilePtr z(IID_ZIPFile); z->OpenNewWrite(fileAt(p), s.coin()); for (auto& e : es) { CZIPFileIOBufferImpl b; b.SetData((void*) e.data.data(), e.data.size()); z->AddFile(TXString(e.name.c_str()), &b); } z->Close(); data = vp::readFile(p); }
	str log; str d = mut::damageZip(data, s, log); c.sample = fmt("%zu entries, %zu bytes: ", es.size(), data.size()) + log; c.nontrivial = d != data && d.size() > 22; if (getenv("VP_DUMP")) vp::writeFile(getenv("VP_DUMP"), d);
	readBoth(d, s, c);
}
static void noise(vp::Src& s, vp::Ctx& c)
{
	str d; size_t n = s.count(40); static const std::vector<str> words = {str("PK\x05\x06", 4), str("PK\x01\x02", 4), str("PK\x03\x04", 4), str("\0\0", 2), str("\1\0", 2), str("\xff\xff", 2), "a", str("\0\0\0\0", 4), str("\x08\0", 2), str("\x1e\0\0\0", 4), str("\x2e\0\0\0", 4)};
	for (size_t i = 0; i < n; i++) if (s.chance(75)) d += s.pick(words); else { size_t k = s.draw(12); for (size_t j = 0; j < k; j++) d += (char) s.draw(256); }
	if (s.coin()) { str e; doc::le(e, 0x06054b50, 4); doc::le(e, 0, 4); doc::le(e, s.draw(3), 2); doc::le(e, s.draw(3), 2); doc::le(e, s.draw(d.size() + 60), 4); doc::le(e, s.draw(d.size() + 60), 4); doc::le(e, s.draw(3), 2); d += e; }
	c.sample = vp::quote(d); c.nontrivial = d.size() > 22; readBoth(d, s, c);
}
VP_SUITE
{
	s.property = "Z02"; s.rule = "the damaged container differs from the sound one and is longer than an end record"; s.quickCases = 60000; s.thoroughCases = 1500000; s.cpuLimit = 10;
	s.props.push_back({"damaged", 4, damaged});
	s.props.push_back({"noise", 1, noise});
}
