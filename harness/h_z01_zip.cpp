// Z01: ZIP containers keep every entry and interoperate with an independent reader and writer.
#include "zip_util.h"

static void compare(IZIPFile* z, const Entries& want, const str& via, vp::Src& s, vp::Ctx& c, bool names = true)
{
	if (names) {
		str in, out; size_t i = 0;
		while (VCOM_SUCCEEDED(z->GetNextFile(in, out))) { c.check(i < want.size(), via + "-extra", via + ": more entries than were stored, " + vp::quote(out)); c.eq(vp::quote(out), vp::quote(want[i].name), via + "-name", fmt("%s: name of entry %zu", via.c_str(), i)); in = out; i++; }
		c.eq(i, want.size(), via + "-count", via + ": number of entries");
	}
	std::vector<size_t> order; for (size_t i = 0; i < want.size(); i++) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.draw(i)]);
	for (size_t i : order) {
		const Entry& e = want[i]; CZIPFileIOBufferImpl b; VCOMError err = z->GetFile(e.name, &b);
		c.check(err == 0, via + "-get", fmt("%s: GetFile(%s) failed with %d", via.c_str(), vp::quote(e.name).substr(0, 200).c_str(), err));
		str got = bufText(b); c.check(got == e.data, via + "-bytes", fmt("%s: entry %s has %zu bytes, stored were %zu%s", via.c_str(), vp::quote(e.name).substr(0, 200).c_str(), got.size(), e.data.size(), got.size() == e.data.size() ? ", bytes differ" : ""));
		SZIPFileInfo info; c.check(z->GetFileInfo(e.name, info) == 0, via + "-info", via + ": GetFileInfo failed"); c.eq((size_t) info.dwUncompressedSize, e.data.size(), via + "-size", via + ": size of " + e.name.substr(0, 200)); c.eq((size_t) info.dwCRC, (size_t) crc32(0, (const Bytef*) e.data.data(), e.data.size()), via + "-crc", via + ": checksum");
		str got2((const char*) info.fFileName); c.check(got2 == e.name, via + "-info-name", via + ": name of the info is " + got2.substr(0, 200));
	}
	auto absent = [&](const str& n) { for (auto& e : want) if (e.name == n) return; CZIPFileIOBufferImpl b; SZIPFileInfo info; c.check(z->GetFile(n, &b) != 0, via + "-absent", via + ": GetFile of a name that is not there succeeds: " + n.substr(0, 200)); c.check(z->GetFileInfo(n, info) != 0, via + "-absent-info", via + ": GetFileInfo of a name that is not there succeeds"); };
	absent("absent"); if (!want.empty()) { const str& n = want[s.draw(want.size())].name; absent(n + "x"); absent(n.substr(0, n.size() - 1)); str u = doc::lower(n); absent(u); absent("/" + n); }
}
static void writeRead(vp::Src& s, vp::Ctx& c)
{
	size_t most = c.thorough && s.chance(5) ? 2000000 : s.chance(10) ? 120000 : 9000; bool compress = s.coin(); str path = c.scratch + "/made.zip";
	Entries want; { IZIPFilePtr z(IID_ZIPFile); c.check(z->OpenNewWrite(fileAt(path), compress) == 0, "open", "OpenNewWrite failed");
	size_t ops = 1 + s.count(24); str log; size_t big = 0;
	for (size_t i = 0; i < ops; i++) switch (s.draw(8)) {
		default: {
			str n = !want.empty() && s.chance(10) ? s.pick(want).name : genEntryName(s, (int) i), d = genBytes(s, most), given = n; bool dup = doc::find(want, n); if (s.chance(15)) for (char& ch : given) if (ch == '/') ch = '\\';
			VCOMError err; bool empty = d.empty();
			if (s.chance(30)) { str src = c.scratch + fmt("/src%zu", i); vp::writeFile(src, d); err = z->AddFile(TXString(given.c_str()), fileAt(src)); }
			else { CZIPFileIOBufferImpl b; if (!d.empty() || s.coin()) b.SetData((void*) d.data(), d.size()); err = z->AddFile(TXString(given.c_str()), &b); }
			log += "add " + n.substr(0, 60) + fmt("[%zu] ", d.size()); big += d.size();
			if (dup) c.check(err != 0, "duplicate", "adding a second entry " + n + " succeeds"); else { c.check(err == 0, "add", fmt("AddFile(%s, %zu bytes, compress=%d) fails with %d", n.substr(0, 200).c_str(), d.size(), compress, err)); want.push_back({n, d}); }
			(void) empty; break; }
		case 6: { if (want.empty() || s.coin()) break; size_t k = s.draw(want.size()); log += "remove " + want[k].name.substr(0, 60) + " "; c.check(z->RemoveFile(TXString(want[k].name.c_str())) == 0, "remove", "RemoveFile fails"); want.erase(want.begin() + k); c.check(z->RemoveFile("absent") != 0, "remove-absent", "RemoveFile of an absent name succeeds"); break; }
		case 7: compare(z, want, "while-writing", s, c); break;
	}
	c.sample = fmt("compress=%d ", compress) + log; c.nontrivial = want.size() >= 3 && big > 100;
	if (want.empty()) throw vp::Discard{};
	char* p = nullptr; size_t n = 0; if (s.coin()) { z->ToBuffer(p, n); }
	c.check(z->Close() == 0, "close", "Close failed"); if (p) { str b(p, n); delete[] p; c.check(b == vp::readFile(path), "to-buffer", "ToBuffer differs from the file"); Uint64 sz = 0; z->GetSize(sz); c.eq((size_t) sz, b.size(), "get-size", "GetSize"); } }
	str data = vp::readFile(path); Entries got = doc::zipRead(data);
	c.eq(got.size(), want.size(), "written-count", "entries in the written archive");
	for (size_t i = 0; i < got.size(); i++) { c.eq(vp::quote(got[i].name), vp::quote(want[i].name), "written-name", "name in the written archive"); c.check(got[i].data == want[i].data, "written-bytes", "bytes of " + got[i].name + " in the written archive"); }
	{ IZIPFilePtr z(IID_ZIPFile); c.check(z->OpenRead(fileAt(path)) == 0, "open-read", "OpenRead failed"); compare(z, want, "file", s, c); Uint64 sz = 0; z->GetSize(sz); c.eq((size_t) sz, data.size(), "get-size", "GetSize"); }
	{ IZIPFilePtr z(IID_ZIPFile); std::vector<char> copy(data.begin(), data.end()); c.check(z->OpenRead(copy.data(), copy.size()) == 0, "open-buffer", "OpenRead of a buffer failed"); if (s.coin()) copy.assign(copy.size(), 'x'); compare(z, want, "buffer", s, c); }
}
static void foreign(vp::Src& s, vp::Ctx& c)
{
	doc::ZipStyle st; st.mode = s.draw(3); st.level = s.oneof({6, 1, 9, 0}); st.extra = s.coin(); st.comment = s.coin(); st.prefix = s.chance(25); st.utf8flag = s.coin(); st.descriptor = s.coin(); st.longExtra = s.chance(30); bool dirs = s.chance(30);
	Entries es; size_t n = 1 + s.count(30), big = 0; std::set<str> seen; size_t most = s.chance(10) ? 200000 : 9000;
	for (size_t i = 0; i < n; i++) { str nm = genEntryName(s, (int) i); if (dirs && s.chance(20)) { nm += "/"; if (seen.insert(nm).second) es.push_back({nm, ""}); continue; } if (!seen.insert(nm).second) continue; str d = genBytes(s, most); big += d.size(); es.push_back({nm, d}); }
	if (es.empty()) throw vp::Discard{}; if (!st.prefix && es.size() == 1 && false) throw vp::Discard{};
	for (auto& e : es) c.sample += e.name.substr(0, 60) + fmt("[%zu] ", e.data.size()); c.sample += fmt("mode=%d extra=%d%s descriptor=%d prefix=%d", st.mode, st.extra, st.longExtra ? " long" : "", st.descriptor, st.prefix);
	c.nontrivial = es.size() >= 3 && big > 100; str data = doc::zipWrite(es, st, &s);
	IZIPFilePtr z(IID_ZIPFile); bool file = s.coin();
	if (file) { str p = c.scratch + "/other.zip"; vp::writeFile(p, data); c.check(z->OpenRead(fileAt(p)) == 0, "open-read", "OpenRead failed"); }
	else c.check(z->OpenRead(data.data(), data.size()) == 0, "open-buffer", "OpenRead of a buffer failed");
	compare(z, es, "foreign", s, c);
	if (file) for (auto& e : es) if (e.name.find('/') == str::npos && e.name.size() < 200 && s.coin()) { IFileIdentifierPtr o(IID_FileIdentifier); c.check(z->GetFile(e.name, o) == 0, "get-to-file", "GetFile to a file fails for " + e.name); TXString full; o->GetFileFullPath(full); c.eq(str((const char*) full), c.scratch + "/" + e.name, "get-to-file-path", "path of the extracted file"); c.check(vp::readFile(str((const char*) full)) == e.data, "get-to-file-bytes", "bytes of the extracted file " + e.name); }
	z->Close();
}
VP_SUITE
{
	s.property = "Z01"; s.rule = "at least three entries and more than 100 bytes of data"; s.quickCases = 40000; s.thoroughCases = 600000;
	s.props.push_back({"write-read", 3, writeRead});
	s.props.push_back({"foreign", 2, foreign});
}
