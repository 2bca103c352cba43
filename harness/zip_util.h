// What the ZIP checks share.
#pragma once
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include "Interface/IZIPFile.h"
#include "Interface/IRawOSFile.h"
#include "doc_tree.h"
#include "Wrapper/ZIPFileImpl.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::Filing;
using doc::Entries; using doc::Entry; using vp::str; using vp::fmt;

static inline str genBytes(vp::Src& s, size_t most)
{
	size_t n; switch (s.draw(5)) { case 0: n = s.draw(4); break; case 1: n = s.draw(40); break; case 2: n = s.draw(600); break; case 3: n = s.draw(std::min<size_t>(most, 6000) + 1); break; default: n = s.draw(most + 1); }
	// around the sizes of the pieces that files are read and written in
	if (most >= 600 && s.chance(4)) { size_t p = s.oneof<size_t>({512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1048576}); while (p > most) p /= 4; n = p * (1 + s.draw(std::min<size_t>(most / p, 4))) + s.draw(3) - 1; }
	uint64_t x = s.draw(0) | 1; str o; o.reserve(n); int kind = s.draw(4); str word = s.oneof<const char*>({"PK\5\6", "PK\1\2", "PK\3\4", "abc", "\0\0", "\r\n"});
	while (o.size() < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; switch (kind) { case 0: o += (char) x; break; case 1: o += (char)('a' + x % 3); break; case 2: if (x % 5 == 0) o += word; else o += (char)(x >> 20); break; default: o.append(1 + x % 300, (char)(x >> 12)); } }
	o.resize(n); return o;
}
static inline str genEntryName(vp::Src& s, int i)
{
	static const std::vector<str> parts = {"a", "A", "models", "wheels", "3ds", "b c", "x.png", "Ünï", "\xe6\x97\xa5\xe6\x9c\xac", "description.xml", "-", "#1", "f.3ds.3ds", "\xf0\x9f\x92\xa1", "PK"};
	str n; size_t k = s.count(3); for (size_t j = 0; j < k; j++) n += s.pick(parts) + "/"; n += s.pick(parts); if (s.chance(70)) n += fmt("%d", i);
	if (s.chance(4)) n += str(s.draw(4) == 0 ? 1000 + s.draw(9000) : s.draw(300), 'n'); return n;
}
static inline IFileIdentifierPtr fileAt(const str& p) { IFileIdentifierPtr f(IID_FileIdentifier); f->Set(TXString(p.c_str())); return f; }
static inline str bufText(CZIPFileIOBufferImpl& b) { size_t n = 0; b.GetDataSize(n); str o(n, 0); if (n) b.CopyDataInto(&o[0], n); return o; }
