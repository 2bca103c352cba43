// V02: SHA-256 checksums against an independent implementation; checksum files and buffers.
#include "Prefix/StdAfx.h"
#include "sha256/sha256.h"
#include "HashManager.h"
#include "GDTFManager.h"
#include "vp.h"
using namespace VectorworksMVR;
using vp::str; using vp::fmt;

static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static str refSha(const str& in)
{
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	str m = in; m += (char) 0x80; while (m.size() % 64 != 56) m += '\0';
	uint64_t bits = (uint64_t) in.size() * 8; for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
	auto rr = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
	for (size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[64];
		for (int i = 0; i < 16; i++) w[i] = (uint8_t) m[o+4*i] << 24 | (uint8_t) m[o+4*i+1] << 16 | (uint8_t) m[o+4*i+2] << 8 | (uint8_t) m[o+4*i+3];
		for (int i = 16; i < 64; i++) w[i] = w[i-16] + (rr(w[i-15],7) ^ rr(w[i-15],18) ^ w[i-15] >> 3) + w[i-7] + (rr(w[i-2],17) ^ rr(w[i-2],19) ^ w[i-2] >> 10);
		uint32_t v[8]; memcpy(v, h, sizeof v);
		for (int i = 0; i < 64; i++) {
			uint32_t t1 = v[7] + (rr(v[4],6) ^ rr(v[4],11) ^ rr(v[4],25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
			uint32_t t2 = (rr(v[0],2) ^ rr(v[0],13) ^ rr(v[0],22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int k = 7; k > 0; k--) v[k] = v[k-1];
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; i++) h[i] += v[i];
	}
	str o; for (int i = 0; i < 8; i++) o += fmt("%08x", h[i]); return o;
}
static str genData(vp::Src& s, size_t maxLen)
{
	size_t n; static const std::vector<int> pieces = {512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1048576};
	// around the sizes of the pieces that someone might read files in
	if (s.chance(3)) { int p = s.pick(pieces); n = (size_t) p * (1 + s.draw(p < 100000 ? 4 : 1)) + s.oneof<int>({-1, 0, 0, 1}); }
	else switch (s.draw(4)) { case 0: n = s.draw(10); break; case 1: n = 64 * s.draw(5) + s.oneof<int>({0, 1, 54, 55, 56, 57, 62, 63}); break; case 2: n = s.draw(300); break; default: n = s.draw(maxLen); }
	str d(n, 0); uint64_t z = s.draw(0); int mode = s.draw(3);
	for (size_t i = 0; i < n; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; d[i] = mode == 0 ? (char)(z >> 56) : mode == 1 ? (char)(z >> 60 ? 0 : 0xff) : (char)('a' + (z >> 60)); }
	return d;
}
static void digest(vp::Src& s, vp::Ctx& c)
{
	str d = genData(s, 20000), want = refSha(d);
	c.sample = fmt("%zu bytes ", d.size()) + vp::quote(d.substr(0, 60)); c.nontrivial = !d.empty();
	SHA256 a; c.eq(a(d), want, "digest", fmt("SHA-256 of %zu bytes", d.size()));
	SHA256 a2; c.eq(a2(d.data(), d.size()), want, "digest", "SHA-256 of a block");
	SHA256 b; size_t p = 0, parts = 0;
	while (p < d.size()) { size_t n = std::min<size_t>(d.size() - p, s.coin() ? s.draw(5) : s.draw(200)); if (parts > 400) n = d.size() - p; b.add(d.data() + p, n); p += n; parts++;
		if (s.chance(5)) { str mid = b.getHash(); c.eq(mid, refSha(d.substr(0, p)), "stream", "intermediate digest"); } }
	c.eq(b.getHash(), want, "stream", fmt("SHA-256 of %zu bytes added in %zu parts", d.size(), parts));
	c.eq(b.getHash(), want, "stream", "digest asked a second time");
	b.reset(); b.add(d.data(), d.size()); c.eq(b.getHash(), want, "stream", "digest after reset");
	unsigned char raw[32]; b.getHash(raw); str hx; for (auto x : raw) hx += fmt("%02x", x); c.eq(hx, want, "digest", "raw digest");
}
static void buffers(vp::Src& s, vp::Ctx& c)
{
	str d = genData(s, 5000); if (d.empty()) d = "x";
	c.sample = fmt("buffer of %zu bytes", d.size()); c.nontrivial = true;
	SceneData::ISceneDataZipBuffer data, sum, other;
	data.SetData((void*) d.data(), d.size());
	c.check(HashManager::CreateHashForBuffer(data, sum), "buffer", "no checksum for a buffer");
	void* p = nullptr; size_t n = 0; sum.GetData(p); sum.GetDataSize(n);
	c.eq(str((char*) p, n), refSha(d), "buffer", "checksum of a buffer");
	c.check(HashManager::CheckHashForBuffer(data, sum), "buffer", "the checksum of a buffer does not match it");
	str e = d; if (s.coin() || e.size() < 2) e[s.draw(e.size())] ^= 1 << s.draw(8); else e.erase(s.draw(e.size()), 1);
	if (e != d) { other.SetData((void*) e.data(), e.size()); c.check(!HashManager::CheckHashForBuffer(other, sum), "buffer", "checksum accepted for changed data"); }
}
static void files(vp::Src& s, vp::Ctx& c)
{
	str d = genData(s, 5000); if (d.empty()) d = "x";
	c.sample = fmt("file of %zu bytes", d.size()); c.nontrivial = true;
	str f = c.scratch + "/data.bin", h = c.scratch + "/data.sum", g = c.scratch + "/other.bin";
	vp::writeFile(f, d);
	Filing::IFileIdentifierPtr fi(IID_FileIdentifier), hi(IID_FileIdentifier), gi(IID_FileIdentifier);
	fi->Set(f.c_str()); hi->Set(h.c_str()); gi->Set(g.c_str());
	SceneData::ISceneDataZipBuffer sum;
	c.check(HashManager::CreateHashForFile(fi, sum), "file", "no checksum for a file");
	void* p = nullptr; size_t n = 0; sum.GetData(p); sum.GetDataSize(n);
	c.eq(str((char*) p, n), refSha(d), "file", "checksum of a file");
	vp::writeFile(h, str((char*) p, n));
	c.check(HashManager::CheckHashForFile(fi, hi), "file", "the checksum of a file does not match it");
	str e = d; if (s.coin() || e.size() < 2) e[s.draw(e.size())] ^= 1 << s.draw(8); else e += 'q';
	vp::writeFile(g, e);
	c.check(!HashManager::CheckHashForFile(gi, hi), "file", "checksum accepted for a changed file");
}
VP_SUITE
{
	s.property = "V02"; s.quickCases = 12000; s.thoroughCases = 400000; s.batch = 200;
	s.rule = "byte strings of 0..20000 bytes biased to block boundaries, random splits into streamed parts, one-bit/one-byte changes; non-trivial: not empty";
	s.props.push_back({"digest", 3, digest});
	s.props.push_back({"buffers", 1, buffers});
	s.props.push_back({"files", 1, files});
}
