// Shared by the demonstrations: home directory inside the scratch directory, checks.
#pragma once
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include <pwd.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines;
static std::string gDir, gHome;
extern "C" struct passwd* getpwuid(uid_t) { static struct passwd p; static char n[] = "demo"; memset(&p, 0, sizeof p); p.pw_name = p.pw_passwd = p.pw_gecos = p.pw_shell = n; p.pw_dir = (char*) gHome.c_str(); return &p; }
#define CHECK(x) do { if (!(x)) { printf("DEMO failed: line %d: %s\n", __LINE__, #x); fflush(stdout); _exit(1); } } while (0)
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
#include <utility>
#include <vector>
static void put(const std::string& p, const std::string& d) { std::ofstream(p, std::ios::binary) << d; }
// a ZIP container of stored entries
static std::string zipOf(const std::vector<std::pair<std::string, std::string>>& es)
{
	auto le = [](std::string& s, unsigned v, int n) { while (n--) { s += (char) v; v >>= 8; } };
	auto crc = [](const std::string& d) { unsigned c = ~0u; for (unsigned char b : d) { c ^= b; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; };
	std::string all, dir;
	for (auto& e : es)
	{
		std::string h; le(h, 10, 2); le(h, 0, 2); le(h, 0, 2); le(h, 0, 2); le(h, 0x21, 2); le(h, crc(e.second), 4); le(h, e.second.size(), 4); le(h, e.second.size(), 4); le(h, e.first.size(), 2); le(h, 0, 2);
		le(dir, 0x02014b50, 4); le(dir, 10, 2); dir += h; le(dir, 0, 2); le(dir, 0, 2); le(dir, 0, 2); le(dir, 0, 4); le(dir, all.size(), 4); dir += e.first;
		le(all, 0x04034b50, 4); all += h + e.first + e.second;
	}
	std::string end; le(end, 0x06054b50, 4); le(end, 0, 4); le(end, es.size(), 2); le(end, es.size(), 2); le(end, dir.size(), 4); le(end, all.size(), 4); le(end, 0, 2);
	return all + dir + end;
}
static void demo();
int main(int, char** a) { gDir = a[1]; gHome = gDir + "/home"; demo(); printf("DEMO ok\n"); return 0; }
