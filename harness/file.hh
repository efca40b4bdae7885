/*
Small files in the scratch directory of the check.
*/
#pragma once

#include <string>
#include "mon.hh"

namespace mon {

typedef std::vector<unsigned char> Bytes;

inline std::string path(const char *base)
{
	return std::string(scratch) + "/" + base;
}

inline Bytes load(const std::string &name)
{
	Bytes b;
	FILE *f = fopen(name.c_str(), "rb");
	if (!f)
		inconclusive("can not read from the scratch directory");
	unsigned char tmp[4096];
	size_t n;
	while ((n = fread(tmp, 1, sizeof(tmp), f)) > 0)
		b.insert(b.end(), tmp, tmp + n);
	fclose(f);
	return b;
}

inline void save(const std::string &name, const Bytes &b)
{
	FILE *f = fopen(name.c_str(), "wb");
	if (!f || (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) || fclose(f))
		inconclusive("can not write to the scratch directory");
}

inline uint32_t le(const Bytes &b, size_t at, int n)
{
	uint32_t v = 0;
	for (int i = 0; i < n && at + i < b.size(); ++i)
		v |= (uint32_t)b[at + i] << (8 * i);
	return v;
}

inline void put(Bytes &b, const char *s)
{
	for (; *s; ++s)
		b.push_back((unsigned char)*s);
}

inline void put(Bytes &b, uint32_t v, int n)
{
	for (int i = 0; i < n; ++i)
		b.push_back((unsigned char)(i < 4 ? v >> (8 * i) : 0));
}

}
