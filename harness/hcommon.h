// Shared by the harnesses: event log (one JSON object per line on stdout), scratch bodies, content registry.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <limits>
#include <QString>
#include <QFile>
#include <QFileInfo>
#include <QDir>
#include <QDebug>
#include "nbody_data.h"

static inline void quiet_messages(QtMsgType, const QMessageLogContext&, const QString&) {}

inline std::string jstr(const std::string& s)
{
	std::string r("\"");
	for(char c : s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c == '\n') r += "\\n";
		else if(c == '\t') r += "\\t";
		else r += c;
	}
	return r + "\"";
}

struct ev
{
	std::string s;
	explicit ev(const char* name) : s(std::string("{\"e\":\"") + name + "\"") {}
	ev& raw(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + v; return *this; }
	ev& str(const char* k, const std::string& v) { return raw(k, jstr(v)); }
	ev& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
	ev& flag(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
	std::string text() const { return s + "}\n"; }
	void out() const { std::string t(text()); fputs(t.c_str(), stdout); fflush(stdout); }
};

inline std::string fmt_time(double t) { char b[64]; snprintf(b, sizeof b, "%.15g", t == 0 ? 0.0 : t); return b; }
inline std::string fmt_u(uint64_t v) { return std::to_string((unsigned long long)v); }

// splitmix64: the same bodies for the same number, on every machine
struct mix
{
	uint64_t s;
	explicit mix(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double uni() { return double(next() >> 11) / 9007199254740992.0; }
};

inline double odd_double(mix& m)
{
	switch(m.next() % 24)
	{
	case 0: return std::numeric_limits<double>::quiet_NaN();
	case 1: return std::numeric_limits<double>::infinity();
	case 2: return -std::numeric_limits<double>::infinity();
	case 3: return -0.0;
	case 4: return std::numeric_limits<double>::denorm_min();
	case 5: return std::numeric_limits<double>::max();
	case 6: return 1.0 / 3.0;
	default: return (m.uni() - 0.5) * std::pow(10.0, double(int(m.next() % 20)) - 10);
	}
}
