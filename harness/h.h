#pragma once
#include "env.h"
#include "shim.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
typedef std::string str;
// a copy in a block of exactly the given size, so that any access outside it is caught
struct Exact {
	char *p; size_t n;
	explicit Exact(const str &s, bool nul = false) : n(s.size() + nul) { p = (char *)malloc(n ? n : 1); if (!n) p[0] = 'Z'; memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; }
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
};
#define SUM(...) do { if (0) {} } while (0)
static inline str num(long long n) { return std::to_string(n); }
static inline str take(char *p) { str s = p ? p : ""; return s; }
#define CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
#define Q(s) mc_quote(s).c_str()
