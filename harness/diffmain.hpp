// Differential oracle: one session run by several builds (or configurations) of the same sources.
#pragma once
#include "refcheck.hpp"
typedef std::vector<std::string> SV;
inline std::string put(const std::string &b, const std::vector<std::pair<char, std::string>> &sub) {
	std::string r;
	for (char ch : b) {
		bool hit = false;
		for (auto &s : sub) if (s.first == ch) { r += s.second; hit = true; break; }
		if (!hit) r += ch;
	}
	return r;
}
// Families may hold programs which loop for ever; the reference evaluator says which.
inline bool terminates(const std::string &t) { return refSession(t).inDomain; }
