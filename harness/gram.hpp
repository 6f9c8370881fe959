// Size-indexed context-free grammars with unranking: every sentence of a given cost has an index.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstdio>

struct Gram {
	struct Prod { std::vector<std::string> lit; std::vector<int> nt; int cost; };
	std::map<std::string, int> ids;
	std::vector<std::string> names;
	std::vector<std::vector<Prod>> prods;
	mutable std::vector<std::map<int, uint64_t>> memo;

	int id(const std::string &n) {
		auto it = ids.find(n);
		if (it != ids.end()) return it->second;
		int k = (int) names.size();
		ids[n] = k;
		names.push_back(n);
		prods.emplace_back();
		return k;
	}
	// template: text with {Nonterminal} holes
	Gram &rule(const std::string &nt, const std::string &t, int cost = 1) {
		Prod p;
		p.cost = cost;
		std::string cur;
		for (size_t i = 0; i < t.size(); i++) {
			if (t[i] == '{') {
				size_t j = t.find('}', i);
				p.lit.push_back(cur);
				cur.clear();
				p.nt.push_back(id(t.substr(i + 1, j - i - 1)));
				i = j;
			}
			else cur += t[i];
		}
		p.lit.push_back(cur);
		int k = id(nt);
		prods[k].push_back(p);
		return *this;
	}
	uint64_t countSeq(const Prod &p, size_t from, int size) const {
		if (from == p.nt.size()) return size == 0;
		if (from + 1 == p.nt.size()) return count(p.nt[from], size);
		uint64_t n = 0;
		for (int s = 0; s <= size; s++) {
			uint64_t a = count(p.nt[from], s);
			if (a) n += a * countSeq(p, from + 1, size - s);
		}
		return n;
	}
	// number of sentences of exactly this cost
	uint64_t count(int nt, int size) const {
		if (size < 0) return 0;
		if (memo.size() < names.size()) memo.resize(names.size());
		auto it = memo[nt].find(size);
		if (it != memo[nt].end()) return it->second;
		memo[nt][size] = 0; // cost-0 cycles contribute nothing
		uint64_t n = 0;
		for (auto &p : prods[nt]) if (p.cost <= size) n += countSeq(p, 0, size - p.cost);
		memo[nt][size] = n;
		return n;
	}
	void unrankSeq(const Prod &p, size_t from, int size, uint64_t i, std::string &out) const {
		out += p.lit[from];
		if (from == p.nt.size()) return;
		for (int s = 0; s <= size; s++) {
			uint64_t a = count(p.nt[from], s);
			if (!a) continue;
			uint64_t b = countSeq(p, from + 1, size - s);
			if (i < a * b) {
				unrank(p.nt[from], s, i / b, out);
				unrankSeq(p, from + 1, size - s, i % b, out);
				return;
			}
			i -= a * b;
		}
		abort();
	}
	void unrank(int nt, int size, uint64_t i, std::string &out) const {
		for (auto &p : prods[nt]) {
			if (p.cost > size) continue;
			uint64_t n = countSeq(p, 0, size - p.cost);
			if (i < n) { unrankSeq(p, 0, size - p.cost, i, out); return; }
			i -= n;
		}
		fprintf(stderr, "unrank out of range\n");
		abort();
	}
	// all sentences of cost 0..maxSize, cheapest first
	uint64_t countUpTo(const std::string &nt, int maxSize) {
		uint64_t n = 0;
		for (int s = 0; s <= maxSize; s++) n += count(id(nt), s);
		return n;
	}
	std::string at(const std::string &nt, uint64_t i) {
		int k = id(nt);
		for (int s = 0;; s++) {
			uint64_t n = count(k, s);
			if (i < n) { std::string o; unrank(k, s, i, o); return o; }
			i -= n;
		}
	}
};
