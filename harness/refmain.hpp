// Checks which are decided by the reference evaluator: grammar families plus explicit case lists.
#pragma once
#include "refcheck.hpp"
struct RefLists { std::string name, bounds; std::vector<std::string> cases; };
inline Variant g_v;
inline int refMain(int argc, char **argv, const std::string &id, std::function<std::vector<Family>(bool)> fams,
                   std::function<std::vector<RefLists>(bool)> lists, std::function<void(bool, std::vector<Space> &)> more = nullptr) {
	CheckInfo c;
	c.property = id;
	c.level = "exploration";
	c.rule = "distinct observable outcomes (result + emitted log, or the reported error); programs outside of the reference's domain or step bound are counted separately";
	c.setup = [](const std::string &lib) { g_v.load(lib, "default"); };
	c.spaces = [=](bool th) {
		auto run = [](const std::string &t) { return againstRef(g_v, defaultCfg(), t); };
		std::vector<Space> s;
		for (auto l : lists(th)) {
			for (auto &t : l.cases) t = unquote(t);
			s.push_back(listSpace(l.name, l.bounds, l.cases, run));
		}
		for (auto &f : fams(th)) {
			s.push_back(famSpace(f, run));
		}
		if (more) more(th, s);
		return s;
	};
	return runCheck(argc, argv, c);
}
