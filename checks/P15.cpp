// The host interface: a model of the machine as the host sees it (a stack of values, cells shared by reference, two
// globals, one captured variable). Its states are enumerated breadth first; every transition of every state is made on
// the real machine (by replaying the shortest way to the state) and the complete real state, sharing included, is
// compared with the model's, and so is everything which the inspecting functions say.
#include "../harness/capimodel.hpp"
static std::vector<Cfg> configs(bool thorough) {
	size_t cap = thorough ? 120000 : 9000;
	std::vector<Op> idx = {O(C_POP, 0, 0), O(C_PUSH, -1, 0), O(C_PUSH, -2, 0), O(C_PUSH, 0, 0), O(C_PUSH, -4, 0), O(C_PUSH, 9, 0), O(C_COPYTOP, -2, 0), O(C_COPYTOP, 0, 0), O(C_COPYTOP, -1, 0), O(C_COPYTOP, -5, 0), O(C_COPYTOP, 7, 0), O(C_POPN, 0, 0), O(C_POPN, 2, 0), O(C_POPN, 5, 0), O(C_POPALL, 0, 0), O(C_ROUNDTRIP, 0, 0)};
	auto with = [&](std::vector<Op> v, const std::vector<Op> &w) { v.insert(v.end(), w.begin(), w.end()); return v; };
	std::vector<Op> seq = {O(C_CAR, 0, 0), O(C_FIRST, 0, 0), O(C_CDR, 0, 0), O(C_REST, 0, 0), O(C_SETCAR, -2, 0), O(C_SETCAR, -1, 0), O(C_SETFIRST, 0, 0), O(C_SETCDR, -2, 0), O(C_SETCDR, -1, 0), O(C_SETREST, 0, 0), O(C_SETCAR, -6, 0), O(C_SETCDR, 6, 0),
		O(C_ELEMENT, 0, 0), O(C_ELEMENT, 1, 0), O(C_ELEMENT, 2, 0), O(C_ELEMENT, -1, 0), O(C_SETELEMENT, 0, -2), O(C_SETELEMENT, 1, -2), O(C_SETELEMENT, 2, 0), O(C_SETELEMENT, 1, -1), O(C_SETELEMENT, -1, -2), O(C_SETELEMENT, 0, 8)};
	std::vector<Op> scalars = {O(C_NIL, 0, 0), O(C_BOOL, 0, 0), O(C_INT, 0, 0), O(C_FLOAT, 0, 0), O(C_STRING, 0, 0), O(C_STRING, 1, 0), O(C_STRING, 2, 0), O(C_SYMBOL, 0, 0), O(C_CSYMBOL, 0, 0), O(C_NEWTYPE, 0, 0), O(C_EXTYPE, 0, 0), O(C_EXTYPE, 1, 0), O(C_RETYPE, 0, 0),
		O(C_SETBOOL, 1, 0), O(C_SETBOOL, 0, 0), O(C_SETINT, -5, 0), O(C_SETINT, 1000000, 0), O(C_SETFLOAT, 2, 0)};
	std::vector<Op> comp = {O(C_COMPOSITE, 0, 0), O(C_COMPOSITE, -1, 0), O(C_COMPVALUE, 0, 0), O(C_COMPFUNCTION, 0, 0), O(C_SETCOMPVALUE, -2, 0), O(C_SETCOMPVALUE, 0, 0), O(C_SETCOMPVALUE, -1, 0), O(C_SETCOMPVALUE, 9, 0), O(C_SETCOMPFUNCTION, -2, 0), O(C_SETCOMPFUNCTION, 0, 0), O(C_SETCOMPFUNCTION, -9, 0)};
	std::vector<Op> glob = {O(C_SETGLOBAL, 0, 0), O(C_SETGLOBAL, 1, 0), O(C_GETGLOBAL, 0, 0), O(C_GETGLOBAL, 1, 0), O(C_GETGLOBAL, 2, 0), O(C_SOFTRESET, 0, 0), O(C_GC, 0, 0)};
	std::vector<Op> fns, calls = {O(C_CALL, -1, 0), O(C_CALL, -2, 1), O(C_CALL, -3, 2), O(C_CALL, 0, 1), O(C_CALL, 0, 0), O(C_CALL, -4, 3)};
	for (int i = 0; i < C_FUNCTIONS + C_CALLBACKS; i++) fns.push_back(O(C_FUNCTION, i, 0));
	std::vector<Op> make;
	for (int i = 0; i < 8; i++) make.push_back(O(C_MAKE, i, 0));
	std::vector<Op> conses = {O(C_NIL, 0, 0), O(C_INT, 0, 0), O(C_CONS, 0, 0)}, vectors = {O(C_INT, 0, 0), O(C_SETINT, 4, 0), O(C_VECTOR, 0, 0), O(C_VECTOR, 1, 0), O(C_VECTOR, 2, 0)};
	std::vector<Op> everything;
	for (auto *l : {&idx, &seq, &scalars, &comp, &glob, &fns, &calls, &make, &conses, &vectors}) everything = with(everything, *l);
	return {
		{"everything", everything, 4, 4, thorough ? 4 : 3, thorough ? cap : 14000},
		{"lists", with(conses, with(idx, seq)), 3, 3, thorough ? 12 : 8, cap},
		{"vectors", with(vectors, with(idx, seq)), 3, 2, thorough ? 12 : 8, cap},
		{"mixed sequences", with({O(C_CONS, 0, 0), O(C_VECTOR, 2, 0), O(C_STRING, 2, 0), O(C_COMPOSITE, 0, 0)}, with(seq, {O(C_POP, 0, 0), O(C_PUSH, -2, 0), O(C_COPYTOP, -2, 0), O(C_COMPVALUE, 0, 0), O(C_SETCOMPVALUE, -2, 0), O(C_SETCOMPFUNCTION, -2, 0)})), 3, 3, thorough ? 10 : 7, cap},
		{"globals", with(glob, with(idx, {O(C_CONS, 0, 0), O(C_INT, 0, 0), O(C_SETINT, 3, 0), O(C_SETCAR, -2, 0), O(C_SETCDR, -2, 0), O(C_CAR, 0, 0)})), 3, 2, thorough ? 10 : 7, cap},
		{"types and composites", with(comp, with(idx, {O(C_NEWTYPE, 0, 0), O(C_EXTYPE, 1, 0), O(C_RETYPE, 0, 0), O(C_INT, 0, 0), O(C_SETINT, 3, 0)})), 3, 2, thorough ? 10 : 7, cap},
		{"calls", with(fns, with(calls, {O(C_INT, 0, 0), O(C_SETINT, 2, 0), O(C_CONS, 0, 0), O(C_POP, 0, 0), O(C_PUSH, -2, 0), O(C_CAR, 0, 0), O(C_SETGLOBAL, 0, 0), O(C_GETGLOBAL, 0, 0), O(C_COMPOSITE, 0, 0), O(C_SETCOMPFUNCTION, -2, 0), O(C_SETCAR, -2, 0)})), 4, 3, thorough ? 8 : 5, cap},
		{"scalars", with(scalars, idx), 3, 1, thorough ? 8 : 6, cap},
	};
}
int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P15";
	c.level = "model_checking";
	c.rule = "distinct states of the model; every case replays the way to a state on the real machine, makes every call from there and compares the complete state";
	c.assumptions = {"setting elements of closures is left out (the header and the code disagree)", "calls on composites which are their own function are left out (they do not end)",
	                 "a failed call of a function is followed by a reset of the machine", "callbacks get the number of arguments which they expect"};
	c.setup = [](const std::string &dir) {
		g_v.load(dir, "default"); g_api[0].load(g_v);
		g_vi.load(dir, "portable"); g_api[1].load(g_vi);
		g_vp.load(dir, "inference"); g_api[2].load(g_vp);
	};
	c.spaces = [](bool thorough) {
		std::vector<Space> r;
		for (auto &cfg : configs(thorough)) {
			bool complete;
			int deepest;
			auto s = reach(cfg, complete, deepest);
			auto p = std::make_shared<Cfg>(cfg);
			Space sp = listSpace(cfg.name, std::to_string(cfg.ops.size()) + " calls, stack up to " + std::to_string(cfg.maxStack) + ", up to " + std::to_string(cfg.maxCells) + " cells, "
				+ (complete ? "every state within " + std::to_string(cfg.depth) + " calls (the farthest new one at " + std::to_string(deepest) + ")" : "the first " + std::to_string(cfg.maxStates) + " states, up to " + std::to_string(deepest) + " calls away"),
				s, [p, thorough](const std::string &t) { return check(*p, t, thorough ? 3 : 1, true); });
			sp.states = 0;
			r.push_back(sp);
		}
		return r;
	};
	return runCheck(argc, argv, c);
}
