// Host objects: the model of the host interface with objects which the host owns. After every transition the objects
// which were destroyed are compared with those which can't be reached, in every state of the model within the bounds;
// each history is also ended by shutting the machine down at that point, and repeated with destructors which report an
// error. Programs keep host objects in every kind of place.
#include "../harness/capimodel.hpp"

// Makes the machine anew, does the calls, and shuts it down.
static Verdict atEnd(const Cfg &c, const std::string &t, int failing) {
	std::vector<int> path;
	std::istringstream is(t);
	for (int i; is >> i; ) path.push_back(i);
	Api &api = g_api[0];
	char buf[4096];
	shim_cfg k = defaultCfg();
	k.vmObjects = 400;
	St s;
	s.x = mk('i', 7);
	for (int f = -1; f < failing; f++) for (int when = 0; when < 2; when++) {
		api.failing(-1);
		cp_t *m = api.make(&k, 0);
		if (!m) return bad("cannot start the machine");
		api.failing(f);
		s = St();
		s.x = mk('i', 7);
		for (int i : path) {
			transition(c, s, i);
			int e = api.op(m, c.ops[i].op, c.ops[i].a, c.ops[i].b);
			if (e && c.ops[i].op == C_CALL) api.op(m, C_SOFTRESET, 0, 0);
		}
		int n = api.hostCount();
		if (when) {
			// A destructor which fails may make the collection fail, but each one runs once.
			int e = api.op(m, C_GC, 0, 0);
			if (e && f < 0) return bad("after " + words(c, path) + ": the collection failed");
			std::string alive(buf, api.hosts(buf, sizeof buf)), left = reachable(s);
			if (alive != left) return bad("after " + words(c, path) + " and a collection (destructor of " + std::to_string(f) + " fails): the host objects " + alive + "are left instead of " + left);
			api.op(m, C_GC, 0, 0);
			alive = std::string(buf, api.hosts(buf, sizeof buf));
			if (alive != left) return bad("after " + words(c, path) + " and two collections (destructor of " + std::to_string(f) + " fails): the host objects " + alive + "are left instead of " + left);
			std::string want = show(s, false), have(buf, api.state(m, buf, sizeof buf));
			if (want != have) return bad("after " + words(c, path) + " and collections: the state is " + have + " instead of " + want);
		}
		api.destroy(m);
		std::string alive(buf, api.hosts(buf, sizeof buf));
		api.failing(-1);
		if (!alive.empty()) return bad("after " + words(c, path) + ", shutting down (destructor of " + std::to_string(f) + " fails): not destroyed exactly once: " + alive + "of " + std::to_string(n));
	}
	Verdict v;
	v.sig = fnv(show(s, true));
	v.states = 1;
	v.steps = (uint32_t) (path.size() * 2 * (failing + 1));
	return v;
}
// texts separated by |||; each "@n" text asks which host objects are left: numbers expected.
static Verdict program(const std::string &t) {
	Api &api = g_api[0];
	char buf[4096];
	std::string sig;
	uint32_t steps = 0;
	for (int mode = 0; mode < 2; mode++) {
		cp_t *m = api.get(mode);
		if (api.reset(m)) return bad("the machine could not be reset");
		std::istringstream is(t);
		std::string l;
		while (std::getline(is, l, '|')) {
			if (l.empty()) continue;
			if (l[0] == '@') {
				if (api.op(m, C_GC, 0, 0)) return bad("the collection failed");
				std::string alive(buf, api.hosts(buf, sizeof buf)), want = l.substr(1);
				if (!want.empty()) want += " ";
				if (alive != want) return bad("the host objects left are: " + alive + "instead of: " + want + (mode ? " (collection before every allocation)" : ""));
				sig += alive + ";";
				continue;
			}
			shim_result r;
			g_v.shim_eval(api.shim(m), l.data(), l.size(), 1, &r);
			Outcome o = takeResult(g_v, r);
			steps++;
			if (o.status != SHIM_OK) return bad(l + " gave " + o.observable() + " " + o.message);
			sig += o.observable();
			// Programs say true when all is well.
			if (o.log.find("false") != std::string::npos) return bad(l + " logged " + o.log + (mode ? " (collection before every allocation)" : ""));
		}
		if (int e = api.reset(m)) return bad("resetting the machine fails (" + std::to_string(e) + ", from 1000 on: that host object was not destroyed exactly once)");
	}
	return good(sig, steps);
}
static std::vector<std::string> programs() {
	std::vector<std::string> r;
	// Places within one text: %H is kept while "alive" is emitted, and gone afterwards.
	std::vector<std::pair<std::string, std::string>> local = {
		{"variable", "(() (var h (host)) %A (= 1 1))"},
		{"variable overwritten", "(() (var h (host)) %A (setq h ()) %D 1)"},
		{"list", "(() (var l (list 1 (host) 2)) %A (set-cdr l ()) %D 1)"},
		{"car", "(() (var l (list (host))) %A (set-car l 1) %D 1)"},
		{"dotted", "(() (var l (cons 1 (host))) %A (set-cdr l ()) %D 1)"},
		{"vector", "(() (var v (vector 1 (host))) %A (set-vector-element v 1 0) %D 1)"},
		{"rest of a vector", "(() (var v (cdr (vector 1 (host)))) %A (setq v ()) %D 1)"},
		{"composite value", "(() (var c (make-instance (make-type) (host) ())) %A (set-composite-value c ()) %D 1)"},
		{"composite function", "(() (var c (make-instance (make-type) () (host))) %A (set-composite-function c ()) %D 1)"},
		{"argument", "(() (defun f (a) %A 1) (f (host)) %D 1)"},
		{"argument, emptied", "(() (defun f (a) %A (setq a ()) %D 1) (f (host)) 1)"},
		{"rest argument", "(() (defun f (&rest r) %A (setq r ()) %D 1) (f 1 (host)) 1)"},
		{"captured", "(() (var f (() (var h (host)) (lambda () h))) %A (funcall f) %A (setq f ()) %D 1)"},
		{"captured twice", "(() (var p (() (var h (host)) (list (lambda () h) (lambda (x) (setq h x))))) %A (set-car p ()) %A (setq p ()) %D 1)"},
		{"captured by an inner function", "(() (var f (() (var h (host)) (lambda () (lambda () h)))) %A (setq f (funcall f)) %A (setq f ()) %D 1)"},
		{"captured and overwritten", "(() (var h (host)) (var f (lambda () (setq h ()))) %A (funcall f) %D 1)"},
		{"global", "(() (global g0 (host)) %A (setq g0 ()) %D 1)"},
		{"global closure", "(() (var h (host)) (global g0 (lambda () h)) %A (setq g0 ()) %A 1)"},
		{"result of apply", "(() (defun f (&rest r) (car r)) (var h (apply f (host) (list 1 2))) %A (setq h ()) %D 1)"},
		{"through a callback", "(() (var h (call1 (lambda (x) x) (host))) %A (setq h ()) %D 1)"},
		{"loop", "(() (var i 0) (while (< i 3) (var h (host)) (setq i (+ i 1))) (gc) (emit (dead 0)) (emit (dead 1)) (emit (dead 2)) 1)"},
		{"host object refers", "(() (var h (host)) (var k (list 1)) (refer h k) (setq k ()) (gc) (emit (= 1 (car (referred h)))) %A 1)"},
		{"host objects in a ring", "(() (var h (host)) (refer h (list h)) %A (setq h ()) %D 1)"},
		{"host object behind a host object", "(() (var h (host)) (refer h (list (host))) %A (gc) (emit (not (dead 1))) (refer h ()) (gc) (emit (dead 1)) %A 1)"},
		{"bound in a discarded expression", "(() (host) %D 1)"},
		{"result of if", "(() (var h (if true (host) ())) %A (setq h ()) %D 1)"},
		{"temporary of a call", "(() (defun f (a b) (emit (not (dead 0))) a) (f (() (gc) 1) (host)) %D 1)"},
		{"operand", "(() (emit (not (dead (car (list 0 (host)))))) %D 1)"},
	};
	for (auto &p : local) {
		std::string t = p.second;
		auto rep = [&](const std::string &a, const std::string &b) { for (size_t i; (i = t.find(a)) != std::string::npos; ) t.replace(i, a.size(), b); };
		rep("%A", "(gc) (emit (not (dead 0)))");
		rep("%D", "(gc) (emit (dead 0))");
		r.push_back(t + "|@");
	}
	// Across texts.
	for (auto &p : std::vector<std::pair<std::string, std::string>>{
		{"(global g0 (host))", "(setq g0 ())"}, {"(global g0 (list 1 (host)))", "(set-cdr g0 ())"}, {"(global g0 (vector (host)))", "(set-vector-element g0 0 1)"},
		{"(() (var h (host)) (global g0 (lambda (x) (var r h) (setq h x) r)))", "(() (g0 1) 1)"},
		{"(() (var h (host)) (global g0 (lambda () h)) 1)", "(global g0 ())"},
		{"(() (global g0 (host)) (refer g0 g0) 1)", "(setq g0 1)"},
		{"(() (global g0 (list (host))) (global g1 g0) (setq g0 ()) 1)", "(set-car g1 ())"},
		{"(global g0 (make-instance (make-type) (host) (lambda () 1)))", "(() (set-composite-value g0 ()) 1)"},
		{"(() (global g0 (cons 1 2)) (set-cdr g0 (cons (host) g0)) 1)", "(setq g0 ())"}}) {
		r.push_back(p.first + "|@0|(gc)|@0|" + p.second + "|@");
		r.push_back(p.first + "|@0|(() (var i 0) (while (< i 300) (list i i) (setq i (+ i 1))) 1)|@0|" + p.second + "|@|" + p.first + "|@1|" + p.second + "|@");
	}
	return r;
}
int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P02";
	c.level = "model_checking";
	c.rule = "distinct states of the model of references; every case replays the way to a state on the real machine, makes every call from there, and compares which host objects were destroyed";
	c.assumptions = {"handles are copied freely by the machine: as in the repository's own example, they have a marker and refer to one heap object which has the destructor",
	                 "\"can be reached\" is decided by the model: stack, globals, captured variable, cells and references of host objects"};
	c.setup = [](const std::string &dir) {
		g_v.load(dir, "default"); g_api[0].load(g_v);
		g_vi.load(dir, "portable"); g_api[1].load(g_vi);
	};
	c.spaces = [](bool thorough) {
		size_t cap = thorough ? 60000 : 7000;
		std::vector<Op> base = {O(C_HOST, 0, 0), O(C_POP, 0, 0), O(C_PUSH, -2, 0), O(C_COPYTOP, -2, 0), O(C_GC, 0, 0), O(C_CHURN, 0, 0)};
		auto with = [&](std::vector<Op> v, const std::vector<Op> &w) { v.insert(v.end(), w.begin(), w.end()); return v; };
		std::vector<Cfg> cfgs = {
			{"references between host objects", with(base, {O(C_HOSTSET, -1, 0), O(C_HOSTSET, -2, 0), O(C_HOSTSET, 0, 0), O(C_HOSTGET, 0, 0), O(C_NIL, 0, 0), O(C_ROUNDTRIP, 0, 0), O(C_POPALL, 0, 0)}), 3, 4, thorough ? 12 : 9, cap},
			{"lists", with(base, {O(C_CONS, 0, 0), O(C_SETCAR, -2, 0), O(C_SETCDR, -2, 0), O(C_CAR, 0, 0), O(C_CDR, 0, 0), O(C_HOSTSET, -2, 0), O(C_HOSTGET, 0, 0)}), 3, 3, thorough ? 10 : 7, cap},
			{"vectors", with(base, {O(C_VECTOR, 2, 0), O(C_SETELEMENT, 0, -2), O(C_SETELEMENT, 1, -2), O(C_REST, 0, 0), O(C_ELEMENT, 1, 0), O(C_HOSTSET, -2, 0), O(C_HOSTGET, 0, 0)}), 3, 3, thorough ? 10 : 7, cap},
			{"composites", with(base, {O(C_COMPOSITE, 0, 0), O(C_SETCOMPVALUE, -2, 0), O(C_SETCOMPFUNCTION, -2, 0), O(C_COMPVALUE, 0, 0), O(C_COMPFUNCTION, 0, 0), O(C_HOSTSET, -2, 0)}), 3, 3, thorough ? 10 : 7, cap},
			{"globals and captured variables", with(base, {O(C_SETGLOBAL, 0, 0), O(C_SETGLOBAL, 1, 0), O(C_GETGLOBAL, 0, 0), O(C_FUNCTION, 1, 0), O(C_FUNCTION, 2, 0), O(C_FUNCTION, 3, 0), O(C_FUNCTION, 5, 0), O(C_CALL, -2, 1), O(C_CALL, -1, 0), O(C_CALL, -3, 2), O(C_SOFTRESET, 0, 0), O(C_NIL, 0, 0), O(C_HOSTSET, -2, 0)}), 3, 3, thorough ? 9 : 6, cap},
		};
		std::vector<Space> r;
		for (auto &cfg : cfgs) {
			bool complete;
			int deepest;
			auto s = reach(cfg, complete, deepest);
			auto p = std::make_shared<Cfg>(cfg);
			std::string bounds = std::to_string(cfg.ops.size()) + " calls, stack up to " + std::to_string(cfg.maxStack) + ", up to " + std::to_string(cfg.maxCells) + " cells and host objects, "
				+ (complete ? "every state within " + std::to_string(cfg.depth) + " calls" : "the first " + std::to_string(cfg.maxStates) + " states, up to " + std::to_string(deepest) + " calls away");
			r.push_back(listSpace(cfg.name, bounds, s, [p, thorough](const std::string &t) { return check(*p, t, thorough ? 2 : 1, true, true); }));
			std::vector<std::string> few(s.begin(), s.begin() + std::min<size_t>(s.size(), thorough ? 20000 : 1500));
			r.push_back(listSpace(cfg.name + ": shutting down", bounds + "; the machine is shut down in the first " + std::to_string(few.size()) + " states, with and without a collection before, x no destructor, the first one or the second one reports an error", few,
				[p](const std::string &t) { return atEnd(*p, t, 2); }));
		}
		r.push_back(listSpace("programs", "every kind of place which keeps a host object: alive while it is kept, destroyed once when it is not", programs(), program));
		return r;
	};
	return runCheck(argc, argv, c);
}
