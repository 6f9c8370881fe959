// Garbage collection is invisible: every program x every placement of a collection (before every single allocation, and
// before all of them), every heap size, and loops whose need for memory must not grow with the number of rounds.
#include "../harness/refcheck.hpp"
typedef std::vector<std::string> SV;
static Variant v;

static shim_cfg big() {
	shim_cfg c = defaultCfg();
	c.vmObjects = c.ctObjects = 1200;
	return c;
}
// Programs of the generated families may loop for ever: the reference evaluator says which.
static bool terminates(const std::string &t) { return refSession(t).inDomain; }
// Placements 1..cap one by one, all at once, and (thorough) every pair.
static Verdict schedules(const std::string &t, size_t cap, bool pairs) {
	v.shim_schedule(0, nullptr, 0);
	SessionOutcome o = evalSession(v, big(), t, true);
	size_t n = v.shim_allocations();
	uint32_t steps = 1;
	std::string why;
	auto run = [&](int mode, std::vector<size_t> at) {
		SessionOutcome p;
		// The counter starts when the machine is ready: see evalSession, which makes the machine first.
		v.shim_schedule(mode, at.data(), (int) at.size());
		p = evalSession(v, big(), t, true);
		v.shim_schedule(0, nullptr, 0);
		steps++;
		if (p.observable == o.observable && p.live == o.live) return true;
		std::string pl = mode == 1 ? "every allocation" : "allocation";
		for (auto a : at) pl += " " + std::to_string(a);
		why = "no collection: " + o.observable + " live " + std::to_string(o.live) + "\ncollections before " + pl + ": " + p.observable + " live " + std::to_string(p.live) + "\n" + p.messages;
		return false;
	};
	if (!run(1, {})) return bad(why);
	for (size_t k = 1; k <= n && k <= cap; k++) if (!run(2, {k})) return bad(why);
	if (pairs) for (size_t k = 1; k <= n && k <= 60; k++) for (size_t l = k + 1; l <= n && l <= 60; l++) if (!run(2, {k, l})) return bad(why);
	return good(o.observable, steps);
}
static bool isOutOfMemory(const SessionOutcome &o) { return !o.init || o.messages.find("ut of memory") != std::string::npos; }
// Smallest heap in which the program gives what it gives in a large one; checks that every size is either too small
// (a reported error) or right, and that more memory never hurts.
static bool g_thorough;
static bool threshold(const std::string &t, size_t max, int which, size_t &T, std::string &why, uint32_t &steps) {
	v.shim_schedule(0, nullptr, 0);
	SessionOutcome o = evalSession(v, big(), t, true);
	T = 0;
	for (size_t n = 1; n <= max; n++) {
		if (!g_thorough && T && n > T + 12 && n % 8) continue;
		shim_cfg c = big();
		(which ? c.ctObjects : c.vmObjects) = n;
		SessionOutcome p = evalSession(v, c, t, true);
		steps++;
		bool oom = isOutOfMemory(p);
		if (!oom && p.observable == o.observable && p.live == o.live) {
			if (!T) T = n;
			continue;
		}
		if (oom && !T) continue;
		why = (T ? "right with " + std::to_string(T) + " objects, but with " : std::string("with ")) + std::to_string(n) + ": " + p.observable + " live " + std::to_string(p.live) + "\n" + p.messages + "\nlarge heap: " + o.observable + " live " + std::to_string(o.live);
		return false;
	}
	if (!T) T = max + 1;
	return true;
}
static Verdict heapSizes(const std::string &t) {
	size_t T;
	std::string why;
	uint32_t steps = 1;
	for (int which = 0; which < 2; which++) if (!threshold(t, which ? 60 : 120, which, T, why, steps)) return bad((which ? "compile-time heap " : "run-time heap ") + why);
	return good(t.substr(0, 200) + std::to_string(T), steps);
}
// The text has "N" in place of the number of rounds.
static Verdict rounds(const std::string &t) {
	std::string why;
	uint32_t steps = 0;
	size_t T[3];
	int k = 0;
	for (const char *n : {"5", "9", "23"}) {
		std::string s;
		for (char c : t) s += c == 'N' ? n : std::string(1, c);
		if (!threshold(s, 110, 0, T[k++], why, steps)) return bad(std::string("N=") + n + ": " + why);
	}
	if (T[0] != T[1] || T[1] != T[2]) return bad("objects needed for 5, 9 and 23 rounds: " + std::to_string(T[0]) + " " + std::to_string(T[1]) + " " + std::to_string(T[2]));
	if (T[0] > 110) return bad("the program does not fit in 110 objects");
	return good(t.substr(0, 300) + std::to_string(T[0]), steps);
}

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P01";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of the programs explored (each under every schedule)";
	c.assumptions = {"collections can only happen in heap allocations and when the program or host asks for one (the hook sits in the one allocation function)", "freed objects are overwritten after a forced collection, and their payloads are under the address sanitizer"};
	c.setup = [](const std::string &lib) { v.load(lib, "default"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		g_thorough = th;
		for (Family f : corpus::all()) {
			f.bound(th ? 20000 : 1200);
			if (!f.count) continue;
			s.push_back(famSpace(f, [th](const std::string &t) { return terminates(t) ? schedules(t, 400, th && t.size() < 400) : skip(); }));
		}
		for (Family f : corpus::all()) {
			f.bound(th ? 150000 : 4000);
			if (!f.count) continue;
			f.name += " (all placements at once)";
			s.push_back(famSpace(f, [](const std::string &t) { return terminates(t) ? schedules(t, 0, false) : skip(); }));
		}
		// Instructions which build values: every one, nested in every other, as operand in every position.
		SV vals = {"1", "\"s\"", "(list 1 2)", "(cons x y)", "(vector x 2 y)", "(make-vector 2 (list x))", "'(a (b \"c\") 1.5)", "'sym", "(concatenate \"a\" y)", "(substring \"abcd\" 1 3)", "(make-string (list 65 66))", "(make-string (vector 67 68))", "(symbol-string 'q)", "(lambda () (list x y))", "(lambda (p &rest q) (list p q x))",
			"(make-instance t (list x) (lambda (z) (list z y)))", "(f x (list y))", "(g 1 2 x)", "(apply g 1 (list x 3))", "(apply f (list x y))", "(funcall (lambda (&rest r) r) x y)", "(call1 h (list x))", "(composite-value c)", "(funcall c (list 9))", "(car (cdr (list x y)))", "(comptime (list 1 \"k\"))", "(cdr (vector 1 x 3))", "(cdr \"xyz\")", "(() (var x (list 7)) (lambda () x))",
			"(() (var n 2) (var l ()) (while n (setq l (cons (lambda () (setq n (- n 1))) l)) (setq n (if (> n 1) 1 ()))) l)", "(type-of (list x))", "(set-car (list x x) (list y))", "(set-cdr (cons x x) (list y))", "(set-vector-element (vector 1 2) 1 (list y))", "(set-composite-value c (list 1 x))", "(m x (list y))"};
		SV bins = {"(list A B)", "(cons A B)", "(vector A B 3)", "(make-vector 3 (list A B))", "(f A B)", "(g A B A)", "(apply g A (list B))", "(make-instance t A (list B))", "(set-car (list 1 2) (list A B))", "(set-vector-element (vector A A) 0 B)", "(funcall (lambda (p) (list p B)) A)", "(funcall (lambda (p &rest q) (list p q)) A B A)", "(set-composite-function c (list A B))", "(call1 (lambda (p) (list p B)) A)", "(() (var p A) (var q B) (lambda () (list p q)))", "(() (var p A) (setq h (lambda (r) (list p r))) (var q B) (h q))", "(() (global gg A) (list gg B))", "(emit (list A B))", "(if (list A) (list B) 1)",
			"(setq x (list A B))", "(m A B)", "(list \"l\" (concatenate \"a\" \"b\") A (list B))"};
		SV nest;
		std::string pre = "(() (defmacro m (a &rest b) (list 'list a (cons 'list b) (list 'quote b) \"m\")) (var x \"ex\") (var y \"why\") (var t (make-type)) (defun f (a b) (list b a x)) (defun g (a &rest r) (list r a)) (global h (lambda (z) (list z y))) (var c (make-instance t (list \"cv\") (lambda (w) (list w x)))) ";
		auto put = [](const std::string &b, const std::string &A, const std::string &B) { std::string r; for (char ch : b) r += ch == 'A' ? A : ch == 'B' ? B : std::string(1, ch); return r; };
		auto prog = [&](const std::string &b, const std::string &A, const std::string &B) { return unquote(pre + "(var res " + put(b, A, B) + ") (list x y c res (if (= (type-of res) (type-of f)) (res) 0)))"); };
		SV single;
		for (auto &b : bins) for (size_t i = 0; i < vals.size(); i++) for (size_t j = 0; j < vals.size(); j++) {
			nest.push_back(prog(b, vals[i], vals[j]));
			// Quick: single placements with each value at least once in either position.
			if (th || (i * 7 + 3) % vals.size() == j) single.push_back(nest.back());
		}
		s.push_back(listSpace("nested constructors", "every value-building form as operand of every other, " + std::to_string(single.size()) + " programs, each with a collection before every single allocation and before all", single, [](const std::string &t) { return schedules(t, 400, false); }));
		s.push_back(listSpace("nested constructors (all placements at once)", "every value-building form as operand of every other, " + std::to_string(nest.size()) + " programs, each with a collection before every allocation", nest, [](const std::string &t) { return schedules(t, 0, false); }));
		// Values which survive in globals, closures and structures from one text to the next.
		SV sess;
		for (auto &A : vals) for (auto &B : SV{"(list x y)", "(lambda () x)", "(vector x)", "\"z\"", "(make-instance t x y)"}) {
			std::string p2 = unquote("(() (defmacro m (a &rest b) (list 'list a (cons 'list b))) (global t (make-type)) (global x \"ex\") (global y (list \"why\")) (global f (lambda (a b) (list b a x))) (global g (lambda (a &rest r) (list r a))) (global h (lambda (z) (list z y))) (global c (make-instance t (list \"cv\") (lambda (w) (list w x)))) (global keep ") + unquote(A) + ") 0)";
			sess.push_back(p2 + "|||" + unquote("(() (var n 5) (while (> n 0) (setq n (- n 1)) (list n \"garbage\" (vector n))) keep)") + "|||" + unquote("(() (setq x " + B + ") (setq keep (list keep x)) (setq y ()) keep)") + "|||(() (car 5))|||" + unquote("(list keep x y (if (= (type-of (car keep)) (type-of f)) (funcall (car keep)) 0))"));
			sess.push_back(p2 + "|||" + unquote("(() (var l " + A + ") (setq keep (lambda (n) (if n (setq l n) l))) (fail))") + "|||" + unquote("(() (list (keep ()) (keep " + B + ") (keep ())))") + "|||" + unquote("(comptime (global z (list 1 \"a\")) 5)") + "|||" + unquote("(list (keep ()) (comptime (list z (lambda () z)) 6) (comptime z))"));
		}
		s.push_back(listSpace("sessions", "every value kept in a global over 5 texts with errors in between x collection before every single allocation", sess, [th](const std::string &t) { return schedules(t, 400, th); }));
		// Macros: the compile-time machine collects too.
		SV mac;
		SV bodies = {"(list 'list a b)", "(cons 'list (cons a (list b)))", "(list 'funcall (list 'lambda (list 'q) (list 'list 'q b)) a)", "(() (var l (list b)) (setq l (cons a l)) (cons 'list l))", "(list 'quote (list a b \"s\" 1.5 'z))", "(apply list2 a (list b))", "(if (= a 'x) (list 'list a \"t\") (list 'vector a b))", "(() (defun loc (u) (list 'list u \"v\")) (loc b))"};
		SV args = {"x", "(list x \"arg\")", "\"str\"", "(lambda () (list x \"in\"))", "(m x \"inner\")", "'(q \"r\" (s 1.5))", "2.5", "(comptime (list 1 \"ct\" (list)))"};
		for (auto &bd : bodies) for (auto &a : args) for (auto &b : args)
			mac.push_back(unquote("(() (comptime (defun list2 (a b) (list 'list a b (list 'quote (list a b)))) 0) (defmacro m (a b) " + bd + ") (var x \"xx\") (list (m " + a + " " + b + ") (m " + b + " " + a + ")))"));
		s.push_back(listSpace("macros", "every macro body x pair of arguments x collection before every single allocation (compile-time machine included)", mac, [](const std::string &t) { return schedules(t, 1000, false); }));
		// The reader as a function of the compile-time machine.
		SV rd, atoms = {"a", "1.5", "\\\"s\\\"", "true", "()", "(b)", "(c \\\"t\\\" (d))", "#(e 1)"};
		for (auto &a : atoms) for (auto &b : atoms) for (auto &q : SV{a, "(" + a + " " + b + ")", "(" + a + " (" + b + " " + a + ") " + b + ")", "((" + a + ") ((" + b + ")))"}) {
			rd.push_back("(comptime (car (read \"" + q + "\" false)))");
			rd.push_back("(comptime (() (var l (read \"" + q + "\" false)) (list l (read \"" + q + "\" false) l)))");
			rd.push_back(unquote("(() (defmacro r (s) (list 'quote (car (read s false)))) (list (r \"" + q + "\") (r \"(x)\")))"));
		}
		std::sort(rd.begin(), rd.end());
		rd.erase(std::unique(rd.begin(), rd.end()), rd.end());
		s.push_back(listSpace("read", "every text of up to 3 nested atoms, read at compile time x collection before every single allocation and before all", rd, [](const std::string &t) { return schedules(t, 1000, false); }));
		// Heap sizes.
		SV hs;
		for (auto &A : vals) for (auto &B : SV{"(list x y)", "\"zz\"", "(lambda () (list x y))"}) for (auto &b : th ? bins : SV{"(list A B)", "(g A B A)", "(make-vector 3 (list A B))", "(() (var p A) (var q B) (lambda () (list p q)))", "(m A B)", "(call1 (lambda (p) (list p B)) A)"})
			hs.push_back(unquote(pre + "(var res " + put(b, A, B) + ") (list x y c res))"));
		for (auto &m : mac) if (hs.size() % (th ? 1 : 4) == 0 || th) hs.push_back(m);
		for (auto &m : sess) hs.push_back(m);
		s.push_back(listSpace("heap sizes", std::string("every size of the run-time heap up to 120 objects and of the compile-time heap up to 60") + (th ? "" : " (every eighth of those which are more than 12 objects too large)"), hs, heapSizes));
		SV lo;
		for (auto &A : vals) {
			if (A[1] == 'm' && A[2] == ' ') continue;
			for (auto &b : SV{"A", "(setq keep A)", "(setq keep (list A A))", "(setq keep (lambda () A))", "(() (var l A) (setq keep (lambda () l)))", "(global gg A)", "(set-car cell A)", "(set-vector-element vec 1 A)", "(set-composite-value c A)", "(f A A)", "(g A A A)", "(setq x (if x \"ex\" A))", "(if A (list A) ())", "(when (list A) A)", "(emit (if A 1 2))", "(() (var p A) (defun q (z) (setq p z)) (q A) (setq keep q))", "(() (noscope (var p A) (var r A)) (setq keep (list p r)))"})
				lo.push_back(unquote("(() (var i 0) (var keep ()) (var cell (list 0)) (var vec (vector 1 2)) (var x \"ex\") (var y \"why\") (var t (make-type)) (defun f (a b) (list b a x)) (defun g (a &rest r) (list r a)) (global h (lambda (z) (list z y))) (var c (make-instance t (list \"cv\") (lambda (w) (list w x)))) (while (< i N) (setq i (+ i 1)) " + put(b, A, "") + ") i)"));
		}
		for (auto &t : SV{"(() (defun f (n) (if (= n 0) (list 1 \"a\") (() (list n) (self (- n 1))))) (var i 0) (while (< i N) (setq i (+ i 1)) (f 3)) i)", "(() (var i 0) (global mk (lambda (n) (lambda () (setq n (+ n 1))))) (while (< i N) (setq i (+ i 1)) (funcall (mk i))) i)",
				"(() (var i 0) (while (< i N) (var a i) (var b (lambda () (lambda () (setq a (+ a 1))))) (funcall (funcall b)) (setq i (+ i 1))) i)", "(() (var i 0) (var l ()) (while (< i N) (setq i (+ i 1)) (setq l (cons i ())) (set-cdr l l)) i)", "(() (var i 0) (while (< i N) (setq i (+ i 1)) (var v (vector 1 2)) (set-vector-element v 0 v)) i)", "(() (var i 0) (while (< i N) (setq i (+ i 1)) (call1 (lambda (p) (list p (lambda () p))) (list i))) i)"})
			lo.push_back(t);
		s.push_back(listSpace("rounds", "every loop body x 5, 9 and 23 rounds x every heap size up to 110 as above: the number of objects needed stays the same", lo, rounds));
		return s;
	};
	return runCheck(argc, argv, c);
}
