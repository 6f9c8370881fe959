// The optimising build and a build of the same sources without the optimisations agree on every program.
#include "../harness/diffmain.hpp"
static Variant opt, noopt;

static Verdict both(const std::string &t, bool filter) {
	RefSession r;
	if (filter) {
		r = refSession(t);
		if (!r.inDomain) return skip();
	}
	shim_cfg c = defaultCfg();
	SessionOutcome a = evalSession(opt, c, t), b = evalSession(noopt, c, t);
	if (a.observable != b.observable) return bad("optimised:   " + a.observable + "\nunoptimised: " + b.observable + "\n" + a.messages + "\n" + b.messages);
	if (filter && a.observable != r.observable) return bad("reference: " + r.observable + "\nboth builds: " + a.observable + "\n" + a.messages);
	return good(a.observable, 2);
}
// "#n;" stands for a statement which is 7 + n bytes long.
static std::string pads(const std::string &t) {
	std::string r;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != '#') { r += t[i]; continue; }
		size_t n = 0;
		for (i++; t[i] != ';'; i++) n = n * 10 + (t[i] - '0');
		r += "(setq s \"" + std::string(n, 'p') + "\")";
	}
	return r;
}

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P03";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of the sessions run by both builds";
	c.assumptions = {"the unoptimised build is the same sources with NO_OPTIMIZE_JUMPS and NO_OPTIMIZE_PUSHPOPS"};
	c.setup = [](const std::string &lib) { opt.load(lib, "default"); noopt.load(lib, "noopt"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		for (Family f : corpus::all()) {
			f.bound(th ? 600000 : 20000);
			s.push_back(famSpace(f, [](const std::string &t) { return both(t, true); }));
		}
		// Discarded values next to each other in every kind of body.
		SV st = {"1", "300", "2.5", "\"str\"", "true", "()", "x", "u", "gl", "'sy", "'(1 2)", "(lambda () (setq x (+ x 1)) x)", "(lambda (&rest r) u)", "(setq x (+ x 1))", "(setq u (cons x u))", "(make-type)", "(list x u)", "(car u)", "(emit x)", "(f x)", "(() (var z x) z)", "(() 1 2)", "(if (= x 2) 1 2)",
			"(if (> x 1) (setq x 0) ())", "(when (> x 1) (emit \"w\") 3)", "(unless u x)", "(while (> x 0) (setq x (- x 1)) x)", "(var x 5)", "(var y (lambda () x))", "(noscope (var w 1) w)", "(defun h () x)", "(global gl x)", "(not x)", "(= x 1)", "(if () 1 2)", "(while () 1)", "(comptime 5)", "(m x)", "(comptime 1 (emit 3) ())"};
		SV bodies = {"(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) a 1 (setq x (+ x a)) x) B (list x u gl))", "(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (setq u a) 2) (defun k (x) B (list x u)) (list (k 2) (k 3) x gl))",
			"(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (+ a 1)) (var i 3) (while (> i 0) (setq i (- i 1)) B) (list x u gl i))", "(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (list a)) (if (> x 0) (() B) (() x B)) (list x u gl))",
			"(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (list a)) (list (() B x) (() (var q 1) B) u gl))", "(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (setq gl a)) (var l ()) (var i 2) (while (> i 0) (var o i) (setq l (cons (lambda () B (setq o (+ o x)) o) l)) (setq i (- i 1))) (list (funcall (car l)) (funcall (car (cdr l))) x u gl))",
			"(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (list a)) (when (= x 1) B) (unless (= x 1) B) (list x u gl))", "(() M (var x 1) (var u '(1)) (global gl 9) (defun f (a) (list a)) (funcall (lambda (p &rest q) B (list p q x)) x u 3))"};
		SV disc;
		auto add = [&](const std::string &B) {
			for (auto &b : bodies) {
				// x and u are the program's own names: only the capitals are holes
				disc.push_back(unquote(put(b, {{'M', "(defmacro m (a) a)"}, {'B', B}})));
			}
		};
		for (auto &a : st) add(a);
		for (auto &a : st) for (auto &b : st) add(a + " " + b);
		if (th) for (auto &a : st) for (auto &b : st) for (auto &e : st) add(a + " " + b + " " + e);
		s.push_back(listSpace("discarded values", "every sequence of up to " + std::string(th ? "3" : "2") + " statements out of " + std::to_string(st.size()) + " in every one of " + std::to_string(bodies.size()) + " bodies", disc, [](const std::string &t) { return both(t, true); }));
		// Jumps of every length around the width boundaries.
		SV shapes = {"(if c #A; #B;)", "(() (if c #A; #B;) (if d #B; #A;))", "(() (while (< i 2) #A; (setq i (+ i 1)) (if (= i 1) #B; ())) i)", "(() (defun f (n) #A; (if (= n 0) 7 (self (- n 1)))) #B; (f 2))", "(() (var f (lambda (&rest r) #A; (if r #B; ()) r)) (funcall f 1 2))",
			"(() (if c (() #A; (if d #B; #A;) #B;) #A;) (emit \"x\"))", "(() (while (< i 2) (when d #A;) #B; (setq i (+ i 1)) (unless c #A;) #B;) i)", "(() (var l ()) (while (< i 2) (var k i) #A; (setq l (cons (lambda () #B; (setq k (+ k 5)) k) l)) (setq i (+ i 1))) (list (funcall (car l)) (funcall (car (cdr l)))))",
			"(() (while (() #A; (< i 2)) (setq i (+ i 1)) #B; (if c (emit i) (emit 0))) i)"};
		std::vector<int> fine, coarse;
		for (int k = 0; k <= 140; k++) {
			if (th || k >= 88 || k % 16 == 0) fine.push_back(k);
			if (th ? k % 3 == 0 : k >= 100 ? k % 5 == 0 : k % 25 == 0) coarse.push_back(k);
		}
		SV jl;
		auto prog = [&](const std::string &sh, size_t a, size_t b) { return pads(put("(() (var c true) (var d false) (var i 0) (var s \"\") (emit BODY) (list i (length s)))", {{'B', put(sh, {{'A', std::to_string(a)}, {'B', std::to_string(b)}})}, {'O', ""}, {'D', ""}, {'Y', ""}})); };
		for (auto &sh : shapes) for (int a : fine) for (int b : coarse) { jl.push_back(prog(sh, a, b)); jl.push_back(prog(sh, b, a)); }
		for (auto &sh : shapes) for (int a : fine) jl.push_back(prog(sh, a, a));
		s.push_back(listSpace("jump distances around 127 bytes", std::to_string(shapes.size()) + " shapes of crossing jumps x every pair of paddings from " + std::to_string(fine.size()) + " x " + std::to_string(coarse.size()) + " lengths", jl, [](const std::string &t) { return both(t, true); }));
		SV j2;
		for (auto &sh : shapes) for (int a = 32690; a <= 32790; a += th ? 1 : 2) for (int b : th ? std::vector<int>{0, 1, 40, 110, 125, 200, 32700} : std::vector<int>{0, 110}) { j2.push_back(prog(sh, a, b)); if (b) j2.push_back(prog(sh, b, a)); }
		s.push_back(listSpace("jump distances around 32767 bytes", std::to_string(shapes.size()) + " shapes x paddings 32690.." "32790 on either side", j2, [](const std::string &t) { return both(t, true); }));
		// Many jumps whose own sizes decide the distances of others.
		SV j3;
		int N = th ? 70 : 34;
		for (int n = 1; n <= N; n++) for (int p = 0; p <= (th ? 24 : 12); p++) {
			std::string chain, nestA, nestB, close, lam;
			for (int k = 0; k < n; k++) {
				chain += k % 2 ? "(when c (setq i (+ i 1)))" : "(unless d (setq i (+ i 2)))";
				nestA += "(if c ";
				nestB += "(() (setq i (+ i 1)) (while (() (setq w (+ w 1)) (< w " + std::to_string(n + 5) + ")) ";
				close += " 3)";
				lam += "(setq i (+ i (funcall (lambda () c 2))))";
			}
			std::string q = "#" + std::to_string(p) + ";";
			std::string nb = nestB + q;
			for (int k = 0; k < n; k++) nb += "))";
			for (auto &b : SV{"(while (< w 2) (setq w (+ w 1)) " + chain + q + ")", "(if c (() " + q + chain + ") (() " + chain + "))", nestA + "(() " + q + " 9)" + close, "(while (< w 2) (setq w (+ w 1)) " + nestA + "(() " + q + " 9)" + close + ")", nb, "(() " + lam + "(when c " + q + lam + "))", "(() (defun f () " + chain + q + ") (f) (f))"})
				j3.push_back(pads("(() (var c true) (var d false) (var i 0) (var w 0) (var s \"\") (emit " + b + ") (list i w (length s)))"));
		}
		s.push_back(listSpace("chains and nests of jumps", "7 shapes x 1.." + std::to_string(N) + " jumps x every alignment", j3, [](const std::string &t) { return both(t, true); }));
		if (th) {
			SV j4;
			for (int n : {10, 100, 1400, 1500, 2900, 2950}) for (int p = 0; p < 64; p++) {
				std::string ch;
				for (int k = 0; k < n; k++) ch += k % 2 ? "(when c (setq i (+ i 1)))" : "(unless d (setq i (+ i 2)))";
				j4.push_back(pads("(() (var c true) (var d false) (var i 0) (var w 0) (var s \"\") (while (< w 2) (setq w (+ w 1)) " + ch + "#" + std::to_string(p) + ";) (list i w))"));
			}
			s.push_back(listSpace("long chains of jumps", "up to 2950 jumps x 64 alignments", j4, [](const std::string &t) { return both(t, false); }));
		}
		return s;
	};
	return runCheck(argc, argv, c);
}
