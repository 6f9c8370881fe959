// Calls: every kind of callee x way of calling x parameter list x argument list, and programs of nested and recursive calls.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
static std::string params(int n, bool rest) {
	std::string s = "(";
	for (int i = 0; i < n; i++) s += (i ? " p" : "p") + std::to_string(i);
	if (rest) s += std::string(n ? " " : "") + "&rest r";
	return s + ")";
}
static std::string uses(int n, bool rest) {
	std::string s = "(list";
	for (int i = 0; i < n; i++) s += " p" + std::to_string(i);
	return s + (rest ? " r)" : ")");
}
int main(int argc, char **argv) {
	return refMain(argc, argv, "P08",
		[](bool th) {
			Family a = corpus::callPrograms();
			a.bound(th ? 3000000 : 60000);
			Family b = corpus::recursion();
			b.bound(th ? 1000000 : 40000);
			return std::vector<Family>{a, b};
		},
		[](bool th) {
			std::vector<RefLists> r;
			RefLists a{"arity", "every kind of function (0..4 parameters, with or without rest) x every way of calling it x 0..6 arguments x context", {}};
			SV vals = {"10", "\"s\"", "()", "x", "(+ x 1)", "2.5"};
			for (int n = 0; n <= 4; n++) for (int rest = 0; rest < 2; rest++) for (int k = 0; k <= 6; k++) {
				std::string P = params(n, rest), U = uses(n, rest), args, tail = "(list";
				for (int i = 0; i < k; i++) args += " " + vals[i], tail += " " + vals[i];
				tail += ")";
				std::string lam = "(lambda " + P + " (emit 5) " + U + ")";
				// how the function is reached: definition, name in call position, value expression
				struct Way { std::string def, call; };
				std::vector<Way> ways;
				std::string df = "(defun f " + P + " (emit 5) " + U + ")";
				ways.push_back({df, "(f" + args + ")"});
				ways.push_back({"(global f " + lam + ")", "(f" + args + ")"});
				ways.push_back({"(global f " + lam + ")", "(funcall f" + args + ")"});
				ways.push_back({"(var f " + lam + ")", "(funcall f" + args + ")"});
				ways.push_back({"", "(funcall " + lam + args + ")"});
				ways.push_back({"", "(" + lam + args + ")"});
				ways.push_back({df, "(funcall (car (list f))" + args + ")"});
				ways.push_back({"(var f (make-instance (make-type) 8 " + lam + "))", "(funcall f" + args + ")"});
				ways.push_back({"(global f (make-instance (make-type) 8 " + lam + "))", "(f" + args + ")"});
				ways.push_back({"(var t (make-type)) (var f (make-instance t 8 (make-instance t 9 " + lam + ")))", "(funcall f" + args + ")"});
				ways.push_back({"(var f (make-instance (make-type) 8 ())) (set-composite-function f " + lam + ")", "(funcall f" + args + ")"});
				ways.push_back({df, "(apply f " + tail + ")"});
				ways.push_back({"(global f " + lam + ")", "(apply f " + tail + ")"});
				ways.push_back({"(var f (make-instance (make-type) 8 " + lam + "))", "(apply f " + tail + ")"});
				if (k > 0) {
					std::string first = vals[0], t2 = "(list";
					for (int i = 1; i < k; i++) t2 += " " + vals[i];
					ways.push_back({df, "(apply f " + first + " " + t2 + "))"});
				}
				if (k > 1) {
					std::string t2 = "(list";
					for (int i = 2; i < k; i++) t2 += " " + vals[i];
					ways.push_back({df, "(apply f " + vals[0] + " " + vals[1] + " " + t2 + "))"});
					ways.push_back({"(var f " + lam + ")", "(apply f " + vals[0] + " " + vals[1] + " " + t2 + "))"});
				}
				if (k == 1) ways.push_back({df, "(call1 f " + vals[0] + ")"});
				if (k == 1) ways.push_back({"(var f (make-instance (make-type) 8 " + lam + "))", "(call1 f " + vals[0] + ")"});
				// itself
				ways.push_back({"(defun f " + P + " (emit 5) (if x (() (setq x ()) (self" + args + ")) " + U + "))", "(f" + args + ")"});
				for (auto &w : ways) {
					a.cases.push_back("(() (var x 3) " + w.def + " " + w.call + ")");
					a.cases.push_back("(() (var x 3) " + w.def + " (list 1 " + w.call + " x 2))");
					a.cases.push_back("(() (var x 3) " + w.def + " ((lambda (z) (var y 4) (list z y " + w.call + " y z x)) 6))");
					a.cases.push_back("(() (var x 3) " + w.def + " (" + w.call + " " + w.call + " x))");
					a.cases.push_back("(() (var x 3) " + w.def + " (+ (() " + w.call + " 4) x))");
				}
			}
			r.push_back(a);
			// What is not a function.
			RefLists b{"callees", "every kind of value as callee x every way of calling x 0..3 arguments", {}};
			SV notf = {"()", "true", "5", "2.5", "\"s\"", "'s", "'(1 2)", "(vector 1)", "(make-type)", "(make-instance (make-type) 1 2)", "(make-instance (make-type) 1 ())", "emit", "call1", "gc", "(lambda () 1)", "(lambda (a) a)",
				"(make-instance (make-type) 1 emit)", "(make-instance (make-type) 1 (make-instance (make-type) 2 (lambda (a b) (list b a))))", "undefined-name"};
			for (auto &f : notf) {
				for (const char *args : {"", " 1", " 1 2", " 1 2 3"}) {
					b.cases.push_back("(() (emit 0) (funcall " + f + args + "))");
					b.cases.push_back("(() (var f " + f + ") (emit 0) (list (funcall f" + args + ") 7))");
					b.cases.push_back("(() (global ff " + f + ") (emit 0) (list (ff" + args + ") 7))");
					b.cases.push_back("(() (var f " + f + ") (emit 0) (list (apply f (list" + args + ")) 7))");
					b.cases.push_back("(() (var f " + f + ") (emit 0) (list (apply f 5 (list" + args + ")) 7))");
					b.cases.push_back("(() (var f " + f + ") (list (funcall (lambda () (funcall f" + args + "))) 7))");
				}
				b.cases.push_back("(() (var f " + f + ") (emit 0) (list (call1 f 9) 7))");
				for (auto &g : notf) {
					b.cases.push_back("(() (var f " + f + ") (emit 0) (list (apply f " + g + ") 7))");
					b.cases.push_back("(() (var f " + f + ") (emit 0) (list (apply f 1 " + g + ") 7))");
				}
			}
			for (auto &l : {"'()", "'(1)", "'(1 2)", "(cons 1 2)", "(cons 1 (cons 2 3))", "(cons 1 (vector 2))", "(vector 1 2)", "\"ab\"", "()", "(cdr '(1 2))", "(cdr '(1))"})
				for (auto &p : {"()", "(a)", "(a b)", "(&rest r)", "(a &rest r)", "(a b &rest r)"})
					for (auto &pre : {"", " 7", " 7 8"})
						b.cases.push_back(std::string("(() (var l ") + l + ") (var f (lambda " + p + " (emit 1) " + (p[1] == ')' ? "0" : std::string(p).find("rest") != std::string::npos ? "r" : "a") + ")) (list (apply f" + pre + " l) l))");
			r.push_back(b);
			// Rest lists are fresh, parameters are fresh.
			RefLists c{"fresh parameters", "mutation of parameters and rest lists does not reach the caller, every pair of functions and mutations", {}};
			SV mut = {"(setq a 100)", "(set-car r 100)", "(set-cdr r (list 5))", "(setq r (cons a r))", "(setq k (lambda () (setq a (+ a 1)) (list a r)))", "(setq k (lambda () r))", "(setq a r)", "()"};
			for (auto &m : mut) for (auto &m2 : mut) for (auto &call : {"(f 1 2 3)", "(apply f 1 l)", "(apply f l)", "(funcall f 1 2 l)", "(f x x x)", "(apply f x (list x x))"}) for (int again = 0; again < 2; again++) {
				// Whether the rest list shares structure with the list given to apply is not documented.
				if (call[1] == 'a' && (m + m2).find("(set-c") != std::string::npos) continue;
				c.cases.push_back("(() (var x 9) (var k (lambda () 0)) (var l (list 6 7 8)) (defun f (a &rest r) " + m + " " + m2 + " (list a r)) (var s " + call + ") (emit s) (emit (funcall k)) " + (again ? std::string(call) + " (emit (funcall k)) " : "") + "(list x l s (funcall k)))");
			}
			r.push_back(c);
			return r;
		});
}
