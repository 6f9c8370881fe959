// Types, composites, symbols and quoted data, against the reference evaluator.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
int main(int argc, char **argv) {
	return refMain(argc, argv, "P11",
		[](bool th) {
			Family a = corpus::compositeHistories();
			a.bound(th ? 3000000 : 70000);
			Family b = corpus::symbols();
			b.bound(th ? 2000000 : 50000);
			Family c = corpus::quotes();
			c.bound(th ? 2000000 : 60000);
			return std::vector<Family>{a, b, c};
		},
		[](bool th) {
			std::vector<RefLists> r;
			SV vals = {"true", "false", "0", "7", "-1", "0.0", "2.5", "\"\"", "\"a\"", "(cdr \"ab\")", "()", "'(1)", "(list)", "'(())", "(cons 1 2)", "'s", "'if", "emit", "(lambda () 1)", "(lambda (&rest a) a)", "self-f", "(vector)", "(vector 1)", "(cdr (vector 1))",
				"(type-of 1)", "(type-of (type-of 1))", "(make-type)", "(make-instance (make-type) 1 2)", "(make-instance t2 () ())", "co", "(composite-value co)", "(car (list co))", "(type-of co)", "t2", "(symbol-string 'a)", "(comptime 5)", "(comptime \"q\")", "(comptime 's)", "(comptime '(list 1 \"b\" 'c))", "(comptime 't2)", "(comptime ())", "(comptime 2.5)", "(comptime true)"};
			std::string pre = "(var t2 (make-type)) (var t3 (make-type)) (var co (make-instance t2 '(1) (lambda (a) (list a t2)))) (defun self-f (x) self) ";
			RefLists a{"type of every value", "every value x every pair of values: type-of, equality of types and values, storage in every container", {}};
			for (auto &v : vals) {
				for (auto &e : {"(type-of V)", "(= (type-of V) (type-of V))", "(type-of (car (list V)))", "(type-of (car (vector V)))", "(type-of (get-vector-element (make-vector 3 V) 2))", "(type-of (composite-value (make-instance t3 V ())))", "(type-of (composite-function (make-instance t3 () V)))", "(type-of (funcall (lambda () V)))", "(type-of (funcall (lambda (x) x) V))",
					"(() (global g V) (type-of g))", "(() (var l V) (funcall (lambda () (type-of l))))", "(() (var l V) ((lambda () (setq l (list l)))) (type-of (car l)))", "(() (var c (make-instance t3 1 2)) (set-composite-value c V) (list c (type-of c) (composite-value c) (composite-function c)))",
					"(() (var c (make-instance t3 1 2)) (set-composite-function c V) (list c (type-of c) (composite-value c) (composite-function c)))", "(make-instance V 1 2)", "(composite-value V)", "(composite-function V)", "(set-composite-value V 1)", "(set-composite-function V 1)", "(symbol-string V)", "(list (= V ()) (= V 0) (= V false) (= V \"\"))", "V", "(list V V)"}) {
					std::string s;
					for (const char *p = e; *p; p++) s += *p == 'V' ? v : std::string(1, *p);
					a.cases.push_back("(() " + pre + s + ")");
					a.cases.push_back("(() " + pre + "(list 1 " + s + " co))");
				}
				for (auto &w : vals) {
					a.cases.push_back("(() " + pre + "(var x " + v + ") (var y " + w + ") (list (= (type-of x) (type-of y)) (type-of x) (type-of y)))");
					a.cases.push_back("(() " + pre + "(var x " + v + ") (var y " + w + ") (list (= x y) (= x x)))");
					a.cases.push_back("(() " + pre + "(= " + v + " " + w + "))");
					a.cases.push_back("(() " + pre + "(var c (make-instance t3 " + v + " " + w + ")) (list (= c c) c (composite-value c) (composite-function c)))");
					a.cases.push_back("(() " + pre + "(var c (make-instance t3 " + v + " " + w + ")) (list c (composite-value c) (composite-function c) (= (type-of c) t3)))");
				}
			}
			r.push_back(a);
			RefLists b{"user types", "sequences of up to 12 created types: all distinct from each other and from the built-in ones", {}};
			for (int n = 1; n <= 12; n++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
				std::string s = "(() ";
				for (int k = 0; k < n; k++) s += "(var t" + std::to_string(k) + " (make-type)) ";
				s += "(list (= t" + std::to_string(i) + " t" + std::to_string(j) + ") (= t" + std::to_string(i) + " (type-of " + vals[(i * n + j) % 12] + ")) (= (type-of (make-instance t" + std::to_string(i) + " 1 2)) t" + std::to_string(j) + ")))";
				b.cases.push_back(s);
			}
			r.push_back(b);
			RefLists c{"symbol names", "every pair of identifiers of length <= 2 over a small alphabet, compared and converted", {}};
			SV ids;
			std::string al = "ab-?1";
			for (char x : al) { if (x != '1' && x != '-') ids.push_back(std::string(1, x)); for (char y : al) if (x != '1' && !(x == '-' && y == '1')) ids.push_back(std::string({x, y})); }
			for (auto &x : ids) for (auto &y : ids) {
				c.cases.push_back("(() (var p '" + x + ") (list (= p '" + y + ") (= '(" + y + ") p) (symbol-string '" + y + ") p))");
				c.cases.push_back("(list (concatenate '" + x + " '" + y + ") (= (symbol-string '" + x + ") (symbol-string '" + y + ")))");
			}
			r.push_back(c);
			return r;
		});
}
