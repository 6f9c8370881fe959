// Sequences: histories of list, vector and string operations over shared structure, against the reference heap.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
int main(int argc, char **argv) {
	return refMain(argc, argv, "P10",
		[](bool th) {
			Family a = corpus::listHistories();
			a.bound(th ? 3000000 : 70000);
			Family b = corpus::vectorHistories();
			b.bound(th ? 3000000 : 70000);
			Family c = corpus::stringHistories();
			c.bound(th ? 3000000 : 70000);
			Family d = corpus::mixedNesting();
			d.bound(th ? 2000000 : 150000);
			return std::vector<Family>{a, b, c, d};
		},
		[](bool th) {
			std::vector<RefLists> r;
			RefLists a{"string functions", "every pair of strings of length <= 3 (from both ends of a longer one too) x every index pair", {}};
			SV strs = {"\"\"", "\"a\"", "\"ab\"", "\"abc\"", "\"b\"", "\"abd\"", "(cdr \"xabc\")", "(cdr (cdr \"xyab\"))", "(cdr \"x\")", "(cdr \"\")", "(substring \"xabcx\" 1 4)", "(cdr (substring \"xxabx\" 1 4))", "(concatenate \"a\" (cdr \"xbc\"))",
				"(symbol-string 'ab)", "(make-string '(97 98))", "(make-string (cdr (vector 1 97 98)))", "(make-string ())", "(make-string (vector))", "\"\\0\\n\"", "(make-string '(97 353))", "'ab", "'b"};
			for (auto &s : strs) {
				for (auto &t : strs) {
					a.cases.push_back("(() (var s " + s + ") (var t " + t + ") (list (= s t) (concatenate s t) (length (concatenate s t)) (= (concatenate s t) (concatenate t s)) s t))");
					a.cases.push_back("(() (list (= " + s + " " + t + ") (concatenate " + s + " " + t + ")))");
				}
				for (int i = -1; i <= 4; i++) for (int j = -1; j <= 4; j++)
					a.cases.push_back("(() (var s " + s + ") (var u (substring s " + std::to_string(i) + " " + std::to_string(j) + ")) (list u (length u) (null? u) (if u 1 2) (car u) (cdr u) s))");
				for (int i = -1; i <= 4; i++) {
					a.cases.push_back("(() (var s " + s + ") (list (get-vector-element s " + std::to_string(i) + ") s))");
				}
				a.cases.push_back("(() (var s " + s + ") (list (length s) (null? s) (if s 1 2) (car s) (cdr s) (cdr (cdr s)) (cdr (cdr (cdr s))) (length (cdr s)) s (type-of s)))");
				a.cases.push_back("(() (var s " + s + ") (var n 0) (while s (setq n (+ (* n 10) (car s))) (setq s (cdr s))) n)");
			}
			r.push_back(a);
			RefLists b{"vector functions", "every vector of length 0..4 at every offset x every index x every operation", {}};
			SV vecs;
			for (int n = 0; n <= 4; n++) {
				std::string v = "(vector";
				for (int i = 0; i < n; i++) v += " " + std::to_string(10 + i);
				v += ")";
				for (int off = 0; off <= n + 1; off++) {
					vecs.push_back(v);
					v = "(cdr " + v + ")";
				}
				vecs.push_back("(make-vector " + std::to_string(n) + " 'z)");
			}
			SV more = {"(vector ())", "(vector \"\" '(1))", "(make-vector 3 (vector 1 2))", "(vector (vector) (vector 1))"};
			vecs.insert(vecs.end(), more.begin(), more.end());
			for (auto &v : vecs) {
				b.cases.push_back("(() (var v " + v + ") (list (length v) (null? v) (if v 1 2) (not v) (car v) (cdr v) (= v v) (= v (cdr v)) (type-of v)))");
				for (int i = -1; i <= 4; i++) {
					std::string I = std::to_string(i);
					b.cases.push_back("(() (var v " + v + ") (list (get-vector-element v " + I + ") v))");
					b.cases.push_back("(() (var v " + v + ") (var w v) (var x (cdr v)) (list (set-vector-element v " + I + " 99) v w x))");
					b.cases.push_back("(() (var v " + v + ") (var x (cdr v)) (set-vector-element x " + I + " v) (list (length v) (length x) (car x)))");
					b.cases.push_back("(() (var i " + I + ") (var v (make-vector i i)) (list v (length v)))");
				}
				b.cases.push_back("(() (var v " + v + ") (var w v) (var x (cdr v)) (list (set-car v 99) v w x))");
				b.cases.push_back("(() (var v " + v + ") (var w v) (var x (cdr v)) (var y (cdr x)) (emit (set-cdr v ())) (list v w x y (length v) (length x) (null? x) (null? y)))");
				b.cases.push_back("(() (var v " + v + ") (var w v) (var x (cdr v)) (var y (cdr x)) (emit (set-cdr x (vector))) (list v w x y (length v) (length x) (length y)))");
				b.cases.push_back("(() (var v " + v + ") (var l ()) (while v (setq l (cons (car v) l)) (setq v (cdr v))) l)");
				for (auto &w : vecs) b.cases.push_back("(() (var v " + v + ") (var w " + w + ") (list (= v w) (= w v) (= v v)))");
			}
			r.push_back(b);
			RefLists c{"lists", "every list literal, built and quoted, of length 0..5 x every operation; dotted and cyclic ones", {}};
			SV ls = {"()", "'()", "'(1)", "'(1 2 3)", "(list 1 2 3 4 5)", "(cons 1 2)", "(cons 1 (cons 2 3))", "(cons () ())", "'(() ())", "'((1) (2 (3)))", "'(\"a\" b 2.5 true)", "(cons 1 \"s\")", "(cons 1 (vector 2))", "(list (list))", "'(quote a)", "''a", "(cons 'a 'b)"};
			for (auto &l : ls) {
				for (auto &e : {"(length l)", "(car l)", "(cdr l)", "(null? l)", "(if l 1 2)", "(car (cdr l))", "(cdr (cdr l))", "(set-car l 9)", "(set-cdr l 9)", "(set-cdr l ())", "(set-cdr l l)", "(set-car l l)", "(make-string l)", "(apply list2 l)", "(= l l)", "(= l (cdr l))", "(= l ())", "(cons l l)", "(type-of l)", "(set-cdr l (cdr (cdr l)))", "(not l)",
					"(length (cons 1 l))", "(length (cdr l))", "(get-vector-element l 0)", "(concatenate l l)"})
					c.cases.push_back("(() (var l " + l + ") (var m l) (var x " + e + ") (list x (null? m) (= l m)))"),
					c.cases.push_back("(() (var l " + l + ") (var m l) (var x " + e + ") (emit x) (emit m) l)");
				for (auto &m : ls) c.cases.push_back("(() (var l " + l + ") (var m " + m + ") (var x (= l m)) (list x (= m l) (cons l m) (set-cdr (cons 1 l) m)))");
			}
			r.push_back(c);
			RefLists d{"quoted data", "quoted literals are made anew at every evaluation or shared, but never corrupted: mutation through every alias", {}};
			for (auto &q : {"'(1 2)", "'((1) 2)", "\"str\"", "'(\"s\" t)"})
				for (auto &m : {"(set-car x 9)", "(set-cdr x ())", "(setq x (cdr x))", "(emit (length x))", "(emit (car x))"})
					for (auto &m2 : {"(set-car y 8)", "(set-cdr y x)", "(setq y x)", "(emit (cdr y))"})
						d.cases.push_back(std::string("(() (var x ") + q + ") (var y " + q + ") " + m + " " + m2 + " (list x y))");
			r.push_back(d);
			return r;
		});
}
