// Control flow and evaluation order, against the reference evaluator.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
static const SV VALUES = {"()", "true", "false", "0", "1", "-1", "256", "65536", "4294967296", "0.0", "-0.0", "0.5", "-2.0", "\"\"", "\"a\"", "\"\\0\"",
	"'s", "'()", "'(1)", "(list)", "(list 0)", "(vector)", "(vector 0)", "(cdr (vector 1))", "(cdr \"a\")", "(cdr '(1))", "(cdr \"ab\")", "(cons () ())",
	"(lambda () 1)", "(make-type)", "(make-instance (make-type) 1 2)", "(type-of 1)", "(not 1)", "(= 1 1)", "(= 1 2)", "(< 1 2)", "(quote false)", "(quote 0)",
	"(() (var k (vector 5)) (set-cdr k ()) k)", "(substring \"abc\" 1 1)", "(concatenate \"\" \"\")", "(make-string ())", "(if true () 5)", "(when false 1)", "(while false 1)",
	"(() 5 ())", "(() () 5)"};
int main(int argc, char **argv) {
	return refMain(argc, argv, "P07",
		[](bool th) {
			Family a = corpus::branches();
			a.bound(th ? 4000000 : 100000);
			Family b = corpus::branchLoops();
			b.bound(th ? 4000000 : 100000);
			return std::vector<Family>{a, b};
		},
		[](bool th) {
			std::vector<RefLists> r;
			// A condition of every value, in every position which a condition's value can come from.
			RefLists a{"truth", "every value of " + std::to_string(VALUES.size()) + " x every branching form x every kind of operand", {}};
			SV forms = {"(if C (emit 1) (emit 2))", "(when C (emit 1) (emit 2))", "(unless C (emit 1) (emit 2))", "(() (var n 2) (while (if (= n 0) () C) (emit n) (setq n (- n 1))) n)",
				"(list (if C 1 2) (when C 3) (unless C 4) 5)", "(if C 1 ())", "(if (not C) (emit 1) (emit 2))", "(if (if C true false) (emit 1) (emit 2))", "(if (null? C) (emit 1) (emit 2))",
				"(() (when C (var q 9) (emit q)) (unless C (var q 8) (emit q)) 6)", "(if C (if C 1 2) (if C 3 4))", "(() (if C (emit 1) (emit 2)) (if C (emit 3) (emit 4)) 0)",
				"(when C)", "(unless C)", "(if C 1)", "(if C 1 2 3)", "(while C)", "(if)", "(when)", "(() (var n 2) (while C (emit n)) 5)",
				"(+ 1 (if C 10 20))", "(emit (when C (emit 1)))", "(if (emit C) (emit 1) (emit 2))", "(when (emit C) 7)", "(unless (emit C) 7)", "(if (() (emit 3) C) 1 2)"};
			for (auto &v : VALUES) for (auto &f : forms) for (int p = 0; p < 5; p++) {
				auto sub = [&](const std::string &w) {
					std::string o;
					for (size_t i = 0; i < f.size(); i++) o += f[i] == 'C' ? w : std::string(1, f[i]);
					return o;
				};
				switch (p) {
				case 0: a.cases.push_back("(() " + sub(v) + ")"); break;
				case 1: a.cases.push_back("(() (var v " + v + ") " + sub("v") + ")"); break;
				case 2: a.cases.push_back("(() (var v " + v + ") (funcall (lambda () " + sub("v") + ")))"); break;
				case 3: a.cases.push_back("(() (global v " + v + ") " + sub("v") + ")"); break;
				case 4: a.cases.push_back("(() (defun h () " + v + ") (list " + sub("(h)") + " 77))"); break;
				}
			}
			r.push_back(a);
			// Order and number of evaluations of every form's operands.
			RefLists b{"evaluation order", "every form x every tuple of operand kinds (effect, constant, local, upvalue, global) in every context", {}};
			SV ops = {"(+ A B)", "(- A B)", "(* A B)", "(= A B)", "(< A B)", "(> A B)", "(cons A B)", "(list A B)", "(list A B C)", "(vector A B)", "(vector A B C)", "(make-vector 2 A)", "(make-vector A B)",
				"(h A B)", "(funcall h A B)", "(funcall k A B)", "(apply h A (list B))", "(apply k (list A B))", "(v A B C)", "(gh A B)", "(funcall gh A B)", "(call1 (() A (lambda (x) x)) B)", "(if A B C)", "(when A B C)",
				"(unless A B C)", "(() A B C)", "(setq s A)", "(not A)", "(make-instance t A B)", "(set-composite-value (() A c) B)", "(set-composite-function (() A c) B)", "(set-car (() A l) B)", "(get-vector-element (() A w) 1)",
				"(set-vector-element (() A w) 1 B)", "(global gg A)", "(() (var q A) (var r B) (list q r))", "(- (+ A B) (* B C))", "(emit (+ A (emit B)))", "(substring \"abcdef\" A B)", "(concatenate (() A \"x\") (() B \"y\"))",
				"(make-string (list A B))", "((lambda (x y) (list x y)) A B)", "(() (defun z (x y) (- x y)) (z A (z B C)))", "(type-of A)", "(null? A)", "(emit A)", "(length (list A B))",
				"(while (< (setq s (+ s A)) 9) B)", "(car (cons A B))", "(cdr (cons A B))", "(noscope A B)", "(quote A)"};
			SV kinds = {"(emit 1)", "2", "s", "(() (emit 3) 4)", "u", "gl"};
			for (auto &o : ops) for (auto &x : kinds) for (auto &y : kinds) for (auto &z : {kinds[0], kinds[1], kinds[4]}) {
				bool hasB = o.find('B') != std::string::npos, hasC = o.find('C') != std::string::npos;
				if (!hasB && y != kinds[0]) continue;
				if (!hasC && z != kinds[0]) continue;
				std::string f;
				for (char c : o) f += c == 'A' ? x : c == 'B' ? y : c == 'C' ? z : std::string(1, c);
				std::string pre = "(var h (lambda (x y) (list x y))) (defun h (x y) (list x y)) (var k (lambda (x y) (- x y))) (defun v (x &rest y) (list x y)) (var t (make-type)) (var c (make-instance t 1 2)) (var l (list 1 2)) (var w (vector 1 2 3)) (var s 5) ";
				for (int ctx = 0; ctx < 4; ctx++) {
					std::string g = ctx == 0 ? f : ctx == 1 ? "(list 10 " + f + " 11)" : ctx == 2 ? f + " s" : "(+ 100 (if true (() " + f + " 1) 2))";
					b.cases.push_back("(() (var u 6) (global gl 7) (global gh (lambda (x y) (list y x))) (funcall (lambda () " + pre + g + ")))");
				}
			}
			r.push_back(b);
			// Every form's value when its branch or body is empty-valued, nested in every form: balance of the operand stack.
			RefLists c{"values of forms in operand position", "every form x every form as its operand, three deep", {}};
			SV wrap = {"(if X 1 2)", "(if c X 2)", "(if d 1 X)", "(when c X)", "(unless d X)", "(when X 1)", "(unless X 1)", "(() (var p X) p)", "(() X)", "(setq e X)", "(list X)", "(funcall (lambda () X))", "(funcall (lambda (q) (if q q X)) X)",
				"(while X (setq c ()))", "(emit X)", "(not X)", "((lambda () 1 X))", "(() (global z X) z)", "(noscope X)", "(cons X X)", "(vector X)"};
			SV leaf = {"c", "d", "()", "1", "e", "(emit 3)", "\"\""};
			auto put = [](const std::string &w, const std::string &x) {
				std::string o;
				for (char ch : w) o += ch == 'X' ? x : std::string(1, ch);
				return o;
			};
			for (auto &w1 : wrap) for (auto &w2 : wrap) for (auto &w3 : wrap) for (auto &l : leaf) {
				if (!th && w3 == w2) continue;
				std::string q = put(w1, put(w2, put(w3, l)));
				if (q.size() > 400) continue;
				c.cases.push_back("(() (var c 8) (var d ()) (var e 9) (list 50 " + q + " c d e))");
			}
			r.push_back(c);
			return r;
		});
}
