// Ill-typed and out-of-range operations: every operation x every tuple of arguments, in several operand positions; the
// operands are read back afterwards. Malformed special forms: no crash, and the session goes on.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
static Variant v2;

// The reference decides where it can; the machine must go on in any case.
static Verdict survives(const std::string &text) {
	std::string t = text + "|||(list 1 \"b\" (+ 2 3))";
	RefSession r = refSession(t);
	SessionOutcome o = evalSession(g_v, defaultCfg(), t);
	if (r.inDomain && o.observable != r.observable) return bad("reference: " + r.observable + " (" + r.why + ")\nobserved:  " + o.observable + "\n" + o.messages);
	std::string want = "=> (1 \"b\" 5) log[]";
	if (o.observable.size() < want.size() || o.observable.substr(o.observable.size() - want.size()) != want)
		return bad("the session does not go on\nobserved: " + o.observable + "\n" + o.messages);
	// The same session again gives the same.
	SessionOutcome p = evalSession(g_v, defaultCfg(), t);
	if (p.observable != o.observable) return bad("first run: " + o.observable + "\nsecond run: " + p.observable);
	// So does a build whose allocator hands out used memory, instead of the fresh memory of the instrumented build.
	p = evalSession(v2, defaultCfg(), t);
	if (p.observable != o.observable) return bad("observed: " + o.observable + "\nwith the portable allocator: " + p.observable);
	return good(o.observable, 3);
}

int main(int argc, char **argv) {
	SV vals = {"true", "false", "0", "1", "-1", "3", "9223372036854775807", "(- -9223372036854775807 1)", "0.0", "-2.5", "(/ 1.0 0)", "(/ 0.0 0)", "\"\"", "\"abc\"", "(cdr \"xyz\")", "()", "'(1 2 3)", "(cons 1 2)", "(cons (list 1) (vector 2 3))", "'(65 66)",
		"(vector)", "(vector 7 8 9)", "(vector 66 67)", "(cdr (vector 4 5 6))", "(cdr (vector 4))", "'sym", "emit", "(lambda (p) p)", "(lambda (&rest q) q)", "(type-of 1)", "(type-of (type-of ()))", "(make-type)", "(make-instance (make-type) (list 1 2) (lambda (p) 5))", "(make-instance (make-type) () ())"};
	SV small = {"false", "0", "2", "-1", "4000000000", "1.0", "\"\"", "\"abc\"", "()", "'(1 2 3)", "(vector)", "(vector 7 8 9)", "(cdr (vector 4 5 6))", "'sym", "(lambda (p) p)", "(make-type)", "(make-instance (make-type) (list 1 2) (lambda (p) 5))", "emit", "(type-of 2.0)", "3"};
	std::map<std::string, int> ops = {{"+", 2}, {"-", 2}, {"*", 2}, {"/", 2}, {"=", 2}, {"<", 2}, {">", 2}, {"not", 1}, {"null?", 1}, {"type-of", 1}, {"car", 1}, {"cdr", 1}, {"cons", 2}, {"set-car", 2}, {"set-cdr", 2}, {"length", 1}, {"concatenate", 2}, {"substring", 3},
		{"make-string", 1}, {"symbol-string", 1}, {"symbol-id", 1}, {"make-vector", 2}, {"get-vector-element", 2}, {"set-vector-element", 3}, {"make-instance", 3}, {"composite-value", 1}, {"composite-function", 1}, {"set-composite-value", 2}, {"set-composite-function", 2}, {"make-type", 0},
		{"if", 3}, {"funcall", 1}, {"funcall", 2}, {"apply", 2}, {"list", 3}, {"vector", 3}};
	CheckInfo c;
	c.property = "P19";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of a session: what the operation gave or that it was reported, and all operands afterwards";
	c.assumptions = {"the address sanitizer reports every access to foreign memory in the instrumented build"};
	c.setup = [](const std::string &lib) { g_v.load(lib, "default"); v2.load(lib, "portable-plain"); };
	c.spaces = [=](bool th) {
		std::vector<Space> s;
		auto refRun = [](const std::string &t) { return againstRef(g_v, defaultCfg(), t); };
		auto add = [&](const char *n, const char *b, SV cases, std::function<Verdict(const std::string &)> f) {
			for (auto &t : cases) t = unquote(t);
			s.push_back(listSpace(n, b, cases, f));
		};
		SV u, bin, ter, cnt, sf, seq;
		for (auto &o : ops) {
			std::string op = o.first;
			auto emitCases = [&](SV &out, SV a) {
				const char *nm[] = {"a", "b", "c"};
				std::string g, l, names, direct;
				for (size_t i = 0; i < a.size(); i++) {
					g += " (global " + std::string(nm[i]) + " " + a[i] + ")";
					l += " (var " + std::string(nm[i]) + " " + a[i] + ")";
					names += std::string(" ") + nm[i];
					direct += " " + a[i];
				}
				// operands in globals, read back in the next text
				out.push_back("(() (global z 9)" + g + " 0) ||| (() (emit 1) (setq z (" + op + names + ")) (emit 2)) ||| (list z" + names + ")");
				// locals between other locals
				out.push_back("(() (var y 5)" + l + " (var z (list 6)) (emit (" + op + names + ")) (list y" + names + " z))");
				// immediate operands
				out.push_back("(() (emit 1) (list (" + op + direct + ") 2))");
				// captured operands
				out.push_back("(()" + l + " (emit (funcall (lambda () (" + op + names + ")))) (list" + names + "))");
			};
			if (o.second == 1) for (auto &a : vals) emitCases(u, {a});
			if (o.second == 2) for (auto &a : vals) for (auto &b : vals) emitCases(bin, {a, b});
			if (o.second == 3) for (auto &a : th ? vals : small) for (auto &b : th ? vals : small) for (auto &d : th ? vals : small) {
				if (th) { emitCases(ter, {a, b, d}); continue; }
				ter.push_back("(() (var y 5) (var a " + a + ") (var b " + b + ") (var c " + d + ") (emit (" + op + " a b c)) (list y a b c))");
				ter.push_back("(() (emit 1) (list (" + op + " " + a + " " + b + " " + d + ") 2))");
			}
			// number of operands
			for (int n = 0; n <= 5; n++) for (auto &x : {"x", "5", "(emit 3)", "\"s\"", "'(1 2)"}) {
				std::string as;
				for (int i = 0; i < n; i++) as += std::string(" ") + x;
				cnt.push_back("(() (var x 5) (emit 1) (list (" + op + as + ") x))");
				cnt.push_back("(() (var x 5) (emit 1) (" + op + as + ") x)");
			}
		}
		add("one operand", "every unary operation x every value x 4 operand positions", u, refRun);
		add("two operands", "every binary operation x every pair of values x 4 operand positions", bin, refRun);
		add("three operands", "every ternary operation x every triple of values", ter, refRun);
		add("operand counts", "every operation x 0..5 operands", cnt, survives);
		// Special forms with operands of every shape.
		SV heads = {"var", "global", "setq", "if", "when", "unless", "while", "lambda", "defun", "defmacro", "noscope", "comptime", "quote", "apply", "funcall", "declare", "nop", "self", "x", "()", "5", "\"s\"", "(x)", "((lambda () 1))", "2.5", "true", "undefined", "emit"};
		SV shapes = {"x", "y", "5", "\"s\"", "()", "(x)", "(&rest)", "(x &rest)", "(x &rest y)", "(&rest x y)", "(x x)", "(5)", "((x))", "false", "1.5", "emit", "if", "(lambda (x) x)", "nosuch", "(+ x 1)", "self"};
		for (auto &h : heads) {
			if (h == "while") continue; // below: with conditions that end
			sf.push_back("(() (var x 1) (" + h + "))");
			sf.push_back("(" + h + ")");
			for (auto &a : shapes) {
				sf.push_back("(() (var x 1) (" + h + " " + a + "))");
				sf.push_back("(" + h + " " + a + ")");
				sf.push_back("(() (var x 1) (list (" + h + " " + a + ") x))");
				for (auto &b : shapes) {
					sf.push_back("(() (var x 1) (" + h + " " + a + " " + b + "))");
					sf.push_back("(() (var x 1) (list (" + h + " " + a + " " + b + ") x))");
					if (th || h == "defun" || h == "defmacro" || h == "lambda" || h == "declare") for (auto &d : shapes) {
						sf.push_back("(() (var x 1) (" + h + " " + a + " " + b + " " + d + "))");
						sf.push_back("(" + h + " " + a + " " + b + " " + d + ")");
					}
				}
			}
		}
		for (auto &a : SV{"false", "()", "0", "(< x 1)", "\"\"", "(nosuch)", "(setq x ())", "(type-of 1)"}) for (auto &b : shapes) {
			sf.push_back("(() (var x 1) (while " + a + " " + b + "))");
			sf.push_back("(() (var x 1) (while " + a + " " + b + ") x)");
			sf.push_back("(() (var x 1) (list (while " + a + " " + b + ")))");
			sf.push_back("(() (var x 1) (while " + a + "))");
		}
		sf.push_back("(while)");
		add("special forms", "every special form x every tuple of 0..2 (definitions: 3) operands of every shape; the session goes on", sf, survives);
		// Names whose value is not what the compiler expects; strings of failing operations.
		SV names = {"emit", "gc", "call1", "fail", "f", "g", "undefined-name"};
		for (auto &n : names) for (auto &v : vals) for (auto &use : {"(N)", "(N 1)", "(N 1 2)", "(funcall N 1)", "(apply N '(1))", "(list N)"}) {
			std::string us;
			for (const char *p = use; *p; p++) us += *p == 'N' ? n : std::string(1, *p);
			seq.push_back("(() (defun f (x) x) (defun g () 5) (global " + n + " " + v + ") (emit 1) " + us + ")");
			seq.push_back("(global " + n + " " + v + ") ||| (() (emit 1) " + us + ")");
			seq.push_back("(() (global f (lambda (x) x)) (global g (lambda () 5))) ||| (setq " + n + " " + v + ") ||| (() (list 1 " + us + "))");
			seq.push_back("(() (setq " + n + " " + v + ") (list 1 " + us + "))");
		}
		add("rebound names", "every function or callback name x every value assigned to it x every way of calling it", seq, survives);
		SV more = {"(car A)", "(/ 1 A)", "(get-vector-element (vector 1 2) A)", "(funcall A)", "(+ A 1)", "(composite-value A)", "(nosuch A)", "(fail)", "(substring \"abc\" A 2)"};
		SV two;
		for (auto &a : more) for (auto &b : more) for (auto &x : vals) for (int k = 0; k < 3; k++) {
			auto put = [&](const std::string &m, const std::string &n) { std::string r; for (char ch : m) r += ch == 'A' ? n : std::string(1, ch); return r; };
			if (k == 0) two.push_back("(() (global l (list 1 2)) (global v (vector 3 4))) ||| (() (set-car l 8) " + put(a, x) + " (set-car l 9)) ||| (() (set-vector-element v 1 7) (funcall (lambda () (var q 5) " + put(b, x) + ")) (set-vector-element v 0 6)) ||| (list l v)");
			if (k == 1) two.push_back("(() (global l (list 1 2))) ||| (() (var w " + x + ") (global k (lambda () (list w l))) (set-cdr l w) (emit " + put(a, "w") + ") (list (cons " + put(b, "w") + " 5))) ||| l ||| (() k)");
			if (k == 2) two.push_back("(() (var l (list 1 2)) (defun f (n) (if (= n 0) " + put(a, x) + " (+ 1 (self (- n 1))))) (global h f) (emit l) (f 3)) ||| (() (emit (h 0))) ||| (() " + put(b, x) + ")");
		}
		add("failures in sequence", "every pair of operations x every value, failing at various depths, with the effects before the failure read back", two, refRun);
		return s;
	};
	return runCheck(argc, argv, c);
}
