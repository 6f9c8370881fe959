// Macros, compile-time code and quoting, against the reference evaluator and against hand expansions.
#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
static std::string sub(const std::string &t, const std::map<char, std::string> &m) {
	std::string s;
	for (size_t i = 0; i < t.size(); i++) {
		auto it = t[i] == '$' && i + 1 < t.size() ? m.find(t[i + 1]) : m.end();
		if (it == m.end()) s += t[i];
		else s += it->second, i++;
	}
	return s;
}

// Macro bodies: every template, used in the same way.
static Family templates() {
	Family f = corpus::fam("macro templates");
	std::string use = " (emit (m x (emit 5))) (emit (m 1 (+ x 1))) (emit (h)) (list x y))", use1 = " (emit (m x (emit 5))) (emit (m)) (emit (m 1 (+ x 1) (setq x 9))) (emit (m (1 2))) (list x y))";
	f.g->rule("P", "(() (var x 3) (global y 4) (defun h () 9) (defmacro m (a b) {T})" + use, 0)
		.rule("P", "(() (var x 3) (global y 4) (defun h () 9) (defmacro m (&rest a) {V})" + use1, 0)
		.rule("T", "a", 0).rule("T", "{A}", 0)
		.rule("A", "b").rule("A", "'x").rule("A", "7").rule("A", "()").rule("A", "(list '+ {T} {T})").rule("A", "(list 'setq 'x {T})").rule("A", "(list 'quote {T})")
		.rule("A", "(car b)").rule("A", "(cdr b)").rule("A", "(cons 'list b)").rule("A", "(list () {T} {T})").rule("A", "(list 'emit {T})").rule("A", "(list 'noscope (list 'var 'x {T}))")
		.rule("A", "(list 'if {T} {T} {T})").rule("A", "(if (= a 1) {T} {T})").rule("A", "(if (= a 1) {T} (list 'm 1 {T}))").rule("A", "(list 'lambda () {T})").rule("A", "(list (list 'lambda () {T}))")
		.rule("A", "(list 'funcall (list 'lambda '(x) {T}) {T})").rule("A", "(list 'global 'y {T})").rule("A", "(list () (list 'defun 'h () {T}) '(h))").rule("A", "(if (= a 1) 2 (funcall self 1 {T}))").rule("A", "(list 'comptime {T})").rule("A", "((emit {T}) {T})")
		.rule("A", "(list 'while '(< x 4) (list 'setq 'x '(+ x 1)) {T})").rule("A", "(() (setq a {T}) {T})").rule("A", "(list 'list {T} {T})")
		.rule("V", "{W}", 0).rule("W", "a").rule("W", "(cons 'list {W})").rule("W", "(cons '+ {W})").rule("W", "(cons 'noscope {W})").rule("W", "(cons () {W})").rule("W", "(list 'quote {W})").rule("W", "(if a (list '+ (car a) (apply self (cdr a))) 0)")
		.rule("W", "(if a (list 'if (car a) (cons 'm (cdr a)) false) {W})").rule("W", "(if a (list '+ 1 (cons 'm (cdr a))) {W})").rule("W", "(car {W})").rule("W", "(cdr {W})").rule("W", "(list 'list {W} {W})").rule("W", "((emit {W}) {W})").rule("W", "(if {W} {W} {W})").rule("W", "(list 'apply 'list (list 'quote {W}))").rule("W", "(apply list {W})").rule("W", "'list").rule("W", "5");
	return f;
}
// Uses of a few macros in every context.
static Family macroUses() {
	Family f = corpus::fam("macro uses");
	f.g->rule("P", "(() (var x 3) (global y 4) (defmacro id (a) a) (defmacro q (&rest a) (list 'quote a)) (defmacro inc (v) (emit v) (list 'setq v (list '+ v 1))) (defmacro both (a b) (list () (list 'emit a) b)) (defmacro def (n v) (list 'noscope (list 'var n v))) {B} (list x y))", 0)
		.rule("B", "{S}", 0).rule("B", "{S} {B}", 0)
		.rule("S", "{U}", 0).rule("S", "(emit {E})").rule("S", "(setq x {E})").rule("S", "(() {B})").rule("S", "(emit (funcall (lambda () {E})))").rule("S", "(var x {E})").rule("S", "(def x {E})").rule("S", "(def z {E}) (emit z)").rule("S", "(var w (lambda (x) {E})) (emit (funcall w 5))")
		.rule("S", "(while (< x 5) {S} (inc x))").rule("S", "(defun k (y) {B} {E}) (emit (k 8))").rule("S", "(noscope {S})").rule("S", "(if {E} {U} {U})").rule("S", "(defun inc (v) (list v)) ").rule("S", "(defmacro id (a) (list 'list a)) ").rule("S", "(var id {E}) (emit id)")
		.rule("U", "(inc x)").rule("U", "(inc y)").rule("U", "(both {E} {E})").rule("U", "(id {U})").rule("U", "(id (var x {E}))")
		.rule("E", "x").rule("E", "y").rule("E", "1").rule("E", "(id {E})").rule("E", "(q {E})").rule("E", "{U}", 0).rule("E", "(+ {E} {E})").rule("E", "(emit {E})").rule("E", "(comptime (+ 1 (id 4)))").rule("E", "(id (id {E}))");
	return f;
}
// What happens when, and which environment it sees.
static Family phases() {
	Family f = corpus::fam("compile-time environments");
	f.g->rule("P", "{X}", 0).rule("P", "{X} ||| {X}", 1)
		.rule("X", "(() (var x 3) (global g 4) {B} (emit x) (comptime (emit g) ()) g)", 0)
		.rule("B", "{S}", 0).rule("B", "{S} {B}", 0)
		.rule("S", "(comptime {C})").rule("S", "(emit (comptime {C}))").rule("S", "(emit x)").rule("S", "(emit {E})").rule("S", "(setq x {E})").rule("S", "(() {B})").rule("S", "(global g {E})").rule("S", "(defun f () {S} x) (f)").rule("S", "(when (= x 3) {S})").rule("S", "(emit (m {Q}))").rule("S", "(m {Q})")
		.rule("S", "(defmacro m (a) (emit a) {M})").rule("S", "(noscope {S})")
		.rule("M", "x").rule("M", "(list '+ a 'x)").rule("M", "(setq x (+ x 1)) x").rule("M", "(list 'setq 'x a)").rule("M", "(global g (+ g 1)) g").rule("M", "(list 'comptime (list 'setq 'x a))")
		.rule("Q", "5").rule("Q", "x").rule("Q", "(comptime x)")
		.rule("C", "{D}", 0).rule("C", "{D} {C}", 0)
		.rule("D", "(var x 10)").rule("D", "(setq x 11)").rule("D", "(global g 12)").rule("D", "(emit x)").rule("D", "(emit g)").rule("D", "x").rule("D", "(defun f () (setq x (+ x 1)) x)").rule("D", "(f)").rule("D", "(comptime x)").rule("D", "(noscope (var x 20))").rule("D", "(() (var x 21) (emit x))").rule("D", "(fail)").rule("D", "(lambda () x)")
		.rule("E", "1").rule("E", "x").rule("E", "(comptime {D})").rule("E", "(+ x (comptime {D}))");
	return f;
}

struct Tree { std::string written, built; };
// Every datum of exactly n nodes.
static const std::vector<Tree> &data(int n, bool th) {
	static std::map<std::pair<int, bool>, std::vector<Tree>> memo;
	auto &r = memo[{n, th}];
	if (!r.empty()) return r;
	if (n == 1) {
		for (auto a : {"1", "-2", "2.5", "true", "\"s\"", "\"\""}) r.push_back({a, a});
		for (auto a : {"sym", "x", "quote", "&rest"}) r.push_back({a, std::string("(quote ") + a + ")"});
		if (th) for (auto a : {"-0.0", "9223372036854775807", "-129", "300", "false", "\"a\\\"b\"", "70000"}) r.push_back({a, a});
		r.push_back({"()", "()"});
		return r;
	}
	// a nonempty list of elements whose sizes sum up to n - 1
	std::function<void(int, std::string, std::string)> go = [&](int left, std::string w, std::string b) {
		if (!left) { r.push_back({"(" + w + ")", "(list" + b + ")"}); return; }
		for (int k = 1; k <= left; k++) for (auto &t : data(k, th)) go(left - k, w.empty() ? t.written : w + " " + t.written, b + " " + t.built);
	};
	go(n - 1, "", "");
	return r;
}

// "program ==> the same program after its macros were expanded by hand"
static Verdict expansion(const std::string &t) {
	size_t k = t.find(" ==> ");
	shim_cfg c = defaultCfg();
	c.memory = 4 << 20;
	c.ctObjects = c.vmObjects = 4000;
	SessionOutcome a = evalSession(g_v, c, t.substr(0, k)), b = evalSession(g_v, c, t.substr(k + 5));
	if (a.observable != b.observable) return bad("with macros: " + a.observable + "\nexpanded:    " + b.observable + "\n" + a.messages);
	return good(a.observable, 2);
}

static SV defs = {
	"(comptime (defun list* (&rest args) (if (null? (cdr args)) (car args) (cons (car args) (apply self (cdr args))))) ()) ",
	"(defmacro to (variable function &rest args) (var subform (list function variable)) (set-cdr (cdr subform) args) (list 'setq variable subform)) ",
	"(defmacro and (&rest args) (if args (list 'if (car args) (apply self (cdr args)) false) true)) ",
	"(defmacro or (&rest args) (if args ((var s (gensym)) (list (list 'var s (car args)) (list 'if s s (apply self (cdr args))))) false)) ",
	"(defmacro let1 (n v &rest body) (list* () (list 'var n v) body)) ",
	"(defmacro swap (a b) (var t (gensym)) (list () (list 'var t a) (list 'setq a b) (list 'setq b t))) ",
	"(defmacro declare-all (&rest names) (var forms ()) (while names (setq forms (cons (list 'var (car names) ()) forms)) (setq names (cdr names))) (cons 'noscope forms)) ",
	"(defmacro dotimes (v top &rest body) (var t (intern (concatenate \"top-\" (gensym)))) (list () (list 'var v 0) (list 'var t top) (list 'while (list '< v t) (list* 'noscope body) (list 'setq v (list '+ v 1))))) "};
static std::string allDefs() {
	std::string all;
	for (auto &x : defs) all += x;
	return all;
}
struct U { const char *use, *expanded; };
static std::vector<U> uses = {
	{"(to x + 5)", "(setq x (+ x 5))"}, {"(to x list 1 2)", "(setq x (list x 1 2))"}, {"(to y + x)", "(setq y (+ y x))"},
	{"(and)", "true"}, {"(and x)", "(if x true false)"}, {"(and x y)", "(if x (if y true false) false)"}, {"(and x (emit y) false (emit x))", "(if x (if (emit y) (if false (if (emit x) true false) false) false) false)"},
	{"(or)", "false"}, {"(or x (emit y))", "((var s1 x) (if s1 s1 ((var s2 (emit y)) (if s2 s2 false))))"}, {"(or (emit false) (emit y))", "((var s1 (emit false)) (if s1 s1 ((var s2 (emit y)) (if s2 s2 false))))"},
	{"(let1 x y (emit x) (setq x 8) (+ x 1))", "(() (var x y) (emit x) (setq x 8) (+ x 1))"}, {"(let1 z (let1 x 1 (+ x y)) (+ z x))", "(() (var z (() (var x 1) (+ x y))) (+ z x))"},
	{"(swap x y)", "(() (var s1 x) (setq x y) (setq y s1))"}, {"(let1 t 1 (swap t x) (emit t) x)", "(() (var t 1) (() (var s1 t) (setq t x) (setq x s1)) (emit t) x)"},
	{"(dotimes i 3 (emit i))", "(() (var i 0) (var s1 3) (while (< i s1) (noscope (emit i)) (setq i (+ i 1))))"},
	{"(dotimes i 2 (dotimes j (+ i 1) (emit (list i j))))", "(() (var i 0) (var s1 2) (while (< i s1) (noscope (() (var j 0) (var s2 (+ i 1)) (while (< j s2) (noscope (emit (list i j))) (setq j (+ j 1))))) (setq i (+ i 1))))"},
	{"(dotimes i x (to y + i))", "(() (var i 0) (var s1 x) (while (< i s1) (noscope (setq y (+ y i))) (setq i (+ i 1))))"},
	{"(dotimes i 2 (setq fs (cons (lambda () i) fs)))", "(() (var i 0) (var s1 2) (while (< i s1) (noscope (setq fs (cons (lambda () i) fs))) (setq i (+ i 1))))"},
};
static SV ctx = {"$U", "(emit $U)", "(() $U (emit x))", "(emit (list 1 $U x))", "(defun h (x) $U) (emit (h 9))", "(emit (funcall (lambda (y) $U) 9))", "(if x $U $U)", "(if (emit x) (emit $U) $U)", "(while (< x 4) $U (setq x 4))", "(var w $U) (emit w)", "(emit (cons $U $U))", "(setq x $U)", "(when $U (emit 1))", "(unless $U (emit 1))", "(global q $U) (emit q)", "(emit (and $U $U))", "(let1 k $U (emit k))", "(emit (comptime (var x 3) (var y 4) (var fs ()) $U))", "(defun r (n) (if (= n 0) $U (self (- n 1)))) (emit (r 3))", "(emit (make-instance (make-type) $U 1))"};
static Space expansions() {
	SV cases;
	std::string fmt = allDefs() + "(var x 3) (var y 4) (var fs ()) ", end = " (list x y (if fs (funcall (car fs)) 0))";
	std::string lists = "(defmacro and (&rest args) (if args (list 'if (car args) (apply self (cdr args)) false) true)) (defmacro let1 (n v &rest body) (cons () (cons (list 'var n v) body))) (var x 3) (var y 4) (var fs ()) ";
	for (auto &c : ctx) for (auto &u : uses) cases.push_back(unquote("(() " + fmt + sub(c, {{'U', u.use}}) + end + ") ==> (() " + lists + sub(c, {{'U', u.expanded}}) + end + ")"));
	for (auto &u : uses) for (auto &w : uses) cases.push_back(unquote("(() " + fmt + "(emit " + u.use + ") (defun f (x) " + w.use + ") (emit (f y))" + end + ") ==> (() " + lists + "(emit " + u.expanded + ") (defun f (x) " + w.expanded + ") (emit (f y))" + end + ")"));
	return listSpace("hand expansions", "every use of the documented macros in every context, and every pair of uses, against the program written without them", cases, expansion);
}

int main(int argc, char **argv) {
	return refMain(argc, argv, "P13",
		[](bool th) {
			Family a = templates(), c = macroUses();
			a.bound(th ? 3000000 : 100000);
			c.bound(th ? 3000000 : 100000);
			Family b = phases();
			b.bound(th ? 3000000 : 150000);
			return std::vector<Family>{a, c, b};
		},
		[](bool th) {
			std::vector<RefLists> r;
			RefLists d{"data", "every datum of up to " + std::to_string(th ? 5 : 4) + " nodes: quoted, through a macro, from comptime, built by list, compared with each other", {}};
			for (int n = 1; n <= (th ? 5 : 4); n++) {
				if (th && n == 5) { for (auto &t : data(5, false)) d.cases.push_back("(() (defmacro q (a) (list 'quote a)) (list (quote " + t.written + ") (q " + t.written + ") (comptime (quote " + t.written + ")) " + t.built + "))"); break; }
				for (auto &t : data(n, th)) {
					d.cases.push_back("(() (defmacro q (a) (list 'quote a)) (list (quote " + t.written + ") (q " + t.written + ") (comptime (quote " + t.written + ")) " + t.built + "))");
					if (n <= 3) {
						d.cases.push_back("(() (defmacro q (a) (list 'quote (list a a))) (defun f () (q " + t.written + ")) (var l (f)) (list l (f) (= (car l) (car (cdr l))) (= l (f)) (comptime " + t.built + ") (comptime (car (list " + t.built + ")))))");
						d.cases.push_back("(() (defmacro id (a) a) (global x 3) (global sym 4) (comptime (global x 5) (global sym 6)) (list (id " + t.written + ") (comptime (id " + t.written + "))))");
						d.cases.push_back("(() (defmacro q (&rest a) (emit a) (list 'quote a)) (list (q " + t.written + ") (q 1 " + t.written + ") (q " + t.written + " " + t.written + ")))");
						d.cases.push_back("(() (defun f () (var l (quote " + t.written + ")) l) (list (f) (f)))");
					}
				}
			}
			r.push_back(d);

			// The documented macros in every context.
			RefLists e{"documented macros", "the documented macros: every use x every context, and every pair of uses", {}};
			std::string fmt = allDefs() + "(var x 3) (var y 4) (var fs ()) ", end = " (list x y (if fs (funcall (car fs)) 0))";
			for (auto &u : uses) {
				for (auto &c : ctx) e.cases.push_back("(() " + fmt + sub(c, {{'U', u.use}}) + end + ")");
				for (auto &w : uses) e.cases.push_back("(() " + fmt + "(emit " + u.use + ") (emit " + w.use + ")" + end + ")");
			}
			for (auto &c : ctx) for (auto u : {"(declare-all a b c) (setq b 3)", "(declare-all x)"}) e.cases.push_back("(() " + fmt + "(() " + u + " (emit (list x y)) " + sub(c, {{'U', "(list x y)"}}) + ")" + end + ")");
			r.push_back(e);

			// Where a macro's name is visible and what hides it.
			RefLists s{"macro scope", "sequences of up to 3 definitions of one name (macro, other macro, function, variable, parameter, global) in nested scopes, called, read and passed after each one", {}};
			SV bind = {"(defmacro m (a) (list '+ a 1))", "(defmacro m (a) (list '* a 5))", "(defun m (a) (list a))", "(var m (lambda (a) (cons a 7)))", "(global m (lambda (a) (cons 8 a)))", "(defmacro m (&rest a) (cons 'list a))", "(defmacro m () 1)", "(comptime (defun m (a) 6) ())", "(comptime (var m 3) ())", "(comptime (defun k () (m 2)) ())", "(defmacro k () (m 4))", "(defmacro k () (list 'm 4))", "(defmacro k () (funcall m 4))", "(defun k () (m 4))"};
			SV see = {"(emit (m 2))", "(emit (funcall m 2))", "(emit (comptime (m 2)))", "(emit (comptime (funcall m 2)))", "(emit (k))", "(emit (comptime (k)))"};
			SV shape = {"$A $B $V", "(() $A $V) $W", "$A (() $B $V) $W", "$A ((lambda (m) $V) 3)", "$A (defun z (m) $B $V) (z 4)", "$A (noscope $B $V) $W", "$A (if true (() $B $V) 0) $W", "(() $A (global q (lambda () $V))) (funcall q)", "(() $A) $B $V", "$A (while (< i 1) $B $V (setq i 1)) $W"};
			for (auto &A : bind) for (auto &B : bind) for (auto &V : see) for (auto &c : shape) for (auto &W : see) {
				if (c.find("$W") == std::string::npos && &W != &see[0]) continue;
				if (c.find("$B") == std::string::npos && &B != &bind[0]) continue;
				if (!th && c.find("$W") != std::string::npos && &W > &see[2]) continue;
				s.cases.push_back("(() (var i 0) " + sub(c, {{'A', A}, {'B', B}, {'V', V}, {'W', W}}) + " 0)");
			}
			r.push_back(s);

			// Every keyword hidden by a macro which expands to its alias.
			RefLists k{"keywords", "every keyword redefined as a macro which expands to its documented alias, and the alias used directly", {}};
			struct K { const char *kw, *use; };
			for (K q : std::initializer_list<K>{{"var", "(() (K z 5) z)"}, {"global", "(() (K zz 5) zz)"}, {"setq", "(K x 5)"}, {"if", "(K x 1 2)"}, {"when", "(K x 1 2)"}, {"unless", "(K x 1 2)"}, {"while", "(K (< x 5) (setq x (+ x 1)))"}, {"defun", "(() (K f (a) (+ a x)) (f 1))"}, {"lambda", "(funcall (K (a) (+ a x)) 2)"}, {"noscope", "(() (K (var x 6)) x)"}, {"comptime", "(K (+ 1 2))"}, {"quote", "(K (1 b))"}, {"funcall", "(K (lambda (a) (+ a x)) 2)"}, {"apply", "(K (lambda (&rest a) a) 2 (list 3 4))"},
				{"+", "(K x 2)"}, {"-", "(K x 2)"}, {"*", "(K x 2)"}, {"/", "(K x 2)"}, {"=", "(K x 3)"}, {"<", "(K x 2)"}, {">", "(K x 2)"}, {"not", "(K x)"}, {"cons", "(K x 2)"}, {"list", "(K x 2 3)"}, {"vector", "(K x 2 3)"}, {"make-vector", "(K 2 x)"}, {"get-vector-element", "(K v 1)"}, {"set-vector-element", "(K v 1 9)"}, {"car", "(K v)"}, {"cdr", "(K v)"}, {"set-car", "(K v 7)"}, {"set-cdr", "(K v ())"}, {"null?", "(K v)"}, {"type-of", "(K v)"}, {"make-type", "(null? (K))"}, {"make-instance", "(composite-value (K t 1 2))"}, {"composite-value", "(K c)"}, {"composite-function", "(K c)"}, {"set-composite-value", "(() (K c 7) (composite-value c))"}, {"set-composite-function", "(() (K c 7) (composite-function c))"}, {"make-string", "(K '(104 105))"}, {"concatenate", "(K \"ab\" 'cd)"}, {"substring", "(K \"abcd\" 1 3)"}, {"length", "(K v)"}, {"symbol-string", "(K 'foo)"}}) {
				std::string kw = q.kw, use = q.use;
				auto with = [&](const std::string &n) { std::string o; for (size_t i = 0; i < use.size(); i++) { if (use[i] == 'K') o += n; else o += use[i]; } return o; };
				std::string pre = "(var x 3) (var v (vector 1 2 3)) (var t (make-type)) (var c (make-instance t 1 2)) ";
				for (auto &m : SV{"(defmacro " + kw + " (&rest args) (cons '__" + kw + " args)) ", "(defmacro " + kw + " (&rest args) (emit args) (cons '__" + kw + " args)) ", "(defmacro " + kw + " (&rest args) (emit 1) (cons '__" + kw + " args)) "}) {
					if (kw == "cons" || kw == "quote") continue; // their own bodies use them
					k.cases.push_back("(() " + pre + m + "(list (emit " + with(kw) + ") x))");
					k.cases.push_back("(() " + pre + "(() " + m + "(emit " + with(kw) + ")) (list " + with(kw) + " x))");
					k.cases.push_back("(() " + pre + m + "(() (emit " + with("__" + kw) + ")) (list " + with(kw) + " x))");
				}
				k.cases.push_back("(() " + pre + "(list (emit " + with("__" + kw) + ") x v))");
				k.cases.push_back("(() " + pre + "(list (emit " + with(kw) + ") x v))");
				k.cases.push_back("(() " + pre + "(defun " + kw + " (&rest args) 77) (list (emit " + with("__" + kw) + ") (emit " + with(kw) + ") x v))");
				k.cases.push_back("(() " + pre + "(var " + kw + " 78) (list (emit " + with(kw) + ") x v " + kw + "))");
				k.cases.push_back("(() " + pre + "(list '" + kw + " '__" + kw + " (symbol-string '" + kw + ")))");
			}
			r.push_back(k);

			// gensym, intern, read
			RefLists g{"gensym, intern and read", "compositions of the three compile-time helpers", {}};
			SV texts = {"1", "-5", "2.5", "true", "\\\"s\\\"", "sym", "()", "(a b)", "(1 (2 (3)) \\\"x\\\" 2.5)", "(+ 1 2)", "( )", "", "(", ")", "\\\"", "1 2", "; c", "(a . b)", " x ", "(()(+ x 1))", "quote", "-", "0x1F", "1e", "((((((1))))))", "(quote (1 2))", "; c\\n 7", "\\\"a\\\\nb\\\"", "99999999999999999999"};
			for (auto &t : texts) {
				std::string q = "\"" + t + "\"";
				g.cases.push_back("(comptime (car (read " + q + " false)))");
				g.cases.push_back("(comptime (null? (cdr (read " + q + " false))))");
				g.cases.push_back("(comptime (= 0 (cdr (read " + q + " false))))");
				g.cases.push_back("(() (defmacro r (s) (car (read s false))) (var x 4) (r " + q + "))");
				g.cases.push_back("(() (defmacro r (s) (list 'quote (car (read s false)))) (r " + q + "))");
				g.cases.push_back("(() (defmacro r! (s) (var ast (read s false)) (if (= 0 (cdr ast)) (car ast) (list 'quote 'error))) (var x 4) (list (r! " + q + ") (r! \"x\")))");
				g.cases.push_back("(comptime (list (intern " + q + ") (symbol-string (intern " + q + ")) (= (intern " + q + ") (intern " + q + "))))");
				g.cases.push_back("(comptime (= (intern " + q + ") 'sym))");
				for (auto &u : texts) g.cases.push_back("(comptime (list (= (intern " + q + ") (intern \"" + u + "\")) (= 'a (intern (concatenate " + q + " \"" + u + "\")))))");
				g.cases.push_back("(comptime (var l ()) (var i 0) (while (< i 3) (setq l (cons (car (read " + q + " false)) l)) (gc) (setq i (+ i 1))) l)");
			}
			for (auto t : {"(comptime (gensym))", "(comptime (list (gensym) (gensym)))", "(comptime (= (gensym) (gensym)))", "(comptime (var g (gensym)) (list g g (= g g)))", "(() (defmacro qg () (list 'quote (gensym))) (var a (qg)) (var b (qg)) (list (= a a) (= a b) (= a (qg)) a b))", "(() (defmacro qn (n) (list 'quote (intern (concatenate n (gensym))))) (list (qn \"Fred-\") (= (qn \"a\") (qn \"a\"))))", "(() (var a (comptime (gensym))) 1)", "(comptime (length (symbol-string (gensym))))", "(() (defmacro m () (var s (gensym)) (list () (list 'var s 5) (list '+ s s))) (m))", "(() (defmacro m (f) (var s (gensym)) (list () (list 'var s 5) (list '+ s f))) (m (m (m 1))))", "(() (defmacro fresh () (var s (gensym)) (list 'noscope (list 'var s 5) (list 'emit s))) (fresh) (fresh) (list (fresh) 1))", "(gensym)", "(intern \"a\")", "(read \"a\" false)", "(comptime (gensym 1))", "(comptime (intern))", "(comptime (intern 5))", "(comptime (intern 'a))", "(comptime (read \"a\"))", "(comptime (read 5 false))", "(comptime (read \"a\" 1))", "(comptime gensym)", "(comptime (funcall gensym))", "(comptime (= (funcall intern \"a\") 'a))", "(comptime (apply intern (list \"zz\")))", "(comptime (gensym)) ||| (comptime (gensym))", "(comptime (global g (gensym)) ()) ||| (comptime (list g (gensym) (= g (gensym))))", "(comptime (global g (intern \"abc\")) ()) ||| (comptime (= g 'abc))", "(() (defmacro v (n) (list 'noscope (list 'var (intern n) 5))) (v \"q\") q)", "(() (defmacro v (n) (list 'defun (intern n) '(a) '(+ a 1))) (v \"q\") (q 2))", "(() (defmacro v (n) (list 'global (intern n) 5)) (v \"q\") q)"}) g.cases.push_back(t);
			r.push_back(g);

			// Results of compile-time code.
			RefLists t{"compile-time results", "every kind of value as the result of a comptime form and of a macro, used in every context", {}};
			SV vals = {"1", "0", "-129", "40000", "-9223372036854775807", "2.5", "-0.0", "true", "false", "\"\"", "\"abc\"", "(cdr \"abc\")", "(concatenate \"a\" \"b\")", "'s", "'+", "()", "'(1 2)", "(list 1 (list 2))", "(cons 1 2)", "(cons 1 (cons 2 3))", "(lambda () 1)", "emit", "(+ 1 2)", "(make-string '(104 105))", "(cdr '(1 2 3))", "(car '((1)))", "(* 2 2.5)", "(= 1 1)", "(list 's \"t\" 2.5 true ())", "(list 'quote 's)", "(list '+ 1 2)", "(make-instance (make-type) 1 2)", "(vector 1 2)", "(vector)", "(vector (list 1 's) (vector \"t\") ())", "(list 1 (vector 2 (list 3)) (cons 4 (vector)))", "(cdr (vector 1 2 3))", "(make-vector 3 's)", "(vector (lambda () 1))", "(() (var v (vector 1 2 3)) (var w (cdr (cdr v))) (set-cdr v ()) w)", "(gensym)", "(fail)", "(car 1)", "undefined-name"};
			for (auto &v : vals) {
				for (auto c : {"$C", "(list $C $C)", "(() (var z $C) (list z z))", "(() (global z $C) (list z z))", "(() (defun f () $C) (list (f) (f) (= (f) (f))))", "(if $C 1 2)", "(() (var z $C) (if z 1 2))", "(type-of $C)", "(emit $C)", "(= $C $C)", "(funcall (lambda (a) (list a)) $C)", "(list 1 (comptime $C) 2)", "(() $C 5)", "(() 5 $C)", "(while (< i 1) (setq i 1) $C)", "(() (emit 1) (emit $C) (emit 2))", "(vector $C 1)", "(cons $C $C)"})
					for (auto &C : SV{"(comptime " + v + ")", "(comptime (emit 5) " + v + ")", "(comptime (comptime " + v + "))", "(comptime (() " + v + "))"})
						t.cases.push_back("(() (var i 0) " + sub(c, {{'C', C}}) + ")");
				for (auto c : {"(m)", "(list (m) (m))", "(() (var z (m)) z)", "(emit (m))", "(type-of (m))", "(() (m) 5)", "(lambda () (m))", "(funcall (lambda () (m)))"})
					for (auto &M : SV{"(defmacro m () " + v + ")", "(defmacro m () (list 'quote " + v + "))", "(defmacro m () (emit 3) " + v + ")", "(defmacro m () (list 'comptime " + v + "))"})
						t.cases.push_back("(() (global s 50) " + M + " " + c + ")");
			}
			for (int n = 0; n <= 5; n++) { // arity of macros
				std::string args;
				for (int i = 0; i < n; i++) args += " " + std::to_string(i);
				for (auto &p : SV{"", "a", "a b", "a b c", "&rest r", "a &rest r", "a b &rest r"})
					for (auto c : {"(m$A)", "(emit (m$A))", "(comptime (m$A))", "(comptime (funcall m$A))", "(comptime (apply m (list$A)))", "(() (m$A) 1)", "(defun f () (m$A))"})
						t.cases.push_back("(() (defmacro m (" + p + ") (list 'list 9" + (p.find("a") == 0 ? " a" : "") + ")) " + sub(c, {{'A', args}}) + ")");
			}
			r.push_back(t);
			return r;
		},
		[](bool th, std::vector<Space> &out) { out.push_back(expansions()); });
}
