// Every instruction with operands on both sides of every width boundary, against the reference evaluator.
#include "../harness/diffmain.hpp"
static Variant v, plain;
// Programs with 65536 of something run without AddressSanitizer's allocator, which copies at every realloc: in a
// process of their own.
static std::string libdir;
static Verdict wide(const std::string &t) {
	int in = memfd_create("t", 0), out = memfd_create("r", 0);
	if (in < 0 || out < 0 || write(in, t.data(), t.size()) != (ssize_t) t.size()) exit(3);
	pid_t p = fork();
	if (!p) {
		dup2(in, 0);
		dup2(out, 1);
		lseek(0, 0, SEEK_SET);
		unsetenv("LD_PRELOAD");
		execl("/proc/self/exe", "P04", "--one", libdir.c_str(), (char *) 0);
		_exit(3);
	}
	int st = 0;
	waitpid(p, &st, 0);
	std::string r(lseek(out, 0, SEEK_END), 0);
	pread(out, &r[0], r.size(), 0);
	close(in);
	close(out);
	if (WIFSIGNALED(st)) return bad(WTERMSIG(st) == SIGALRM ? "does not terminate" : "crash (signal " + std::to_string(WTERMSIG(st)) + ")");
	if (r.empty()) return bad("crash");
	if (r[0] == 's') return skip();
	return r[0] == 'g' ? good(r) : bad(r.substr(1));
}
// A program with more arguments or parameters than a call can hold may be rejected when compiling.
static Verdict judge(Variant &v, const shim_cfg &c, const std::string &t, uint64_t limit) {
	RefSession r = refSession(t, limit);
	if (!r.inDomain) return skip();
	SessionOutcome o = evalSession(v, c, t);
	if (o.observable == r.observable) return good(o.observable);
	if (o.observable == "compile error log[]" && o.messages.find("Too many arguments") != std::string::npos) return good("rejected");
	auto cut = [](const std::string &s) { return s.size() < 700 ? s : s.substr(0, 300) + " ... " + s.substr(s.size() - 350); };
	return bad("reference: " + cut(r.observable) + (r.why.empty() ? "" : " (" + r.why + ")") + "\nobserved:  " + cut(o.observable) + "\n" + cut(o.messages));
}
static Verdict narrow(const std::string &t) {
	shim_cfg c = defaultCfg();
	c.vmObjects = 3000;
	c.ctObjects = 3000;
	return judge(v, c, t, 100000);
}
static int one(const char *lib) {
	std::string t;
	char b[65536];
	ssize_t n;
	while ((n = read(0, b, sizeof b)) > 0) t.append(b, n);
	alarm(100);
	plain.load(lib, "default-plain");
	shim_cfg c = defaultCfg();
	c.memory = 64 << 20;
	c.vmObjects = 300000;
	c.ctObjects = 300000;
	Verdict v = judge(plain, c, t, 3000000);
	std::string r = v.skipped ? "s" : v.ok ? "g" + std::to_string(v.sig) : "b" + v.detail;
	return write(1, r.data(), r.size()) == (ssize_t) r.size() ? 0 : 3;
}
// "@n;X;" repeats X n times, with # in X for the number of the repetition.
static std::string expand(const std::string &t) {
	std::string r;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != '@') { r += t[i]; continue; }
		size_t n = 0;
		for (i++; t[i] != ';'; i++) n = n * 10 + (t[i] - '0');
		size_t e = t.find(';', ++i);
		std::string x = t.substr(i, e - i);
		for (size_t k = 0; k < n; k++) for (char ch : x) { if (ch == '#') r += std::to_string(k); else r += ch; }
		i = e;
	}
	return r;
}

int main(int argc, char **argv) {
	if (argc == 3 && std::string(argv[1]) == "--one") return one(argv[2]);
	CheckInfo c;
	c.property = "P04";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of (program, padding) pairs";
	c.setup = [](const std::string &lib) { v.load(lib, "default"); libdir = lib; };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		// Every operation on locals at every distance. a, b, d, e are declared with K and L variables in between.
		SV ops = {"(+ x y)", "(- x y)", "(* x y)", "(/ x y)", "(= x y)", "(< x y)", "(> x y)", "(not x)", "(list x y)", "(cons x y)", "(vector x y)", "(make-vector 2 x)", "(make-vector x y)", "(setq x y)", "(setq x (+ x y))", "(if x y 1)", "(if (not x) y x)", "(when x y)", "(unless (= x y) y)", "(null? x)", "(type-of x)", "(emit x)", "(h x)", "(h y)", "(funcall f x y)", "(apply f l)", "(apply f x (list y))", "(funcall f x y)", "(funcall f y x)",
			"(car l)", "(cdr l)", "(set-car l x)", "(set-cdr l y)", "(car m)", "(length l)", "(get-vector-element w x)", "(get-vector-element w i)", "(set-vector-element w i x)", "(set-vector-element w 1 y)", "(set-vector-element w i l)", "(concatenate s q)", "(concatenate q s)", "(substring s i x)", "(substring s 0 i)", "(substring s i 2)", "(substring q i y)", "(length s)", "(symbol-string k)", "(make-string w2)", "(make-instance t x y)", "(make-instance t l f)", "(make-instance t x f)", "(composite-value o)", "(composite-function o)", "(set-composite-value o x)", "(set-composite-function o f)", "(funcall o x y)", "(funcall f (funcall f x y) y)", "(= (type-of o) t)",
			"(lambda () x)", "((lambda () (list x y)))", "(() (var g (lambda () (setq x (+ x 1)) (setq y x) (list x y))) (list (funcall g) x y))", "(() (var g (lambda () (lambda () (setq y (+ y 1)) (list x y)))) (funcall (funcall g)) (list x y))", "(() (var z x) (var g (lambda () (setq z (+ z y)) z)) (setq o g) (funcall g))", "(while (> x 0) (setq x (- x 1)) y)", "(while (() (var z x) (> z 0)) (setq x (- x 1)))", "(() (defun g (u) (if (> u 0) (list x (self (- u 1))) y)) (g 2))", "(() (var z y) z)", "(() (var z (list x y)) (setq x z) (z))", "(noscope (var z x) (var zz (lambda () z)))", "(() (noscope (var z x)) (list z y))", "(funcall (lambda (p &rest r) (list p x r y)) y x x)", "(call1 (lambda (p) (list p x y)) y)", "(call1 h l)", "(comptime 5)", "(quote (x y))", "(global gl x)", "(setq gl y)", "(= gl x)", "(+ gl y)", "(funcall f gl x)", "(funcall f x y x)", "(funcall f x)", "(car x)", "(set-car s x)", "(apply f x)", "(mac x y)", "(emit (mac y (mac x x)))",
			"x", "y", "l", "w", "(list (list x) (list y) (vector l w))", "(if (> x y) (() (var z x) (list z)) (() (var z y) (list z x)))"};
		std::string decl1 = "(() (defmacro mac (a b) (list 'list a b)) (var x 2) (var l (list 2 9)) (var w (vector 4 5 6)) (var s \"hello\") (var f (lambda (a b) (list b a))) (var t (make-type)) (var q \"w\") ";
		std::string decl2 = "(var y 3) (global gl 7) (global h (lambda (z) (list z))) (var i 1) (var k 'sym) (var m '((1) 2)) (var w2 (vector 65 66)) (var o (make-instance t 1 (lambda (a b) (list a b)))) ";
		auto prog = [&](const std::string &op, size_t K, size_t L) {
			return unquote(expand(decl1 + "@" + std::to_string(K) + ";(var p# #) ;" + decl2 + "@" + std::to_string(L) + ";(var r# #) ;(emit " + op + ") (list x y l w s q gl i" + (K ? " p0 p" + std::to_string(K - 1) : "") + "))"));
		};
		std::vector<size_t> Ks = {0}, Ls;
		for (size_t k = th ? 100 : 222; k <= 262; k++) Ls.push_back(k);
		if (th) for (size_t k = 220; k <= 262; k += 1) Ks.push_back(k);
		else for (size_t k : {231, 240}) Ks.push_back(k);
		SV dist;
		for (auto &op : ops) {
			for (auto K : Ks) for (auto L : th || !K ? Ls : std::vector<size_t>{0, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 245}) dist.push_back(prog(op, K, L));
			for (size_t K = 236; K <= 262; K++) { dist.push_back(prog(op, K, 0)); if (th) for (size_t L = 0; L <= 30; L++) dist.push_back(prog(op, K, L)); }
		}
		s.push_back(listSpace("operands around 255 slots away", std::to_string(ops.size()) + " operations x every distance of each operand", dist, narrow));
		SV far;
		for (auto &op : ops) for (size_t L : th ? std::vector<size_t>{65515, 65516, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 66000, 131073} : std::vector<size_t>{65600}) { far.push_back(prog(op, 0, L)); if (L != 131073) far.push_back(prog(op, L, th ? 10 : 0)); }
		// All operations in one program, every distance.
		if (!th) for (size_t L = 65512; L <= 65538; L++) {
			std::string all;
			for (auto &op : ops) if (op != "(funcall f x y x)" && op != "(funcall f x)" && op != "(car x)" && op.find("set-car s") == std::string::npos && op != "(apply f x)" && op != "(set-vector-element w i l)" && op != "(set-cdr l y)" && op.find("(setq x z)") == std::string::npos && op.find("(while") && op.find("(noscope") && op.find("(setq o g)") == std::string::npos && op != "(make-vector x y)")
				all += (all.empty() ? "" : ") (emit ") + ("(() (setq x 2) (setq y 3) " + op + ")");
			far.push_back(prog(all, 0, L));
		}
		s.push_back(listSpace("operands around 65535 slots away", "every operation beyond, and all of them at every distance", far, wide));
		s.back().timeout = 120;
		// Counts and lengths. N; N1 and N2 stand for n, n - 1 and n - 2.
		SV cnt = {"(list @N;# ;)", "(length (list @N;# ;))", "(vector @N;# ;)", "(length (vector @N;# ;))", "(length \"@N;x;\")", "(substring \"@N;x;yz\" N1 N)", "(concatenate \"@N;x;\" \"@N;y;\")", "(quote (@N;# ;))", "(quote s@N;x;)", "(= (quote s@N;x;) (quote s@N;x;))", "(symbol-string (quote s@N;x;))", "(length (make-vector N 1))", "(get-vector-element (make-vector N 1) N1)", "(() (var v (make-vector N 1)) (set-vector-element v N1 7) (list (get-vector-element v N1) (get-vector-element v N2)))",
			"(funcall (lambda (&rest r) r) @N;# ;)", "(funcall (lambda (a &rest r) (list a r)) @N;# ;)", "(() (defun f (&rest r) r) (f @N;# ;))", "(() (defun f (a &rest r) (list a (length r))) (f @N;# ;))", "(() (global f (lambda (&rest r) r)) (f @N;# ;))", "(apply (lambda (&rest r) r) (list @N;# ;))", "(apply (lambda (&rest r) r) @N;# ; (list 1))", "(apply (lambda (a &rest r) (list a (length r))) (vector @N;# ;))",
			"(funcall (lambda (@N;a# ;) (list a0 aN1)) @N;# ;)", "(() (defun f (@N;a# ;) (list a0 aN1)) (f @N;# ;))", "(() (defun f (@N;a# ; &rest r) (list a0 aN1 r)) (f @N;# ; 7 8))", "(apply (lambda (@N;a# ;) (list a0 aN1)) (list @N;# ;))", "(funcall (lambda (@N;a# ;) 1) @N1;# ;)", "(funcall (lambda (@N1;a# ;) 1) @N;# ;)", "(funcall (lambda (@N;a# ; &rest r) 1) @N1;# ;)",
			"(call1 (lambda (@N;a# ;) 1) 2)", "(funcall (lambda () 1) @N;# ;)", "(funcall (lambda (a) 1) 5 @N;# ;)", "(() (defun f (a) a) (f 5 @N;# ;))", "(list @N;(emit #) ;)", "(() (defmacro m (&rest r) (cons 'list r)) (m @N;# ;))", "(() (defmacro m (@N;a# ;) (list 'list aN1 a0)) (m @N;# ;))",
			"(() @N;(var p# #) ; (list p0 pN1))", "(() @N;(var p# #) ; (lambda () p0))", "(() @N;# ;)", "(() (var x 1) @N;(setq x #) ; x)", "(() @N;(var p# #) ; (var f (lambda () (setq p0 (+ p0 pN1)) (setq pN1 7) (list p0 pN1))) (funcall f) (list p0 pN1 (funcall f)))",
			"(() (var g (() @N;(var p# #) ; (lambda () (setq p0 (+ p0 pN1)) (setq pN1 7) (list p0 pN1)))) (funcall g) (funcall g))", "(() (var g (() @N;(var p# #) ; (lambda () (list @N;p# ;)))) (funcall g))", "(() (var g (() @N;(var p# #) ; (lambda () @N;(setq p# (+ p# 1)) ; (list p0 pN1)))) (funcall g) (funcall g))", "(() (var g (() (var z 5) @N;(var p# #) ; (list (lambda () (setq z (+ z 1))) (lambda () (list z p0))))) (funcall (car g)) (funcall (car (cdr g))))",
			"(() (var g (() (var z 5) @N;(var p# #) ; (var y 6) (lambda () (setq z (+ z 1)) (setq y (+ y z)) (list z y)))) (funcall g) (funcall g))", "(() (var g (() (var y 6) (var z 5) @N;(var p# #) ; (lambda () (setq z (+ z 1)) (setq y (+ y z)) (list z y)))) (funcall g) (funcall g))", "(() (var g ()) (funcall (lambda (@N;a# ;) (setq g (lambda () (setq a0 (+ a0 aN1)) a0))) @N;# ;) (funcall g) (funcall g))", "(() (var g ()) (funcall (lambda (@N;a# ;) (setq g (lambda () (list @N;a# ;)))) @N;# ;) (funcall g))",
			"(() (var g ()) (var i 0) (while (< i 2) @N;(var p# #) ; (setq g (lambda () (setq p0 (+ p0 pN1)) p0)) (setq i (+ i 1))) (funcall g) (funcall g))", "(() (var g ()) (if true (() @N;(var p# (+ # 1)) ; (setq g (lambda () (setq p0 (+ p0 pN1)) p0)) 3) 4) (list (funcall g) (funcall g)))", "(list (() @N;(var p# #) ; p0) (() @N;(var p# #) ; pN1))", "(if (() @N;(var p# #) ; pN1) 1 2)", "(while (() @N;(var p# #) ; (not pN1)) 2)", "(when (= (list @N;# ;) 1) 2)", "(if (= (() @N;(var p# #) ; pN1) N1) (() @N;(var q# #) ; qN1) 2)",
			"(() @N;(global g# #) ; (list g0 gN1))", "(() @N;(global g# #) ; (setq gN1 (list g0)) (list g0 gN1))", "(list @N;(quote s#) ;)", "(= (list @N;(quote s#) ; (quote s0)) 1)", "(() (var l (list @N;(quote s#) ;)) (list (= (car l) (quote s0)) (car l)))", "(() @N;(defun f# () #) ; (list (f0) (fN1)))", "(() @N;(defun f# (x) (list x #)) ; (fN1 (f0 2)))", "(() @N;(global f# (lambda (x) (list x #))) ; (fN1 (f0 2)))", "(() (defun f (n) (if (= n 0) 0 (+ 1 (self (- n 1))))) (f N))", "(() (defun f (n &rest r) (if (= n 0) r (apply self (- n 1) n r))) (f N))",
			"(() (var x 1) (list (funcall (lambda () @N;(var p# #) ; (setq x pN1) (setq x (+ x p0)) x)) x))", "(() (var x 1) (list (funcall (lambda () (var q 5) @N;(var p# #) ; (setq x q) (setq q (+ x 1)) (list x q p0))) x))", "(() (global gg 1) (var q 5) @N;(var p# #) ; (setq gg q) (setq q (+ gg q)) (list gg q p0))", "(() (global gg 1) (funcall (lambda (q) @N;(var p# #) ; (setq gg q) (list gg q p0)) 3))", "(() (var x 1) (funcall (lambda () (var y 2) (funcall (lambda () @N;(var p# #) ; (setq x (+ y pN1)) (setq y (+ x p0)))) (list x y))))",
			"(() @N;(setq u# #) ; u0)", "(+ @N;# ;)", "(() (var x 0) (while (< x N) (setq x (+ x 1))) x)", "(comptime (list @N;# ;))", "(length (comptime \"@N;x;\"))", "(() @N;(defmacro m# (a) (list 'list a #)) ; (mN1 (m0 2)))", "(() (var x 1) @N;(var f# (lambda () (setq x (+ x 1)))) ; (funcall f0) (funcall fN1))", "(() (var r ()) (() @N;(var p# #) ; (setq r (list (lambda () (setq p0 (+ p0 1))) (lambda () pN1)))) (list (funcall (car r)) (funcall (car (cdr r)))))"};
		auto sub = [&](const std::string &t, size_t n) {
			std::string r;
			for (size_t i = 0; i < t.size(); i++) {
				if (t[i] != 'N') { r += t[i]; continue; }
				size_t k = n;
				if (i + 1 < t.size() && t[i + 1] == '1') k = n - 1, i++;
				else if (i + 1 < t.size() && t[i + 1] == '2') k = n - 2, i++;
				r += std::to_string(k);
			}
			return unquote(expand(r));
		};
		SV counts;
		for (auto &t : cnt) for (size_t n = 2; n <= (th ? 520 : 262); n++) { if (!th && (n > 6 && n < 120)) continue; if (!th && n > 132 && n < 248) continue; counts.push_back(sub(t, n)); }
		s.push_back(listSpace("counts and lengths around 255", std::to_string(cnt.size()) + " constructs x every count", counts, narrow));
		SV big;
		// Without constructs which recurse as deep as they are long.
		for (auto &t : cnt) {
			if (t.find("self") != std::string::npos || t.find("defmacro m#") != std::string::npos) continue;
			bool small = t.find("lambda (@N") != std::string::npos || t.find("(global") != std::string::npos || t.find("defmacro") != std::string::npos || t.find("comptime") != std::string::npos || t.find("apply") != std::string::npos || t.find("u#") != std::string::npos || t.find("defun") != std::string::npos || t.find("f#") != std::string::npos;
			for (size_t n : th ? std::vector<size_t>{65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65600} : std::vector<size_t>{65534, 65535, 65536, 65537}) {
				if (small && !th && n != 65537) continue;
				if (small && n != 65536 && n != 65537) continue;
				big.push_back(sub(t, n));
			}
		}
		s.push_back(listSpace("counts and lengths around 65535", "the same constructs", big, wide));
		s.back().timeout = 120;
		// Constants.
		SV con;
		for (int b : {6, 7, 8, 15, 16, 31, 32, 62, 63}) for (long long d = -3; d <= 3; d++) for (int sg : {1, -1}) {
			long long k = (long long) ((b == 63 ? (1ull << 63) - 4 : (1ull << b)) + (b == 63 ? (d > 0 ? 0 : d) : d)) * sg;
			for (auto &t : SV{"(list K (- K 1) (+ K 1) (= K x))", "(+ x K)", "(quote (K (K)))", "(if (= x K) K 2)", "(vector K)", "(comptime K)", "(mac K)", "(funcall (lambda (a) (list a K)) K)", "(* K 1.0)"})
				con.push_back(unquote("(() (defmacro mac (a) (list '+ a 0)) (var x " + std::to_string(k) + ") " + put(t, {{'K', std::to_string(k)}}) + ")"));
		}
		s.push_back(listSpace("integer constants", "every constant around every power of two which is a width boundary x 9 uses", con, narrow));
		return s;
	};
	return runCheck(argc, argv, c);
}
