// Running out of memory: for every program, every single request for memory which it makes (while the compiler and machine
// start, while it is compiled, while it runs) is made to fail once, and all requests from it on. Afterwards the session
// goes on: a small program, and the same one again.
#include "../harness/refcheck.hpp"
typedef std::vector<std::string> SV;
static Variant v, vi;
static const size_t STRIDE = 16;

static char g_where[128];
static void death() { fputs(g_where, stderr); }
static void atDeath() {
	static auto set = (void (*)(void (*)())) dlsym(RTLD_DEFAULT, "__sanitizer_set_death_callback");
	if (set) set(death);
}
static shim_cfg cfg(bool infer) {
	shim_cfg c = defaultCfg();
	c.vmObjects = c.ctObjects = 200;
	c.infer = infer;
	c.inferObjects = 600;
	return c;
}
static Outcome eval(Variant &x, shim_t *s, const std::string &t) {
	shim_result r;
	x.shim_eval(s, t.data(), t.size(), 1, &r);
	return takeResult(x, r);
}
static const char *PROBE = "(() (var x 2) (defun f (y) (list x y)) (f (list 3 \"four\")))";
static const char *PROBE_RESULT = "=> (2 (3 \"four\")) log[]";

// "mode,k,infer;before|||text": requests k, k + STRIDE, ... of the last text.
static Verdict faults(const std::string &c) {
	int mode, infer;
	unsigned long k;
	int at = 0;
	if (sscanf(c.c_str(), "%d,%lu,%d;%n", &mode, &k, &infer, &at) != 3) return skip();
	SV texts = splitSession(c.substr(at));
	Variant &x = infer ? vi : v;
	shim_cfg cf = cfg(infer);
	std::string want, again;
	uint32_t steps = 0;
	size_t errors = 0;
	// Preparing the inferrer is the same for all texts: infer == 2 leaves those requests out.
	size_t from = 0, stride = infer ? 4 * STRIDE : STRIDE;
	if (infer == 2) {
		shim_t *s = x.shim_new(&cf);
		x.shim_faults(0, 0);
		eval(x, s, "()");
		from = x.shim_faults(0, 0);
		from = from > 150 ? from - 150 : 0;
		x.shim_free(s);
	}
	for (size_t n = 0;; n = n ? n + stride : k) {
		if (from && n > 60 && n < from) n += (from - n) / stride * stride + stride;
		atDeath();
		snprintf(g_where, sizeof g_where, "\nrequest for memory number %zu%s fails\n", n, mode == 2 ? " and all later ones" : "");
		x.shim_faults(0, 0);
		shim_t *s = x.shim_new(&cf);
		if (x.shim_initError(s)) return bad(std::string("init error ") + x.shim_initError(s));
		for (size_t i = 0; i + 1 < texts.size(); i++) {
			Outcome o = eval(x, s, texts[i]);
			if (o.status != SHIM_OK) return bad("before: " + o.observable() + "\n" + o.message);
		}
		x.shim_faults(n ? mode : 0, n);
		Outcome o = eval(x, s, texts.back());
		size_t requests = x.shim_faults(0, 0);
		steps++;
		std::string got = canonTypes(o.observable());
		if (o.status == SHIM_RUNTIME_ERROR) x.shim_softReset(s);
		std::string where = "request for memory number " + std::to_string(n) + (mode == 2 ? " and all later ones fail" : " fails") + "\n";
		bool failed = o.status == SHIM_COMPILE_ERROR || o.status == SHIM_RUNTIME_ERROR;
		if (!n) want = got;
		else {
			if (!failed && got != want) return bad(where + "expected: " + want + " or an error\nobserved: " + got);
			if (n > requests && got != want) return bad(where + "but there were only " + std::to_string(requests) + " requests; observed: " + got + "\n" + o.message);
		}
		errors += failed;
		if (n > requests) { x.shim_free(s); break; }
		Outcome p = eval(x, s, PROBE);
		if (p.observable() != PROBE_RESULT) return bad(where + "observed: " + got + "\na program after that: " + p.observable() + "\n" + p.message);
		// And the same text once more.
		if (infer) { x.shim_free(s); if (!n && requests < k) break; continue; }
		p = eval(x, s, texts.back());
		std::string r = canonTypes(p.observable());
		if (!n) again = r;
		else if (r != want && r != again) return bad(where + "observed: " + got + "\nthe same text after that: " + r + "\n" + p.message + "\nexpected: " + want + (again != want ? " or " + again : ""));
		x.shim_free(s);
		if (n > requests) break;
		if (n > 100000) return bad("no end of requests");
		if (!n && requests < k) break;
	}
	return good(want + (errors ? "" : " never an error"), steps);
}
static Verdict start(const std::string &c) {
	int mode, infer;
	unsigned long k;
	if (sscanf(c.c_str(), "%d,%lu,%d;", &mode, &k, &infer) != 3) return skip();
	Variant &x = infer ? vi : v;
	shim_cfg cf = cfg(infer);
	uint32_t steps = 0;
	std::set<std::string> stages;
	for (size_t n = k;; n += (infer ? 4 : 1) * STRIDE) {
		atDeath();
		snprintf(g_where, sizeof g_where, "\nrequest for memory number %zu%s fails\n", n, mode == 2 ? " and all later ones" : "");
		x.shim_faults(mode, n);
		shim_t *s = x.shim_new(&cf);
		size_t requests = x.shim_faults(0, 0);
		std::string err = x.shim_initError(s) ? x.shim_initError(s) : "";
		steps++;
		if (n > requests) { x.shim_free(s); break; }
		std::string where = "request for memory number " + std::to_string(n) + (mode == 2 ? " and all later ones fail" : " fails") + " while starting\n";
		stages.insert(err);
		if (err.empty()) {
			Outcome p = eval(x, s, PROBE);
			if (p.observable() != PROBE_RESULT) return bad(where + "no error, but: " + p.observable() + "\n" + p.message);
			x.shim_free(s);
		}
		// What did not start is not shut down: its memory goes with the arena.
		else if (err.compare(0, 4, "link") == 0) x.shim_free(s);
	}
	std::string sig;
	for (auto &e : stages) sig += e + ";";
	return good(sig, steps);
}

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P20";
	c.level = "fault_enumeration";
	c.rule = "distinct outcomes of the programs without failures (each explored with every request for memory as the failing one)";
	c.assumptions = {"the host does not shut down what it failed to start, and resets the machine after a failure at run time, as duckLisp-dev does", "what was leaked on the way out of an error is not counted (docs/api.md)"};
	c.setup = [](const std::string &lib) { v.load(lib, "faults"); vi.load(lib, "faults-inference"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		auto add = [&](const std::string &name, const std::string &bounds, const SV &texts, int infer, std::function<Verdict(const std::string &)> run) {
			SV l;
			for (auto &t : texts) for (int mode = 1; mode <= 2; mode++) for (size_t k = 1; k <= (infer ? 4 : 1) * STRIDE; k++) l.push_back(std::to_string(mode) + "," + std::to_string(k) + "," + std::to_string(infer) + ";" + t);
			s.push_back(listSpace(name, bounds + " x every request for memory fails, once or from then on", l, run));
		};
		add("start", "starting the compiler and the machine", {""}, 0, start);
		add("start (inference)", "starting the compiler and the machine", {""}, 1, start);
		SV forms = {"5", "'a", "\"abc\"", "1.5", "()", "(list 1 \"a\" 'b)", "(vector 1 (list 2))", "(make-vector 3 'x)", "(cons 1 2)", "(() (var x 1) (setq x 2) x)", "(() (defun f (a) (list a a)) (f 1))", "(() (defun f (a &rest b) (list a b)) (f 1 2 3))", "(() (var x 1) (var f (lambda () (setq x (+ x 1)))) (f) (f) x)", "(funcall (() (var y 5) (lambda (z) (lambda () (list y z)))) 1)",
			"(() (var i 0) (while (< i 3) (setq i (+ i 1)) (emit i)))", "(if (= 1 1) 'yes 'no)", "(when 1 2)", "(unless () 2)", "(() (var l '(a (b \"c\") 1.5)) (car (cdr l)))", "(apply (lambda (a b) (list a b)) (list 1 2))", "(apply (lambda (&rest b) b) 1 (list 1 2))", "(concatenate \"ab\" \"cd\")", "(substring \"abcd\" 1 3)", "(make-string (list 65 66))", "(symbol-string 'q)", "(list (type-of 1) (symbol-id 'list))", "(() (var t (make-type)) (var c (make-instance t 1 (lambda (x) (list x)))) (list (composite-value c) (funcall c 5)))", "(call1 (lambda (x) (list x)) 4)", "(emit (list 1 2))", "(gc)",
			"(() (defmacro m (x) (list 'list x x)) (m 3))", "(comptime (list 1 2))", "(comptime (global z 5))", "(() (comptime (defun h (x) (list 'list x)) 0) (defmacro m (x) (h x)) (m 'q))", "(comptime (() (intern \"sym\") (gensym) 1))", "(comptime (() (var r (read \"(a \\\"b\\\" (1.5))\" false)) (if (= (car (cdr r)) 0) (car r) (car 1))))", "(global g (list 1 2))", "(() (global g 1) (defun f () (setq g (list g))) (f) g)", "(() (noscope (var a 1) (defun b () a)) (b))", "(+ 1 2.5)", "(list (- 5 1) (* 2 3) (/ 7 2) (< 1 2) (> 1 2) (not 1) (null? ()))", "(list (length \"abc\") (cdr \"abc\") (get-vector-element (vector 1 2) 1))", "(() (var v (vector 1 2)) (set-vector-element v 0 'x) v)", "(() (var c (cons 1 2)) (set-car c 'x) (set-cdr c 'y) c)",
			// Mistakes: messages need memory too.
			"(if)", "(car 1)", "(() (var f (lambda (x) (if))) 1)", "(undefined 1)", "(f", "\"abc", "(() (defmacro m (x) (car 5)) (m 1))", "(fail)", "(call1 (lambda (x) (car x)) 1)", "(__error \"message\")", "(setq nowhere 1)", "(() (defun f (x) (if (= x 0) (car 'oops) (list (self (- x 1))))) (f 4))", "(comptime (car 1))", "(lambda (1) 1)", "((lambda (x) x) 1)"};
		for (auto &t : forms) t = unquote(t);
		add("forms", "programs which use every form and every error message", forms, 0, faults);
		SV inf = {"(() (declare f (I I)) (defun f (a b) (list a b)) f 1 f 2 3)", "(() var x 1 setq x 2 list x)", "(() (defun f (a &rest b) list a b) (f 1 2 3))", "(() (declare f (L I) (declare-identifier (infer-and-get-next-argument) (quote #L))) 1)", "(() (declare f (&rest 2 I)) (defun f (&rest a) a) f 1 2)", "(() (defmacro k (n) (list (quote #var) n 5)) (declare k (L) (declare-identifier (infer-and-get-next-argument) (quote #L))) k zz zz)", "(() defun f (a b) list b a  f 1 f 2 3)", "(() (lambda (x) (declare g (I)) g x) 1)", "(() lambda (x) y)", "(() (declare f (I J)) 1)", "list 1 2", "(() #(a b) 1)"};
		add("inference", "inferring a call", {inf[0]}, 1, faults);
		add("forms (inference)", "programs with declarations, without parentheses: the requests which do not prepare the inferrer", inf, th ? 1 : 2, faults);
		SV after;
		for (auto &b : {"(() (global a (list 1)) (defun up () 1) (global f (lambda (x) (setq a (list x a)))))"}) for (auto &t : {"(f 5)", "(() (setq a (f (list 2))) a)", "(global a 'new)", "(() (global b a) (f b) (list a b))", "(funcall f (lambda () f))", "(() (defmacro a () 1) (a))", "(comptime (global a 5))"}) after.push_back(unquote(std::string(b) + "|||" + t));
		add("sessions", "texts which change what an earlier one defined", after, 0, faults);
		for (Family f : corpus::all()) {
			f.bound(1200);
			SV l;
			// Programs from all over the family: its smallest, its largest, and those at regular distances.
			uint64_t step = std::max<uint64_t>(1, f.count / (th ? 300 : 30));
			for (uint64_t i = 0; i < f.count; i += step) {
				std::string t = f.at(i);
				if (t.find("|||") == std::string::npos && refSession(t).inDomain) l.push_back(t);
			}
			if (!l.empty()) add(f.name, std::to_string(l.size()) + " programs of: " + f.bounds(), l, 0, faults);
		}
		return s;
	};
	return runCheck(argc, argv, c);
}
