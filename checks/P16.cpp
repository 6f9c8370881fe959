// Sessions: every sequence of texts (good ones, ones which do not compile, ones which fail half way) in one compiler and
// virtual machine, against the reference evaluator; compiling everything first against compiling one by one; the same
// texts inside host callbacks; and the memory in use, which must not grow when texts repeat.
#include "../harness/refcheck.hpp"
typedef std::vector<std::string> SV;
static Variant v, mem, imem;

static shim_cfg cfg(size_t objects) {
	shim_cfg c = defaultCfg();
	c.vmObjects = objects;
	return c;
}

// Compile every text, then run them: same results as one by one, as far as the compiler's state permits (no text defines
// or uses anything at compile time except for the names of globals).
static Verdict batch(const std::string &t) {
	auto texts = splitSession(t);
	std::string o[2];
	for (int mode = 0; mode < 2; mode++) {
		shim_cfg c = defaultCfg();
		shim_t *s = v.shim_new(&c);
		std::vector<std::pair<unsigned char *, size_t>> code(texts.size());
		auto comp = [&](size_t i) { if (v.shim_compile(s, texts[i].data(), texts[i].size(), &code[i].first, &code[i].second)) code[i].first = nullptr; };
		if (mode) for (size_t i = 0; i < texts.size(); i++) comp(i);
		for (size_t i = 0; i < texts.size(); i++) {
			if (!mode) comp(i);
			if (!code[i].first) { o[mode] += "compile error ||| "; continue; }
			shim_result r;
			v.shim_exec(s, code[i].first, code[i].second, 1, &r);
			Outcome q = takeResult(v, r);
			o[mode] += q.observable() + " ||| ";
			if (q.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
			// The same bytecode can be run any number of times: run the last one again at the end.
			if (i + 1 == texts.size()) {
				v.shim_exec(s, code[i].first, code[i].second, 1, &r);
				q = takeResult(v, r);
				o[mode] += "again: " + q.observable();
				if (q.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
			}
		}
		for (auto &p : code) free(p.first);
		v.shim_free(s);
		o[mode] = canonTypes(o[mode]);
	}
	if (o[0] != o[1]) return bad("one by one:   " + o[0] + "\ncompiled first: " + o[1]);
	return good(o[0]);
}

// The texts of the session, over and over: memory in use (after collections) becomes constant, and so do the results.
static Verdict memory(const std::string &t, int rounds, bool infer = false, bool again = false) {
	auto texts = splitSession(t);
	shim_cfg c = defaultCfg();
	c.memory = 1 << 21;
	Variant &mem = infer ? imem : ::mem;
	if (infer) { c.infer = 1; c.inferObjects = 1000; c.memory = 1 << 22; }
	shim_t *s = mem.shim_new(&c);
	if (mem.shim_initError(s)) { mem.shim_free(s); return bad("init error"); }
	std::vector<size_t> used;
	std::vector<std::string> obs;
	for (int i = 0; i < rounds; i++) {
		std::string o;
		for (auto &x : texts) {
			shim_result r;
			mem.shim_eval(s, x.data(), x.size(), 1, &r);
			Outcome q = takeResult(mem, r);
			o += q.observable() + " ||| ";
			if (q.status == SHIM_RUNTIME_ERROR) mem.shim_softReset(s);
		}
		obs.push_back(canonTypes(o));
		used.push_back(mem.shim_memoryUsed(s));
	}
	size_t stack = mem.shim_stackLength(s);
	mem.shim_free(s);
	std::string h;
	for (auto u : used) h += std::to_string(u) + " ";
	// Arrays and the allocator's table grow in steps, so a few early rounds may differ; if later ones do, look at many more
	// of them. Whatever is lost in every round adds up to more than one such step.
	bool grows = false;
	for (int i = rounds / 3; i < rounds; i++) grows |= used[i] != used[rounds / 3];
	if (grows && !again) return memory(t, rounds * 8, infer, true);
	if (grows && used.back() > used[rounds / 3] + 256) return bad("bytes in use after each round: " + h + "\nfirst round: " + obs[0]);
	if (stack) return bad("objects left on the stack: " + std::to_string(stack));
	return good(obs[0] + std::to_string(used.back()), rounds * texts.size());
}

// What a user types into a session.
static SV alphabet() {
	SV a = {
		// Definitions and effects which stay.
		"(global a 1)", "(global f (lambda (x) (list 'f x a)))", "(global count (() (var n 0) (lambda () (setq n (+ n 1)))))",
		"(setq a (+ a 1))", "(list a (f 2))", "(count)", "(() (defun f (x) (list 'g x)) (setq a 'set) (f 3))",
		// Failures while running, after some effects.
		"(() (setq a (list 1 2)) (global b \"kept\") (count) (car 1) (setq a 'never))",
		"(() (var x 10) (global f (lambda (y) (setq x (+ x y)) (list 'captured x))) (f 1) (fail))",
		"(() (var x (list 'deep)) (defun rec (n) (if (= n 0) (() (global count (lambda () (list n x))) (cdr 'oops)) (list (self (- n 1))))) (rec 3))",
		"(call1 (lambda (x) (setq a (list 'in x)) (emit x) (call1 (lambda (y) (car y)) x)) 5)",
		"(list (count) (undefined 1) (count))", "(() (emit 'early) undefinedvariable)",
		"(() (var i 0) (while (< i 3) (setq i (+ i 1)) (setq a i) (if (= i 2) (fail) ())))",
		// Failures while compiling, with definitions before the mistake.
		"(() (global a 'half) (if))", "(() (defun f (x) 'half) (global c 3) (var))", "(() (setq a 'half) (goto nowhere))", "(() (defmacro f (x) (car x)) (f 1))",
		"(() (comptime (global a 'compiletime)) (lambda (1) 1))",
		// Failures while reading.
		"(() (global a 'unread)", "(setq a \"open", ")", "",
		// Macros and compile-time state.
		"(() (defmacro f (x) (list 'list ''macro x 'a)) (f 1))", "(comptime (global a (list 'ct)))", "(comptime (() (emit a) a))", "(() (comptime (global n 0)) (defmacro tick () (setq n (+ n 1))) (list (tick) (tick) a))",
		"(global t (make-type))", "(global a (make-instance t a (lambda (x) (list x (f x)))))", "(list a (type-of a))", "(a 4)",
	};
	for (auto &t : a) t = unquote(t);
	return a;
}

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P16";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of the sessions explored (results, emitted values and kinds of error of every text)";
	c.assumptions = {"after a failure at run time the host resets the machine with duckVM_softReset and drops the reported errors, as duckLisp-dev does"};
	c.setup = [](const std::string &lib) { v.load(lib, "default"); mem.load(lib, "portable-plain"); imem.load(lib, "portable-inference-plain"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		SV a = alphabet();
		auto seqs = [](const SV &al, size_t depth, size_t bound) {
			uint64_t n = 1;
			while (depth && n < bound) { n *= al.size(); depth--; }
			return n;
		};
		(void) seqs;
		// All sequences of up to d texts, each followed by a probe of what is defined.
		auto add = [&](const std::string &name, SV al, size_t d, std::function<Verdict(const std::string &)> run) {
			auto p = std::make_shared<SV>(std::move(al));
			std::vector<uint64_t> start{0};
			uint64_t n = 1;
			for (size_t k = 1; k <= d; k++) { n *= p->size(); start.push_back(start.back() + n); }
			Space sp;
			sp.name = name;
			sp.bounds = "all sequences of up to " + std::to_string(d) + " of " + std::to_string(p->size()) + " texts";
			sp.count = start.back();
			sp.make = [p, start](uint64_t i) {
				size_t k = 1;
				while (i >= start[k]) k++;
				i -= start[k - 1];
				std::string r;
				for (size_t j = 0; j < k; j++) { r += (j ? "|||" : "") + (*p)[i % p->size()]; i /= p->size(); }
				return r;
			};
			sp.run = run;
			s.push_back(sp);
		};
		add("histories", a, th ? 4 : 3, [](const std::string &t) {
			return againstRef(v, cfg(256), t + "|||(list a (f 7))|||(count)|||(count)|||" + unquote("(() (var i 0) (var l ()) (while (< i 40) (setq i (+ i 1)) (setq l (list i \"garbage\")) ()) (gc) (list a (f 8)))") + "|||(comptime (list a))");
		});
		SV kept;
		for (size_t i = 0; i < a.size(); i++) if (i < 14 || i > 26) kept.push_back(a[i]);
		add("tight heap", kept, 2, [](const std::string &t) {
			// Running out of objects is one more failure to survive: afterwards a small text still works.
			// (The globals hold fewer objects than the smallest of these heaps has.)
			for (size_t n = 30; n <= 90; n += 3) {
				shim_cfg c = cfg(n);
				shim_t *s = v.shim_new(&c);
				if (v.shim_initError(s)) { v.shim_free(s); continue; }
				for (auto &x : splitSession(t + "|||(() (defun f (n) (list n (self (list n)))) (f 1))|||(() (var n 0) (defun f (l) (var k n) (setq n (+ n 1)) (self (lambda () (list l k)))) (f ()))")) {
					shim_result r;
					v.shim_eval(s, x.data(), x.size(), 1, &r);
					Outcome o = takeResult(v, r);
					if (o.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
				}
				// Drop what the globals hold, then there is room again.
				std::string last;
				for (auto x : {"(setq a 1)", "(setq f 1)", "(setq count 1)", "(setq b 1)", "(setq t 1)", "(() (var x 2) (+ x 1))"}) {
					shim_result r;
					v.shim_eval(s, x, strlen(x), 1, &r);
					Outcome o = takeResult(v, r);
					if (o.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
					last = o.observable();
				}
				size_t st = v.shim_stackLength(s);
				v.shim_free(s);
				if (last != "=> 3 log[]" || st) return bad(std::to_string(n) + " objects: after running out of memory: " + last + ", stack " + std::to_string(st));
			}
			return good(t, 16);
		});
		SV run;
		for (auto &x : a) if (x.find("comptime") == std::string::npos && x.find("defmacro") == std::string::npos) run.push_back(x);
		add("compile first", run, th ? 3 : 2, [](const std::string &t) { return batch("(global count (lambda () 0))|||" + t + unquote("|||(() (defun k (x) (list x a)) (count) (emit (k 1)) (list a (f 2) (count)))")); });
		// Every text of a host callback, of a callback in a callback, ...: the machine's state is that of the outer program.
		SV re, inner = {"x", "(list x a)", "(setq a (list a x))", "(() (var y x) (global f (lambda (z) (setq y (list y z)))) (f 1))", "(count)", "(car x)", "(() (var i 0) (while (< i 3) (setq i (+ i 1)) (emit (list i x))) i)", "(apply f (list x))", "(() (defun r (n) (if (= n 0) x (self (- n 1)))) (r 3))", "(gc)", "(() (var i 0) (while (< i 300) (setq i (+ i 1)) (list i)) (list i x))", "(fail)"};
		for (auto &A : inner) for (auto &B : inner) for (auto &w : SV{"A", "(list A B)", "(call1 (lambda (x) B) A)", "(call1 (lambda (x) (list x (call1 (lambda (x) B) x) x)) A)", "(call1 (lambda (x) (call1 (lambda (y) (call1 (lambda (x) (list x y B)) (list x))) (list A))) x)", "(funcall (lambda (x) (call1 (lambda (q) (list q B)) x)) A)", "(() (var q (lambda (x) B)) (setq x (call1 q A)) (call1 q x))", "(call1 call1b A)", "(call1 f (call1 f A))"}) {
			std::string b;
			for (char ch : w) b += ch == 'A' ? A : ch == 'B' ? B : std::string(1, ch);
			re.push_back(unquote("(() (global a 1) (global f (lambda (z) (list 'f z a))) (global count (() (var n 0) (lambda () (setq n (+ n 1))))) (global call1b (lambda (p) (call1 (lambda (r) (list r p)) p))))|||(() (var x 'x) (var w 'w) (var r (call1 (lambda (x) " + b + ") x)) (list r x w (count)))|||(list a (f 2) (count))"));
		}
		s.push_back(listSpace("callbacks", "every form of " + std::to_string(inner.size()) + " in every nesting of host callbacks of 9, followed by probes", re, [](const std::string &t) { return againstRef(v, cfg(256), t); }));
		SV deep;
		for (int d = 1; d <= (th ? 60 : 25); d++) for (auto &leaf : SV{"(list a n)", "(fail)", "(car 1)", "(() (var k n) (setq a (lambda () k)) 5)"}) {
			std::string p = "(() (global a 0) (global go ()) (setq go (lambda (n) (var here n) (if (= n 0) " + leaf + " (() (var r (call1 go (- n 1))) (list r here n)))))";
			deep.push_back(p + " 0)|||(call1 go " + std::to_string(d) + ")|||(list (type-of a) 1)|||(go 2)|||(call1 go " + std::to_string(d) + ")");
			std::string nest = leaf == "(list a n)" ? "(list x a)" : leaf == "(fail)" ? "(fail)" : leaf == "(car 1)" ? "(car 1)" : "(setq a (lambda () x))";
			for (int i = 0; i < d; i++) nest = "(list x (call1 (lambda (x) " + nest + ") (list x)))";
			deep.push_back("(global a 0)|||(() (var x 1) " + nest + ")|||(() (var x 2) " + nest + ")|||(emit (= a 0))");
		}
		for (auto &t : deep) t = unquote(t);
		s.push_back(listSpace("depth", "host callbacks nested up to the bound, which end well or fail at the bottom", deep, [](const std::string &t) { return againstRef(v, cfg(600), t); }));

		// Memory. A gensym or a fresh type is new every time, so texts which make them are left out.
		SV m = a;
		for (auto &t : SV{"1", "'a", "\"abc\"", "(list 1 2)", "(() (var x 1) x)", "(lambda (x) x)", "(if true 1 2)", "(while false 1)", "(() (var i 0) (while (< i 3) (setq i (+ i 1))))", "(comptime 1)", "(comptime (global q 1))", "(if)", "(()", "(() (var x 1) (if))", "(() (defun f (x) (if)) 1)", "(() (lambda (x) (if)) 1)", "(() (defmacro m (x) (if)) 1)", "(() (defmacro m (x) (car 1)) (m 1))", "(() (defmacro m (x) 'x) (m 1))", "(() (defmacro m (x) '(if)) (m 1))", "(() (defmacro m (x) (list 'lambda '() '(if))) (m 1))", "(comptime (if))", "(comptime (car 1))", "(() (comptime (car 1)))", "(() (var f (lambda () (lambda () 1))) (if))", "(() (while true (if)))", "(() (while x (if)))", "(() (while (if) 1))", "(list (list (if)))", "(var)", "(setq)", "(setq x 1)", "(goto nowhere)", "(() (label l) (goto m))", "(f", "(f (g", "(f #(g", "(f #(g \"a", "#(a #(b (c", "(f \"a\" (g #h (i", "(99999999999999999999999", "(a 1.5e", "\"abc", "(quote)", "(vector (if))", "(() (defun f (&rest) 1))", "(lambda (1) 1)", "(defmacro)", "(defun)", "(defmacro m)", "(intern \"zz\")", "(comptime (intern \"zz\"))", "(read \"(\" false)", "(comptime (read \"(a b)\" false))", "(comptime (read \"(a b\" false))", "(comptime (lambda () 1))", "(comptime (list 1 (lambda () 1)))", "(comptime (list 'a 2 (list \"s\" (lambda () 1))))", "(comptime (vector 1 (lambda () 1)))", "(() (defmacro m () (list 'list 1 (vector 2))) (m))", "(() (defmacro m () (cons 1 2)) (m))", "(() (defmacro m (x) (list 'list x x)) (list (m (m 1)) (m (if))))", "(() (defmacro m (x) (list 'list x x)) (defun f () (m (if))) (f))", "(cond)", "(when (if) 1)", "(unless 1 (if))", "(if (if) 1 2)", "(if 1 (if) 2)", "(if 0 1 (if))", "(noscope (var x 1) (if))", "(() (noscope (defun f () 1) (if)))", "(and 1 (if))", "(or () (if))", "(not (if))", "(+ 1 (if))", "(+ 1)", "(= 1)", "(cons 1)", "(apply)", "(funcall)", "(make-instance 1 2)", "(nop 1)", "(lambda)", "(() (var x (lambda () x)) (if))", "(() (var x 1) (defun f () (setq x (lambda () x))) (f) (if))", "#(a", "#(a b)", "(1 2 . 3)", "99999999999999999999", "(set-vector-element 1 2)", "(() (label a) (label a) 1)", "(substring 1 2)", "(concatenate \"a\")", "(global)", "(global 1 2)", "(setq 1 2)", "(var 1 2)"}) m.push_back(unquote(t));
		s.push_back(listSpace("memory", "every text of " + std::to_string(m.size()) + ", 24 rounds in one session: bytes in use stay the same from round 8 on", m, [](const std::string &t) { return memory("(global a 0)|||(global f (lambda (x) x))|||(global count (lambda () 1))|||" + t, 24); }));
		SV m2;
		for (size_t i = 0; i < m.size(); i++) for (size_t j = i + 1; j < m.size(); j++) if (th || (i + j) % 2 == 0) m2.push_back("(global a 0)|||(global f (lambda (x) x))|||(global count (lambda () 1))|||" + m[i] + "|||" + m[j]);
		s.push_back(listSpace("memory (pairs)", std::to_string(m2.size()) + " pairs of these texts in turn, 12 rounds", m2, [](const std::string &t) { return memory(t, 12); }));
		SV im = {"1", "(() declare f (I I) f 1 2)", "(() f 1 2)", "(() declare f (I I) f 1)", "(() declare f (I I) (f 1))", "(() declare f (I I) (f 1 2 3))", "(() defun f (x) x f 3)", "(() defun f (x) y)", "(() lambda (x) y)", "(() lambda x)", "(() lambda 1 2)", "(() var 1 2)", "(() declare f)", "(() declare f x)", "(() declare f (x))", "(() declare f (I x))", "(() declare f (I &rest 1))", "(() declare f (I &rest x I))", "(() declare f (I &rest 1 x))", "(() declare f (I &rest 1 I) f 1 2)", "(() declare f (I) declare f (I) declare f (I I) f 1 2)", "(() (declare f (L I) (declare-identifier (infer-and-get-next-argument) (quote #L))) f x 1)", "(() (declare f (L I) (declare-identifier (infer-and-get-next-argument) (quote #M))) f x 1)", "(() (declare f (L I) (declare-identifier 1 (quote #M))) f x 1)", "(() (declare f (L I) (if)) f x 1)", "(() (declare f (L I) (infer-and-get-next-argument)) f x y)", "(() (declare f (L I) (declaration-scope (infer-and-get-next-argument) (car 1))) f x y)", "(() (declare f L (nop)) f x y)", "(() (declare f ((I) I)) f x y)", "(() (declare f (1) ) f x y)", "(() (declare f 1 ) f x y)", "(() (var x 1) (list x (y)))", "(if 1)", "(() (() (() (f))))", "(() (declare f (L) ((while true (infer-and-get-next-argument)))) f x y)", "(() #(a b c) (#list #list))", "(() (declare f ((I I) 1)) 1)", "(() (declare f ((I I I) (I I) 1)) 1)", "(() (declare f (&rest 1 (I I))) 1)", "(() (declare f (&rest 1 (1 I))) 1)", "(() (declare f ((I I) &rest 1 (I 1))) 1)", "(() (declare f ((I I) &rest 1)) 1)", "(() (declare f ((I I) &rest 1 I)) (f 1 2 3))"};
		s.push_back(listSpace("memory (inference)", "every text of " + std::to_string(im.size()) + " with declarations, scripts and mistakes, 24 rounds with parenthesis inference", im, [](const std::string &t) { return memory(t, 24, true); }));
		SV im2;
		for (size_t i = 0; i < im.size(); i++) for (size_t j = i + 1; j < im.size(); j++) if (auto &A = im[i], &B = im[j]; th || (i * 3 + j) % 5 == 0) im2.push_back(A + "|||" + B);
		s.push_back(listSpace("memory (inference, pairs)", std::to_string(im2.size()) + " pairs of these texts in turn, 12 rounds", im2, [](const std::string &t) { return memory(t, 12, true); }));
		// The programs of the other checks: as they are, and broken off after each parenthesis.
		for (Family f : corpus::all()) {
			f.bound(th ? 20000 : 700);
			if (!f.count) continue;
			f.name += " (memory)";
			s.push_back(famSpace(f, [](const std::string &t) {
				if (t.find("gensym") != std::string::npos) return skip();
				if (!refSession(t).inDomain) return skip();
				Verdict r = memory(t, 9);
				if (!r.ok) return r;
				return r;
			}));
		}
		SV cut;
		for (Family f : corpus::all()) {
			f.bound(th ? 4000 : 150);
			for (uint64_t i = 0; i < f.count; i++) {
				std::string t = f.at(i);
				if (t.find("|||") != std::string::npos || t.find("gensym") != std::string::npos) continue;
				// A form replaced by one which does not compile: at every place where a list starts.
				size_t k = 0;
				for (size_t p = 1; p < t.size(); p++) if (t[p] == '(' && t[p - 1] == ' ' && k++ % (th ? 1 : 3) == i % (th ? 1 : 3)) {
					int d = 0;
					size_t e = p;
					bool str = false;
					for (; e < t.size(); e++) { if (t[e] == '"') str = !str; if (str) continue; d += t[e] == '(' ? 1 : t[e] == ')' ? -1 : 0; if (!d) break; }
					if (e < t.size()) cut.push_back(t.substr(0, p) + "(if)" + t.substr(e + 1));
				}
			}
		}
		std::sort(cut.begin(), cut.end());
		cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
		s.push_back(listSpace("memory (mistakes)", "programs of the grammar families with one form replaced by one which does not compile, 9 rounds", cut, [](const std::string &t) { return refSession(t).inDomain ? memory(t, 9) : skip(); }));
		return s;
	};
	return runCheck(argc, argv, c);
}
