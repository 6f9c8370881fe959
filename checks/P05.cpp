// Every build configuration agrees on every session: system or own allocator (every fit policy, separate or shared
// memory, any contents of fresh memory), with and without parenthesis inference compiled in.
#include "../harness/diffmain.hpp"
struct Conf { std::string lib; int fit, fill, separate; };
static std::vector<Conf> confs;
static std::map<std::string, Variant> libs;

static Verdict agree(const std::string &t, bool filter, bool all) {
	if (filter && !terminates(t)) return skip();
	std::string first, firstMsg;
	uint32_t n = 0;
	for (size_t i = 0; i < confs.size(); i++) {
		// The few which differ most, or all of them.
		if (!all && i >= 4) break;
		auto &k = confs[i];
		shim_cfg c = defaultCfg();
		c.memory = all && !filter ? 8 << 20 : 1 << 20;
		// Next and worst fit scatter the blocks over all of the memory (by their nature: P17 decides whether they do what
		// they are meant to), so that even much memory may not have room for a larger block.
		bool scatters = k.lib == "portable" && (k.fit == 1 || k.fit == 3);
		if (scatters) c.memory = 32 << 20;
		c.fit = k.fit;
		c.fill = k.fill;
		c.separateArenas = k.separate;
		SessionOutcome o = evalSession(libs[k.lib], c, t);
		n++;
		if (!i) { first = o.observable; firstMsg = o.messages; continue; }
		if (scatters && o.outOfMemory) continue;
		if (o.observable != first) return bad(confs[0].lib + ": " + first + "\n" + k.lib + " fit " + std::to_string(k.fit) + (k.separate ? " separate" : "") + " memory " + std::to_string(k.fill) + ": " + o.observable + "\n" + firstMsg + "\n" + o.messages);
	}
	return good(first, n);
}
static std::string repeat(const std::string &s, int n) { std::string r; for (int i = 0; i < n; i++) { for (char c : s) r += c == '#' ? std::to_string(i) : std::string(1, c); } return r; }

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P05";
	c.level = "exploration";
	c.rule = "distinct observable outcomes of sessions run under every configuration";
	c.assumptions = {"1 MiB of memory is enough for every program of the grammar families, 8 MiB for the others"};
	c.setup = [](const std::string &lib) {
		// dl_memoryFit_first, next, best, worst
		confs = {{"default", 2, 0xA5, 0}, {"portable", 0, 0xA5, 0}, {"portable", 2, 0, 1}, {"inference", 2, 0xA5, 0}, {"portable", 1, 0xFF, 0}, {"portable", 3, 0xA5, 1}, {"portable", 3, 1, 0}, {"noopt", 2, 0xA5, 0}};
		for (auto &k : confs) if (!libs.count(k.lib)) libs[k.lib].load(lib, k.lib);
	};
	c.spaces = [](bool th) {
		std::vector<Space> s;
		for (Family f : corpus::all()) {
			f.bound(th ? 60000 : 2500);
			s.push_back(famSpace(f, [th](const std::string &t) { return agree(t, true, th); }));
		}
		// Things which grow: every size.
		SV gr;
		struct G { const char *a, *rep, *b; int max; };
		std::vector<G> gs = {{"(length \"", "x", "\")", 200}, {"(length (list ", "# ", "))", 200}, {"(length (vector ", "# ", "))", 200}, {"(list ", "(quote s#) ", ")", 60}, {"(() ", "(var v# #) ", "(list v0))", 200}, {"(() ", "(global v# #) ", "(list v0))", 120}, {"(() ", "(defun f# (a) (list a #)) ", "(f0 (f0 1)))", 60},
			{"(() (var a 0) ", "(setq a (+ a #)) ", "a)", 150}, {"(() (var l ()) ", "(setq l (cons (lambda () l) l)) ", "(length l))", 60}, {"(list ", "\"str#\" ", ")", 80}, {"(quote (", "(a# \"b\" #) ", "))", 80}, {"(apply (lambda (&rest r) r) (list ", "# ", "))", 80}, {"(() (defmacro m (a &rest b) (if b (cons (quote m) b) a)) (list (m ", "(list #) ", ")))", 40},
			{"(comptime (list ", "# ", "))", 60}, {"(() ", "(defmacro m# (a) (list (quote +) a #)) ", "(m0 (m0 1)))", 30}, {"(() (var s \"a\") (var n 0) (while (< n 9) (setq s (concatenate s s)) (setq n (+ n 1))) ", "(setq s (substring s 1 #)) (setq s (concatenate s \"0123456789abcdef\")) ", "s)", 30}, {"(() (var n ", "1", ") (while (> n 1000) (setq n (- n 1000000))) n)", 7},
			{"", "(", ")", 0}};
		for (auto &g : gs) for (int n = 0; n <= g.max; n += th || n < 40 ? 1 : 7) gr.push_back(unquote(std::string(g.a) + repeat(g.rep, n) + g.b));
		for (int n = 1; n <= 120; n += th || n < 40 ? 1 : 23) {
			std::string a, b;
			for (int i = 0; i < n; i++) a += "(", b += ")";
			gr.push_back(a + b);
			gr.push_back(repeat("(list ", n) + "1" + b);
			gr.push_back(repeat("(() (var x (lambda () ", n) + "1" + repeat(")) (funcall x))", n));
			if (n < 60) gr.push_back(repeat("(if true (not ", n) + "true" + repeat(") 2)", n));
		}
		for (int n = 0; n <= (th ? 300 : 120); n += th ? 1 : 3) {
			std::string k = std::to_string(n);
			for (auto &t : SV{"(() (var l ()) (var i 0) (while (< i N) (setq l (cons i l)) (setq i (+ i 1))) (length l))", "(() (var v (make-vector N 7)) (var s (make-string v)) (list (length v) (length s)))", "(() (global g ()) (var i 0) (while (< i N) (setq g (lambda () i)) (setq i (+ i 1)) (list i (vector i) (concatenate \"a\" \"b\"))) i)", "(() (defun f (n) (if (= n 0) 0 (+ 1 (self (- n 1))))) (f N))", "(() (var s \"\") (var i 0) (while (< i N) (setq s (concatenate s \"x\")) (setq i (+ i 1))) s)", "(() (var i 0) (while (< i N) (global k (vector i k0)) (setq i (+ i 1))) i)"})
				gr.push_back(put(t, {{'N', k}}));
		}
		s.push_back(listSpace("things which grow", "every construct with every size", gr, [th](const std::string &t) { return agree(t, false, true); }));
		// Sessions of short texts.
		SV tx = {"(global a (list 1 \"b\" 2.5))", "(() (defmacro m (x) (list 'list x x)) (m \"q\"))", "(global f (lambda (x &rest r) (list a x r)))", "(f 1 2)", "(list a", "(car 5)", "(setq a (concatenate \"long text \" \"more long text\"))", "(comptime (list 1 (vector 2)))", "(() (var x 1) (global h (lambda () (setq x (+ x 1)))) (h))", "(list (h) a)", "(undefined-function 5)", "(if)", "(emit (make-instance (make-type) a f))", "(fail)", "\"string\"", "(comptime (global z (list 'k)) z)", "(parse-error \"", "(apply f (vector 1))"};
		for (auto &t : tx) t = unquote(t);
		SV ses;
		for (auto &a : tx) for (auto &b : tx) { ses.push_back(a + "|||" + b + "|||" + a); if (th) for (auto &d : tx) for (auto &e : tx) ses.push_back(a + "|||" + b + "|||" + d + "|||" + e); else for (size_t i = 0; i < tx.size(); i += 3) ses.push_back(a + "|||" + b + "|||" + tx[i]); }
		s.push_back(listSpace("sessions", "every sequence of texts out of " + std::to_string(tx.size()), ses, [th](const std::string &t) { return agree(t, false, true); }));
		return s;
	};
	return runCheck(argc, argv, c);
}
