// Parenthesis inference: every row of tokens to a bounded length, every history of declarations and scopes, and every
// program of the other checks with every subset of its removable parentheses, against an independent inferrer; what the
// programs do, against the fully parenthesised program without inference.
#include "../harness/refcheck.hpp"
#include "../harness/infer.hpp"
typedef std::vector<std::string> SV;
typedef ref::Ast Ast;
static Variant va, vp, vd;

static shim_cfg cfg() {
	shim_cfg c = defaultCfg();
	c.infer = 1;
	c.inferObjects = 1000;
	return c;
}
static std::string show(const Ast &a) { std::string o; ref::printAst(a, o); return o; }
static bool g_unsupported;
static std::string expect(const std::string &text, std::string *why = nullptr) {
	g_unsupported = false;
	try { return show(Infer().run(text)); }
	catch (ref::CtError &e) { if (why) *why = e.what; return "error"; }
	catch (ref::Unsupported &e) { if (why) *why = e.what; g_unsupported = true; return "unsupported"; }
}
// One inferrer for many texts: what it answers must not depend on earlier ones.
static std::string infer(Variant &v, const std::string &text) {
	static shim_t *s[2];
	static pid_t owner;
	static int n[2];
	if (owner != getpid()) { s[0] = s[1] = nullptr; owner = getpid(); }
	int k = &v == &va;
	if (s[k] && ++n[k] % 256 == 0) { v.shim_free(s[k]); s[k] = nullptr; }
	if (!s[k]) { shim_cfg c = cfg(); s[k] = v.shim_new(&c); }
	int e;
	char *r = v.shim_parse(s[k], 1, text.data(), text.size(), &e);
	std::string o = r ? r : "error";
	free(r);
	return o;
}
static Verdict tree(Variant &v, const std::string &text) {
	std::string why, want = expect(text, &why);
	if (g_unsupported) return skip();
	std::string got = infer(v, text);
	if (got != want) return bad("expected: " + want + " " + why + "\ninferred: " + got);
	Verdict r = good(want);
	if (want == "error") { r.sig = fnv("error " + why); r.nontrivial = true; }
	return r;
}
// Many texts which the inferrer should accept, as the forms of one scope.
static Verdict trees(Variant &v, const std::string &group) {
	SV texts = splitSession(group);
	if (texts.size() == 1) return tree(v, group);
	std::string all = "(()", want = "(()";
	for (auto &t : texts) { all += " " + t; want += " " + expect(t); }
	std::string got = infer(v, all + ")");
	if (got == want + ")") return good(want, texts.size());
	for (auto &t : texts) {
		Verdict r = tree(v, t);
		if (!r.ok) { r.detail = t + "\n" + r.detail; return r; }
	}
	return bad("expected: " + want + ")\ninferred: " + got);
}
// All texts: the acceptable ones in groups; of the others those which `single` wants.
static SV grouped(const SV &texts, std::function<bool(const std::string &)> single) {
	SV r;
	std::string g;
	size_t n = 0;
	for (auto &t : texts) {
		std::string w = expect(t);
		if (g_unsupported) continue;
		if (w == "error") { if (single(t)) r.push_back(t); continue; }
		g += (n++ ? "|||" : "") + t;
		if (n == 24) { r.push_back(g); g.clear(); n = 0; }
	}
	if (n) r.push_back(g);
	return r;
}

// Source text of a tree. The calls in `bare` lose their parentheses.
static void write(const Ast &a, const std::set<const Ast *> &bare, std::string &o) {
	if (a.k == ref::A::Id) { if (a.mark) o += '#'; o += a.s; return; }
	if (a.k == ref::A::Str) {
		o += '"';
		for (char c : a.s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
		o += '"';
		return;
	}
	if (a.k == ref::A::Float) { char b[64]; snprintf(b, sizeof b, "%.17g", a.d); o += b; if (!strpbrk(b, ".e")) o += ".0"; return; }
	if (a.k != ref::A::Expr) { o += show(a); return; }
	bool in = !bare.count(&a);
	if (in) o += a.mark ? "#(" : "(";
	for (size_t i = 0; i < a.e.size(); i++) { if (i) o += ' '; write(a.e[i], bare, o); }
	if (in) o += ')';
}
static std::string source(const Ast &a, const std::set<const Ast *> &bare = {}) { std::string o; write(a, bare, o); return o; }
// A program which was written for no inference: quoted forms are marked, unknown names declared.
static void mark(Ast &a) {
	if (a.k != ref::A::Expr || a.e.empty()) return;
	if (a.e[0].isId("quote") && a.e.size() == 2) {
		Ast &q = a.e[1];
		if (q.k == ref::A::Id || (q.k == ref::A::Expr && !q.e.empty())) q.mark = true;
		return;
	}
	for (auto &x : a.e) mark(x);
}
// False if the program cannot be written for the inferrer.
static bool prepare(const std::string &text, Ast &out) {
	Ast a;
	try { ref::Reader r(text); a = r.read(); mark(a); } catch (ref::CtError &) { return false; }
	SV names;
	for (int round = 0; round < 8; round++) {
		Ast b;
		if (names.empty()) b = a;
		else {
			b.e.emplace_back();
			for (auto &n : names) {
				Ast d, i;
				i.k = ref::A::Id;
				i.s = "declare"; d.e.push_back(i);
				i.s = n; d.e.push_back(i);
				i.s = "L"; d.e.push_back(i);
				b.e.push_back(d);
			}
			b.e.push_back(a);
		}
		std::string why, t = expect(source(b), &why);
		if (g_unsupported) return false;
		if (t != "error") {
			Ast c = b;
			Infer().unmark(c);
			out = b;
			return t == show(c); // otherwise a name which looks like a call
		}
		if (why.compare(0, 11, "undeclared ")) return false;
		names.push_back(why.substr(11));
	}
	return false;
}
static void calls(const Ast &a, bool inner, std::vector<const Ast *> &out) {
	if (a.k != ref::A::Expr || a.e.empty() || a.mark) return;
	if (inner && a.e[0].k == ref::A::Id && !a.e[0].mark) out.push_back(&a);
	for (size_t i = 0; i < a.e.size(); i++) calls(a.e[i], i > 0, out);
}
static std::string behaviour(Variant &v, const shim_cfg &c, const std::string &t) {
	SessionOutcome o = evalSession(v, c, t);
	return canonTypes(o.observable);
}
// The program with every subset of its removable parentheses left out.
static Verdict subsets(const std::string &text, size_t all) {
	Ast a;
	if (!prepare(text, a)) return skip();
	std::string full = source(a), want = expect(full);
	uint64_t n = 0;
	std::string got = infer(vp, full);
	if (got != want) return bad("fully parenthesised: " + full + "\nexpected: " + want + "\ninferred: " + got);
	std::vector<const Ast *> c, can;
	calls(a, false, c);
	for (auto x : c) {
		std::string t = source(a, {x});
		std::string w = expect(t);
		if (w == want) can.push_back(x);
		else if (!g_unsupported && n < 40) {
			// Parentheses which matter: still, the inferrer agrees with its description.
			got = infer(vp, t);
			n++;
			if (got != w) return bad("program:  " + t + "\nexpected: " + w + "\ninferred: " + got);
		}
	}
	auto one = [&](const std::set<const Ast *> &s) -> std::string {
		std::string t = source(a, s), w = expect(t);
		if (g_unsupported) return "";
		n++;
		std::string g = infer(vp, t);
		return g == w ? "" : "program:  " + t + "\nexpected: " + w + "\ninferred: " + g;
	};
	std::string e;
	if (can.size() <= all) {
		for (size_t m = 1; m < (1u << can.size()) && e.empty(); m++) {
			std::set<const Ast *> s;
			for (size_t i = 0; i < can.size(); i++) if (m >> i & 1) s.insert(can[i]);
			e = one(s);
		}
	}
	else for (size_t i = 0; i < can.size() && e.empty(); i++) {
		e = one({can[i]});
		std::set<const Ast *> s(can.begin(), can.end());
		s.erase(can[i]);
		if (e.empty()) e = one(s);
	}
	if (!e.empty()) return bad(e);
	// What it does.
	std::string bare = source(a, std::set<const Ast *>(can.begin(), can.end()));
	bool same = expect(bare) == want;
	std::string d = behaviour(vd, defaultCfg(), text);
	std::string o = behaviour(vp, cfg(), full);
	if (o != d) return bad("without inference: " + d + "\nwith inference: " + full + "\n  " + o);
	if (same) {
		o = behaviour(va, cfg(), bare);
		if (o != d) return bad("without inference: " + d + "\nwith inference: " + bare + "\n  " + o);
	}
	return good(bare + d, n + 3);
}

int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P14";
	c.level = "exploration";
	c.rule = "distinct inferred trees (or kinds of error), and distinct programs with the parentheses left out together with what they do";
	c.assumptions = {"docs/parenthesis-inference.md defines inference; a declaration inside a form which is not inferred, nested types, and parameter lists which are no lists of names are not specified"};
	c.setup = [](const std::string &lib) { va.load(lib, "inference"); vp.load(lib, "inference-plain"); vd.load(lib, "default"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		auto words = [&](const std::string &name, const std::string &before, SV tokens, size_t len, const std::string &after, Variant *v) {
			// Every balanced row of up to len tokens.
			auto rows = std::make_shared<SV>();
			SV longest;
			std::function<void(const std::string &, size_t, int, bool)> go = [&](const std::string &t, size_t n, int depth, bool open) {
				if (!depth && n) rows->push_back(before + t + after);
				if (!depth && n == len) longest.push_back(rows->back());
				if (n == len) return;
				for (auto &x : tokens) {
					int d = depth;
					if (x == "(" || x == "#(") d++;
					if (x == ")") d--;
					if (d < 0 || d > (int) (len - n - 1)) continue;
					go(t + (x == ")" ? "" : " ") + x, n + 1, d, false);
				}
			};
			go("", 0, 0, false);
			auto shorter = std::make_shared<std::set<std::string>>(longest.begin(), longest.end());
			SV g = grouped(*rows, [shorter](const std::string &t) { return !shorter->count(t); });
			s.push_back(listSpace(name, "all balanced rows of up to " + std::to_string(len) + " of " + std::to_string(tokens.size()) + " tokens (unacceptable ones: up to " + std::to_string(len - 1) + "): " + std::to_string(rows->size()), g, [v](const std::string &t) { return trees(*v, t); }));
		};
		std::string decl = "(() (declare f0 ()) (declare f1 (I)) (declare f2 (I I)) (declare fl (L I)) (declare r0 (&rest 0 I)) (declare r2 (I &rest 2 I)) (declare rn (I &rest -1 L)) (declare v L) (declare i I) ";
		words("rows", decl, {"f0", "f1", "f2", "fl", "r0", "r2", "rn", "v", "i", "u", "1", "#f2", "(", "#(", ")"}, th ? 6 : 5, ")", &vp);
		words("rows (functions only)", "(() (declare f1 (I)) (declare f2 (I I)) (declare r2 (&rest 2 I)) (declare v L) ", {"f1", "f2", "r2", "v", "(", ")"}, th ? 8 : 7, ")", &vp);
		words("rows (call)", decl + "(f2 ", {"f0", "f1", "f2", "fl", "r2", "rn", "v", "1", "#f2", "(", ")"}, th ? 5 : 4, "))", &vp);
		words("rows (instrumented build)", decl, {"f0", "f1", "f2", "fl", "r2", "1", "u", "#f2", "(", "#(", ")"}, th ? 4 : 3, ")", &va);
		words("variables", "(() (declare f (I)) (defun g (y) y) ", {"var", "global", "setq", "f", "g", "x", "1", "(", "(()", ")"}, th ? 6 : 5, ")", &vp);
		words("lambdas", "(() (declare f (I)) ", {"lambda", "defun", "f", "g", "self", "(x)", "()", "(x &rest y)", "x", "y", "1", "(", ")"}, th ? 6 : 5, ")", &vp);
		words("declarations", "(() ", {"declare", "f", "x", "(I I)", "(L I)", "L", "I", "(&rest 1 I)", "1", "(", "(()", ")"}, th ? 6 : 5, ")", &vp);
		// Types of every shape, also those which mean nothing: no crash, and the inferrer still works.
		SV types, t1 = th ? SV{"I", "L", "1", "-2", "\"s\"", "()", "&rest", "1.5"} : SV{"I", "L", "-2", "\"s\"", "()", "&rest"};
		for (auto &a : t1) { types.push_back(a); types.push_back("(" + a + ")"); for (auto &b : t1) { types.push_back("(" + a + " " + b + ")"); types.push_back("((" + a + " " + b + "))"); types.push_back("((" + a + ") " + b + ")"); types.push_back("(" + a + " (" + b + "))"); for (auto &c : t1) { types.push_back("(" + a + " " + b + " " + c + ")"); types.push_back("((" + a + " " + b + ") " + c + ")"); types.push_back("(" + a + " (" + b + " " + c + "))"); for (auto &d : t1) { if (th || b == "&rest") types.push_back("(" + a + " " + b + " " + c + " " + d + ")"); if (th || (a != "&rest" && d != "&rest" && b != "1.5")) types.push_back("((" + a + " " + b + ") (" + c + " " + d + "))"); if (th) { types.push_back("(" + a + " (" + b + " (" + c + " " + d + ")))"); types.push_back("(" + a + " &rest " + b + " (" + c + " " + d + "))"); } } } } }
		SV decls;
		for (auto &t : types) {
			decls.push_back("(() (declare f " + t + ") (f 1 2))");
			decls.push_back("(() declare f " + t + " f 1 2 3)");
			decls.push_back("(() (declare f " + t + " (infer-and-get-next-argument)) f x y)");
		}
		s.push_back(listSpace("types", "declarations with all types of up to 4 words (partly) in several nestings: no crash, and the next text is inferred correctly", decls, [](const std::string &t) {
			std::string got = infer(va, t), want = expect(t);
			if (!g_unsupported && got != want) return bad("expected: " + want + "\ninferred: " + got);
			std::string probe = infer(va, "(() (declare f (I I)) f 1 f 2 3)");
			if (probe != expect("(() (declare f (I I)) f 1 f 2 3)")) return bad("afterwards: " + probe);
			return good(got);
		}));
		// Histories of forms, each of which may declare something, then a use of every name.
		SV forms = {"(declare f (I))", "(declare f (I I))", "declare f (L I)", "declare f ()", "(declare f L)", "(declare f (&rest 2 I))", "(var f 1)", "var f f 1 2", "global f lambda (a) a", "(setq f 5)", "(defun f (a b) f 1 2)", "defun f () 1", "defun f (f) f", "defun f (a &rest b) self 1 2 3",
			"(lambda (f) f 1)", "lambda () declare f (I I)", "(() (declare f (I I)) f 1 2)", "(() defun f (x) x  f 3)", "(defmacro f (x) x)", "defmacro f () ()", "(list (declare f (I)) f 1)", "list", "(if true declare f () f)", "#(f f)", "(#f f)",
			"(declare f (L I) (declare-identifier (infer-and-get-next-argument) (quote #L)))", "(declare f (L L &rest 1 I) (() (declare-identifier (infer-and-get-next-argument) (quote #L)) (declare-identifier (infer-and-get-next-argument) (quote #(I)))))", "f g 1", "(f g 1)", "f 1 2", "g", "(f 1 2)", "f", "(f g h h 1)"};
		for (auto &f : forms) if (f.find("(() (declare-id") != std::string::npos) f = "(declare f (L L &rest 1 I) ((declare-identifier (infer-and-get-next-argument) (quote #L)) (declare-identifier (infer-and-get-next-argument) (quote #(I)))))";
		SV hist;
		for (auto &a : forms) for (auto &b : forms) {
			for (auto &u : {"f 1 2 3", "(f 1 2)", "(f 1)", "list g", "f f f 1 1 1 1", "(f g h 1) g h 1", "(f)", "(list f)"}) hist.push_back("(() " + a + " " + b + " " + u + ")");
			for (auto &d : forms) {
				hist.push_back("(() " + a + " " + b + " " + d + " f 1 2 3)");
				hist.push_back("(() " + a + " (() " + b + " " + d + ") f 1 2 3)");
				hist.push_back("(() " + a + " (list " + b + " f 1 2 3) " + d + ")");
				hist.push_back("(() (declare f (I I)) (defun k (f) " + a + " " + b + ") " + d + " f 1 2 3)");
				if (th) for (auto &g : forms) { hist.push_back("(() " + a + " " + b + " " + d + " " + g + " f 1 2 3)"); hist.push_back("(() " + a + " (() " + b + " (() " + d + ") " + g + ") f 1 2 3)"); }
			}
		}
		size_t k = 0;
		s.push_back(listSpace("histories", "every sequence of up to 3 of " + std::to_string(forms.size()) + " forms in 4 scope structures, and uses of the names (unacceptable ones: one in " + (th ? "2" : "12") + ")", grouped(hist, [&](const std::string &) { return k++ % (th ? 2 : 12) == 0; }), [](const std::string &t) { return trees(vp, t); }));
		SV dup;
		for (size_t i = 0; i < hist.size(); i += th ? 11 : 97) dup.push_back(hist[i]);
		s.push_back(listSpace("histories (instrumented build)", "a regular part of these", dup, [](const std::string &t) { return tree(va, t); }));
		for (Family f : corpus::all()) {
			f.bound(th ? 40000 : 500);
			if (!f.count) continue;
			Space sp = famSpace(f, [th](const std::string &t) {
				if (t.find("|||") != std::string::npos || !refSession(t).inDomain) return skip();
				return subsets(t, th ? 8 : 4);
			});
			s.push_back(sp);
		}
		return s;
	};
	return runCheck(argc, argv, c);
}
