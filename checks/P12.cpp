// The reader: every text up to a length bound against an independent reader.
#include "../harness/refmain.hpp"
#include <cmath>
static Variant vd, vi;
// Trees are equal when they print alike; floats may differ in their last digits (their format is unspecified).
static bool same(const std::string &a, const std::string &b) {
	if (a == b) return true;
	auto split = [](const std::string &s) {
		std::vector<std::string> r;
		std::string cur;
		for (char c : s) {
			if (c == ' ' || c == '(' || c == ')') { r.push_back(cur); r.push_back(std::string(1, c)); cur.clear(); }
			else cur += c;
		}
		r.push_back(cur);
		return r;
	};
	auto x = split(a), y = split(b);
	if (x.size() != y.size()) return false;
	for (size_t i = 0; i < x.size(); i++) {
		if (x[i] == y[i]) continue;
		char *e1, *e2;
		double p = strtod(x[i].c_str(), &e1), q = strtod(y[i].c_str(), &e2);
		if (e1 == x[i].c_str() || e2 == y[i].c_str() || strcmp(e1, "f") || strcmp(e2, "f")) return false;
		if (p == q) continue;
		if (fabs(p - q) <= 1e-12 * fmax(fabs(p), fabs(q))) continue;
		if (fabs(p) < 1e-305 && fabs(q) < 1e-305) continue;             // underflow
		if (fmin(fabs(p), fabs(q)) > 1e304 && (p < 0) == (q < 0)) continue; // overflow
		return false;
	}
	return true;
}
static shim_t *mk(Variant &v) { shim_cfg c = defaultCfg(); return v.shim_new(&c); }
static std::string expect(const std::string &text) {
	try {
		ref::Reader r(text);
		ref::Ast a = r.read();
		std::string o;
		ref::printAst(a, o);
		return o;
	}
	catch (ref::CtError &) { return "error"; }
}
static Verdict check(const std::string &text) {
	static shim_t *sd, *si; // one reader for many texts: what it answers must not depend on the earlier ones
	static pid_t owner;
	if (owner != getpid()) { sd = mk(vd); si = mk(vi); owner = getpid(); }
	std::string want = expect(text);
	std::string got[2];
	for (int k = 0; k < 2; k++) {
		int e;
		char *r = (k ? vi : vd).shim_parse(k ? si : sd, 0, text.data(), text.size(), &e);
		got[k] = r ? r : "error";
		free(r);
		if (!same(want, got[k])) return bad(std::string(k ? "inference build\n" : "") + "expected: " + want + "\nread:     " + got[k]);
	}
	if (want == "error") {
		Verdict v = good("error", 2);
		v.nontrivial = false;
		return v;
	}
	return good(got[0], 2);
}
// The whole front end: a text which reads as data evaluates to it when quoted, whatever surrounds it.
static Verdict evaluate(const std::string &text) {
	std::string want;
	try {
		ref::Reader r(text);
		ref::Ast a = r.read();
		ref::Interp in;
		want = ref::print(in.quote(a));
	}
	catch (ref::CtError &) { want = "error"; }
	std::string seen;
	for (const char *f : {"(quote %)", "\n (quote\n% )", "; c\n(quote % ; d\n)"}) {
		std::string src = f;
		src.replace(src.find('%'), 1, text);
		// a comment or an open string swallows what follows: read the whole text again
		std::string whole;
		try {
			ref::Reader r(src);
			ref::Ast a = r.read();
			if (a.k == ref::A::Expr && a.e.size() == 2 && a.e[0].isId("quote")) { ref::Interp in; whole = ref::print(in.quote(a.e[1])); }
			else whole = "error";
		}
		catch (ref::CtError &) { whole = "error"; }
		Outcome o = evalOnce(vd, defaultCfg(), src);
		std::string got = o.status == SHIM_OK ? o.value : o.status == SHIM_COMPILE_ERROR ? "error" : o.observable();
		if (!same(whole, got)) return bad("source:   " + src + "\nexpected: " + whole + "\nobserved: " + got + "\n" + o.message);
		seen += got + "\n";
	}
	return good(seen, 3);
}
static Space texts(const std::string &name, const std::string &alphabet, int maxLen, std::string pre, std::string post, std::function<Verdict(const std::string &)> run) {
	Space s;
	s.name = name;
	s.bounds = "every text of length <= " + std::to_string(maxLen) + " over the alphabet " + eng::esc(alphabet) + (pre.empty() && post.empty() ? "" : " within " + pre + "..." + post);
	uint64_t n = 0, p = 1;
	for (int l = 0; l <= maxLen; l++, p *= alphabet.size()) n += p;
	s.count = n;
	s.make = [=](uint64_t i) {
		std::string r;
		uint64_t p = 1;
		int l = 0;
		while (i >= p) { i -= p; p *= alphabet.size(); l++; }
		for (int k = 0; k < l; k++) { r += alphabet[i % alphabet.size()]; i /= alphabet.size(); }
		return pre + r + post;
	};
	s.run = run;
	return s;
}
int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P12";
	c.level = "exploration";
	c.rule = "distinct syntax trees read (rejected texts count as trivial)";
	c.assumptions = {"floats are compared to 12 significant digits, as their format is unspecified", "parenthesis inference is off (P14 has it)"};
	c.setup = [](const std::string &lib) { vd.load(lib, "default"); vi.load(lib, "inference"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		s.push_back(texts("texts", "()\"\\;#\n a1-.ex", th ? 6 : 5, "", "", check));
		s.push_back(texts("structure", "()#\"; a", th ? 8 : 6, "", "", check));
		s.push_back(texts("numbers", "019-.exA+", th ? 7 : 5, "", "", check));
		s.push_back(texts("numbers in a list", "019-.eXf", th ? 6 : 5, "(", " 7)", check));
		s.push_back(texts("long decimals", "09-.e", th ? 6 : 5, "1234567", "5", check));
		s.push_back(texts("words", "trufalse#-", 6, "", "", check));
		s.push_back(texts("after true", "tx1- ()\"", 3, "true", "", check));
		s.push_back(texts("after false", "ex1- ()\"", 3, "(false", ")", check));
		s.push_back(texts("string bodies", "\"\\na (;\n", th ? 7 : 6, "\"", "\"", check));
		s.push_back(texts("string bodies in a list", "\"\\nq ", 6, "(a\"", "\")", check));
		s.push_back(texts("comments", ";\n\r\"() a", th ? 7 : 6, "(", ")", check));
		{
			std::string all;
			for (int i = 0; i < 256; i++) all += (char) i;
			s.push_back(texts("all bytes", all, th ? 3 : 2, "", "", check));
			s.push_back(texts("all bytes in a list", all, 2, "(a ", " b)", check));
			s.push_back(texts("all bytes in a string", all, 2, "(\"", "\")", check));
		}
		std::vector<std::string> v;
		for (int n : {1, 2, 10, 100, 500, 900, 990, 997, 998, 999, 1000, 1001, 1002, 1200, 5000})
			for (const char *f : {"(", "#(", "(a ", "(() "}) for (int close : {0, 1, 2}) for (const char *core : {"", "x", "\"s\""}) {
				std::string t;
				for (int i = 0; i < n; i++) t += f;
				t += core;
				for (int i = 0; i < (close == 0 ? 0 : close == 1 ? n : n - 1); i++) t += ")";
				v.push_back(t);
			}
		s.push_back(listSpace("nesting", "nesting depths around the reader's limit, closed, unclosed and short of one parenthesis", v, check));
		v.clear();
		for (const char *z : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"99999999999999999999", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "-0xffffffffffffffff", "00000000000000000000000007",
			"1e308", "1e309", "1e-308", "1e-400", "1e99999", "1e999999999999999999999", "-1e999999999999", "1e-99999999999", "0.00000000000000000000000000000001", "1.000000000000000000000000000001",
			"123456789012345678901234567890.5", "0e5", "0e-0", "-0.", "-.5e-3", "5.", "-5.", "5.e2", "1e5", "1E5", "0x", "-0x", "-", "--1", "1-", ".", "-.", ".e5", "1e", "1e-", "#", "##", "#true", "#1", "#1.5"})
			for (const char *f : {"%", "(%)", "(% )", " %", "% ", "(a %(b))", "%\"s\"", "%;c"}) {
				std::string t = f;
				t.replace(t.find('%'), 1, z);
				v.push_back(t);
			}
		s.push_back(listSpace("number edges", "range edges of integers and floats in several contexts", v, check));
		Space q = texts("quoted texts evaluated", "()\"\\;#\n a1-.e", th ? 5 : 3, "", "", evaluate);
		s.push_back(q);
		return s;
	};
	return runCheck(argc, argv, c);
}
