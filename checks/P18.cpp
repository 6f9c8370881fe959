// Containers and conversions: every sequence of operations to a depth, every small input, on the real code against
// mathematical models. Each build configuration's library is driven (both allocators, both copies of the memory helpers).
#include <climits>
#include <cmath>
#include "../harness/engine.hpp"
struct lc_t;
struct Lib {
	Variant v;
	lc_t *(*lc_new)(size_t);
	void (*lc_delete)(lc_t *);
	size_t (*lc_usage)(lc_t *);
	void (*la_init)(lc_t *, size_t, int);
	int (*la_quit)(lc_t *), (*la_push)(lc_t *, void *), (*la_pushSeveral)(lc_t *, const void *, size_t), (*la_pop)(lc_t *, void *), (*la_popSeveral)(lc_t *, void *, size_t),
		(*la_getTop)(lc_t *, void *), (*la_setTop)(lc_t *, void *), (*la_get)(lc_t *, void *, long), (*la_set)(lc_t *, const void *, long), (*la_clear)(lc_t *);
	size_t (*la_length)(lc_t *);
	const char *(*la_elements)(lc_t *);
	void (*lt_init)(lc_t *, long);
	int (*lt_quit)(lc_t *), (*lt_insert)(lc_t *, const char *, size_t, long);
	long (*lt_find)(lc_t *, const char *, size_t);
	void (*ls_sort)(int, void *, size_t, size_t, long, long, int (*)(const void *, const void *, const void *), const void *);
	int (*lx_fromInt)(lc_t *, long), (*lx_fromSize)(lc_t *, size_t), (*lx_fromUint8)(lc_t *, unsigned char), (*lx_fromBool)(lc_t *, int), (*lx_toInt)(long *, const char *, size_t),
		(*lx_toDouble)(double *, const char *, size_t), (*lx_toBool)(int *, const char *, size_t), (*lx_compare)(const char *, size_t, const char *, size_t),
		(*lx_comparePartial)(const char *, const char *, size_t), (*lx_class)(unsigned char), (*lx_lower)(int), (*lx_upper)(int), (*lx_hex)(unsigned char);
	void (*lx_copy)(void *, const void *, size_t, int), (*lx_clear)(void *, size_t);
	size_t (*lx_strlen)(const char *);
	void load(const std::string &dir, const std::string &n) {
		v.load(dir, n);
#define F(f) f = (decltype(f)) dlsym(v.handle, #f); if (!f) { fprintf(stderr, "no " #f "\n"); exit(3); }
		F(lc_new) F(lc_delete) F(lc_usage) F(la_init) F(la_quit) F(la_push) F(la_pushSeveral) F(la_pop) F(la_popSeveral) F(la_getTop) F(la_setTop) F(la_get) F(la_set) F(la_clear)
		F(la_length) F(la_elements) F(lt_init) F(lt_quit) F(lt_insert) F(lt_find) F(ls_sort) F(lx_fromInt) F(lx_fromSize) F(lx_fromUint8) F(lx_fromBool) F(lx_toInt) F(lx_toDouble)
		F(lx_toBool) F(lx_compare) F(lx_comparePartial) F(lx_class) F(lx_lower) F(lx_upper) F(lx_hex) F(lx_copy) F(lx_clear) F(lx_strlen)
	}
};
static Lib g_libs[2];
static std::string g_where;
extern "C" void __asan_on_error() { fprintf(stderr, "ERROR: AddressSanitizer (while exploring) %s\n", g_where.c_str()); }
static std::string num(long x) { return std::to_string(x); }
static std::string field(const std::string &t, const std::string &k) {
	size_t p = (" " + t).find(" " + k + "=");
	if (p == std::string::npos) return "";
	p += k.size() + 1;
	return t.substr(p, t.find(' ', p) - p);
}
static Lib &lib(const std::string &t) { return g_libs[field(t, "lib") == "portable"]; }

// ---- arrays ----
struct ArrayRun {
	Lib &l;
	size_t size;
	int strategy;
	uint64_t steps = 0, leaves = 0;
	std::set<std::string> states;
	std::string error;
	static const int OPS = 27;
	int counter = 0;
	std::string value(int k) { std::string s(size, 0); for (size_t i = 0; i < size; i++) s[i] = (char) (k * 37 + i * 11 + 1); return s; }
	std::string block(const std::string &s) { return s; }
	static std::string name(int op) {
		static const char *n[OPS] = {"push", "push(null)", "push 0", "push 1", "push 2", "push 5", "push 3(null)", "pop", "pop(discard)", "pop 0", "pop 1", "pop 2", "pop 3(discard)", "getTop", "setTop",
			"get 0", "get 1", "get last", "get length", "get -1", "set 0", "set last", "set length", "set -1", "clear", "quit", "push itself"};
		return n[op];
	}
	// One operation on the array and on the model; "" or what differs.
	std::string step(lc_t *c, std::vector<std::string> &m, int op) {
		long n = (long) m.size();
		auto out = [&](size_t k) { return (char *) malloc(k ? k : 1); }; // exact size: overruns are seen
		auto several = [&](int k, bool null) -> std::string {
			char *b = out(k * size);
			std::vector<std::string> vs;
			for (int i = 0; i < k; i++) { vs.push_back(null ? std::string(size, 0) : value(++counter)); memcpy(b + i * size, vs[i].data(), size); }
			int e = l.la_pushSeveral(c, null ? nullptr : b, k);
			free(b);
			if (e) return "error " + num(e);
			m.insert(m.end(), vs.begin(), vs.end());
			return "";
		};
		auto popSeveral = [&](int k, bool discard) -> std::string {
			char *b = out(k * size);
			int e = l.la_popSeveral(c, discard ? nullptr : b, k);
			std::string got(b, discard || e ? 0 : k * size), want;
			free(b);
			if (k > n) return e ? "" : "popped more than there is";
			if (e) return "error " + num(e);
			if (!discard) for (long i = n - k; i < n; i++) want += m[i];
			m.resize(n - k);
			return got == want ? "" : "wrong elements popped";
		};
		auto get = [&](long i) -> std::string {
			char *b = out(size);
			int e = l.la_get(c, b, i);
			std::string got(b, e ? 0 : size);
			free(b);
			if (i < 0 || i >= n) return e ? "" : "an element out of range was read";
			return e ? "error " + num(e) : got == m[i] ? "" : "wrong element";
		};
		auto set = [&](long i) -> std::string {
			std::string v = value(++counter);
			char *b = out(size);
			memcpy(b, v.data(), size);
			int e = l.la_set(c, b, i);
			free(b);
			if (i < 0 || i >= n) return e ? "" : "an element out of range was written";
			if (e) return "error " + num(e);
			m[i] = v;
			return "";
		};
		switch (op) {
		case 0: case 1: {
			std::string v = op ? std::string(size, 0) : value(++counter);
			char *b = out(size);
			memcpy(b, v.data(), size);
			int e = l.la_push(c, op ? nullptr : b);
			free(b);
			if (e) return "error " + num(e);
			m.push_back(v);
			return "";
		}
		case 2: return several(0, false);
		case 3: return several(1, false);
		case 4: return several(2, false);
		case 5: return several(5, false);
		case 6: return several(3, true);
		case 7: case 8: {
			char *b = out(size);
			int e = l.la_pop(c, op == 7 ? b : nullptr);
			std::string got(b, e || op == 8 ? 0 : size);
			free(b);
			if (!n) return e ? "" : "popped from an empty array";
			if (e) return "error " + num(e);
			std::string want = m.back();
			m.pop_back();
			return op == 8 || got == want ? "" : "wrong element popped";
		}
		case 9: return popSeveral(0, false);
		case 10: return popSeveral(1, false);
		case 11: return popSeveral(2, false);
		case 12: return popSeveral(3, true);
		case 13: {
			char *b = out(size);
			int e = l.la_getTop(c, b);
			std::string got(b, e ? 0 : size);
			free(b);
			if (!n) return e ? "" : "the top of an empty array was read";
			return e ? "error " + num(e) : got == m.back() ? "" : "wrong top";
		}
		case 14: {
			std::string v = value(++counter);
			char *b = out(size);
			memcpy(b, v.data(), size);
			int e = l.la_setTop(c, b);
			free(b);
			if (!n) return e ? "" : "the top of an empty array was written";
			if (e) return "error " + num(e);
			m.back() = v;
			return "";
		}
		case 15: return get(0);
		case 16: return get(1);
		case 17: return n ? get(n - 1) : "";
		case 18: return get(n);
		case 19: return get(-1);
		case 20: return set(0);
		case 21: return n ? set(n - 1) : "";
		case 22: return set(n);
		case 23: return set(-1);
		case 24: {
			int e = l.la_clear(c);
			if (e) return "error " + num(e);
			m.clear();
			return "";
		}
		case 25: {
			int e = l.la_quit(c);
			if (e) return "error " + num(e);
			l.la_init(c, size, strategy);
			m.clear();
			return "";
		}
		case 26: { // a copy of the array's own contents, taken beforehand
			std::string all;
			for (auto &x : m) all += x;
			char *b = out(all.size());
			memcpy(b, all.data(), all.size());
			int e = l.la_pushSeveral(c, b, n);
			free(b);
			if (e) return "error " + num(e);
			std::vector<std::string> d = m;
			m.insert(m.end(), d.begin(), d.end());
			return "";
		}
		}
		return "";
	}
	std::string compare(lc_t *c, std::vector<std::string> &m) {
		if (l.la_length(c) != m.size()) return "length " + num(l.la_length(c)) + " instead of " + num(m.size());
		const char *p = l.la_elements(c);
		for (size_t i = 0; i < m.size(); i++) if (memcmp(p + i * size, m[i].data(), size)) return "element " + num(i) + " differs";
		return "";
	}
	// Runs the sequence from the start.
	bool sequence(const std::vector<int> &ops) {
		g_where = "";
		for (int o : ops) g_where += (g_where.empty() ? "" : "; ") + name(o);
		lc_t *c = l.lc_new(1 << 14);
		size_t start = l.lc_usage(c);
		l.la_init(c, size, strategy);
		std::vector<std::string> m;
		counter = 0;
		std::string bad;
		for (int o : ops) {
			steps++;
			bad = step(c, m, o);
			if (bad.empty()) bad = compare(c, m);
			if (!bad.empty()) { bad = name(o) + ": " + bad; break; }
		}
		if (bad.empty() && l.la_quit(c)) bad = "quit failed";
		std::string s;
		for (auto &x : m) s += x;
		states.insert(s);
		l.lc_delete(c);
		leaves++;
		if (!bad.empty()) { error = bad + "\n" + g_where; return false; }
		return true;
	}
	bool all(std::vector<int> &ops, int depth) {
		if ((int) ops.size() == depth) return sequence(ops);
		for (int o = 0; o < OPS; o++) {
			ops.push_back(o);
			bool r = all(ops, depth);
			ops.pop_back();
			if (!r) return false;
		}
		return true;
	}
};
static Verdict arrays(const std::string &t) {
	ArrayRun r{lib(t), (size_t) std::stoul(field(t, "element")), field(t, "strategy") == "double"};
	std::vector<int> ops{atoi(field(t, "first").c_str())};
	if (!r.all(ops, atoi(field(t, "depth").c_str()))) return bad(r.error);
	Verdict v = good(t, (uint32_t) r.steps);
	v.states = r.states.size();
	return v;
}

// ---- tries ----
static std::vector<std::string> words(const std::string &alphabet, int max) {
	std::vector<std::string> r{""};
	for (size_t b = 0, n = 0; (int) n < max; n++) {
		size_t e = r.size();
		for (size_t i = b; i < e; i++) for (char c : alphabet) r.push_back(r[i] + c);
		b = e;
	}
	return r;
}
struct TrieRun {
	Lib &l;
	std::vector<std::string> keys, probes;
	uint64_t steps = 0;
	std::set<std::map<std::string, long>> states;
	std::string error;
	bool sequence(const std::vector<int> &s, long null) {
		g_where = "null=" + num(null);
		for (int k : s) g_where += " \"" + eng::esc(keys[k]) + "\"";
		lc_t *c = l.lc_new(1 << 16);
		l.lt_init(c, null);
		std::map<std::string, long> m{{"", null}};
		std::string bad;
		long v = 0;
		for (size_t i = 0; i < s.size() && bad.empty(); i++) {
			steps++;
			const std::string &k = keys[s[i]];
			char *b = (char *) malloc(k.size() ? k.size() : 1);
			memcpy(b, k.data(), k.size());
			int e = l.lt_insert(c, b, k.size(), v);
			free(b);
			if (e) { bad = "insertion failed"; break; }
			m[k] = v++;
			if (i + 1 < s.size()) continue; // every prefix is a sequence of its own
			for (auto &p : probes) {
				char *q = (char *) malloc(p.size() ? p.size() : 1);
				memcpy(q, p.data(), p.size());
				long got = l.lt_find(c, q, p.size()), want = m.count(p) ? m[p] : -1;
				free(q);
				if (got != want) { bad = "\"" + eng::esc(p) + "\" is " + num(got) + " instead of " + num(want); break; }
			}
		}
		states.insert(m);
		if (l.lt_quit(c) && bad.empty()) bad = "quit failed";
		l.lc_delete(c);
		if (!bad.empty()) { error = bad + "\n" + g_where; return false; }
		return true;
	}
	bool all(std::vector<int> &s, int depth, long null) {
		if (!sequence(s, null)) return false;
		if ((int) s.size() == depth) return true;
		for (size_t k = 0; k < keys.size(); k++) {
			s.push_back((int) k);
			bool r = all(s, depth, null);
			s.pop_back();
			if (!r) return false;
		}
		return true;
	}
};
static Verdict tries(const std::string &t) {
	TrieRun r{lib(t)};
	int set = atoi(field(t, "keys").c_str());
	if (set == 0) r.keys = words("ab", 3), r.probes = words("abc", 4);
	else if (set == 1) r.keys = words(std::string("\0\xff", 2), 2), r.probes = words(std::string("\0\xff", 2) + "a", 3);
	else {
		r.keys = {"defun", "defmacro", "def", "d", "var", "variable", "v", "while", "when", "set-car", "set-cdr", "set", "vector-length", "vector", "unless"};
		r.probes = r.keys;
		for (auto &k : r.keys) for (size_t i = 0; i < k.size(); i++) r.probes.push_back(k.substr(0, i)), r.probes.push_back(k.substr(0, i) + "!"), r.probes.push_back(k + k.substr(i));
	}
	std::vector<int> s;
	std::istringstream is(field(t, "first"));
	std::string x;
	while (std::getline(is, x, ',')) s.push_back(std::stoi(x));
	if (!r.all(s, atoi(field(t, "depth").c_str()), atol(field(t, "null").c_str()))) return bad(r.error);
	Verdict v = good(t, (uint32_t) r.steps);
	v.states = r.states.size();
	return v;
}

// ---- sorting ----
static size_t g_size;
static uint64_t g_calls;
static const void *g_context;
static const char *g_low, *g_high;
static bool g_range;
static int cmp(const void *a, const void *b, const void *context) {
	g_calls++;
	if (context != g_context) g_range = false;
	int d = *(const signed char *) a - *(const signed char *) b;
	return *(const int *) context < 0 ? -d : d;
}
static Verdict sorts(const std::string &t) {
	Lib &l = lib(t);
	int how = atoi(field(t, "how").c_str()), n = atoi(field(t, "length").c_str()), k = atoi(field(t, "values").c_str()), dir = atoi(field(t, "direction").c_str());
	size_t size = std::stoul(field(t, "element"));
	bool part = field(t, "range") == "part";
	uint64_t total = 1, runs = 0;
	for (int i = 0; i < n; i++) total *= k;
	g_context = &dir;
	g_range = true;
	for (uint64_t x = 0; x < total; x++) {
		std::vector<std::string> in;
		uint64_t y = x;
		for (int i = 0; i < n; i++, y /= k) {
			std::string e(size, 0);
			e[0] = (char) (signed char) ((int) (y % k) - k / 2);
			for (size_t j = 1; j < size; j++) e[j] = (char) (i * 16 + j); // identity of the element
			in.push_back(e);
		}
		for (int lo = 0; lo <= (part ? n : 0); lo++) for (int hi = part ? lo - 1 : n - 1; hi < n; hi++) {
			if (!part && lo) continue;
			char *b = (char *) malloc(n * size ? n * size : 1);
			for (int i = 0; i < n; i++) memcpy(b + i * size, in[i].data(), size);
			l.ls_sort(how, b, n, size, lo, hi, cmp, &dir);
			runs++;
			std::vector<std::string> out;
			for (int i = 0; i < n; i++) out.push_back(std::string(b + i * size, size));
			free(b);
			int from = how == 0 ? 0 : lo, to = how == 0 ? n - 1 : hi;
			std::string wrong;
			for (int i = 0; i < n; i++) {
				if ((i < from || i > to) && out[i] != in[i]) wrong = "an element outside of the range changed";
				if (i > from && i <= to && (signed char) out[i][0] * dir < (signed char) out[i - 1][0] * dir) wrong = "not in order";
			}
			std::vector<std::string> a = in, c = out;
			std::sort(a.begin(), a.end());
			std::sort(c.begin(), c.end());
			if (a != c) wrong = "not a permutation";
			if (!g_range) wrong = "the comparison got another context";
			if (!wrong.empty()) {
				std::string s = wrong + ": input";
				for (auto &e : in) s += " " + num((signed char) e[0]);
				s += ", output";
				for (auto &e : out) s += " " + num((signed char) e[0]);
				return bad(s + ", range " + num(lo) + ".." + num(hi));
			}
		}
	}
	Verdict v = good(t, (uint32_t) runs);
	v.states = total;
	return v;
}

// ---- conversions ----
static std::string text(Lib &l, const std::function<int(lc_t *)> &f, bool &error) {
	lc_t *c = l.lc_new(1 << 12);
	l.la_init(c, 1, 1);
	char pre[] = "<";
	l.la_push(c, pre); // the text is appended to what is there
	error = f(c);
	std::string r(l.la_elements(c), l.la_length(c));
	l.la_quit(c);
	l.lc_delete(c);
	return r;
}
static Verdict integers(const std::string &t) {
	Lib &l = lib(t);
	long from = atol(field(t, "from").c_str()), count = atol(field(t, "count").c_str());
	for (long i = 0; i < count; i++) {
		long x = (long) ((unsigned long) from + (unsigned long) i);
		bool e;
		std::string s = text(l, [&](lc_t *c) { return l.lx_fromInt(c, x); }, e);
		if (e || s != "<" + num(x)) return bad("integer " + num(x) + " written as " + s);
		long y = 1;
		std::string d = num(x);
		char *b = (char *) malloc(d.size());
		memcpy(b, d.data(), d.size());
		int r = l.lx_toInt(&y, b, d.size());
		free(b);
		if (r || y != x) return bad(d + " read as " + (r ? "an error" : num(y)));
		s = text(l, [&](lc_t *c) { return l.lx_fromSize(c, (size_t) x); }, e);
		if (e || s != "<" + std::to_string((size_t) x)) return bad("size " + std::to_string((size_t) x) + " written as " + s);
		double dd = 0;
		b = (char *) malloc(d.size());
		memcpy(b, d.data(), d.size());
		r = l.lx_toDouble(&dd, b, d.size());
		free(b);
		if (r || std::fabs(dd - (double) x) > std::fabs((double) x) * 1e-14) return bad(d + " read as the number " + std::to_string(dd));
		// hexadecimal, both cases
		char h[40];
		unsigned long mag = x < 0 ? 0 - (unsigned long) x : (unsigned long) x;
		for (auto f : {"0x%lx", "0X%lX"}) {
			std::string q = x < 0 ? "-" : "";
			snprintf(h, sizeof h, f, mag);
			q += h;
			b = (char *) malloc(q.size());
			memcpy(b, q.data(), q.size());
			r = l.lx_toInt(&y, b, q.size());
			free(b);
			if (r || y != x) return bad(q + " read as " + (r ? "an error" : num(y)));
		}
	}
	return good(t, (uint32_t) count * 6);
}
// What a text means as an integer.
static bool wantInt(const std::string &s, long &x) {
	size_t i = 0;
	bool neg = false;
	if (i < s.size() && s[i] == '-') neg = true, i++;
	bool hex = s.size() >= i + 2 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X');
	if (hex) i += 2;
	if (i >= s.size()) return false;
	unsigned __int128 m = 0;
	for (; i < s.size(); i++) {
		int d;
		char c = s[i];
		if (c >= '0' && c <= '9') d = c - '0';
		else if (hex && c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (hex && c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else return false;
		m = m * (hex ? 16 : 10) + d;
		if (m >> 64) return false;
	}
	if (!hex && m > (((unsigned __int128) 1) << 63) - (neg ? 0 : 1)) return false;
	x = (long) (neg ? 0 - (unsigned long) m : (unsigned long) m);
	return true;
}
static bool wantDouble(const std::string &s, double &x) {
	size_t i = 0;
	auto digit = [&]() { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
	if (i < s.size() && s[i] == '-') i++;
	if (i < s.size() && s[i] == '.') {
		i++;
		if (!digit()) return false;
		while (digit()) i++;
	}
	else {
		if (!digit()) return false;
		while (digit()) i++;
		if (i < s.size() && s[i] == '.') { i++; while (digit()) i++; }
	}
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		i++;
		if (i < s.size() && s[i] == '-') i++;
		if (!digit()) return false;
		while (digit()) i++;
	}
	if (i != s.size()) return false;
	x = strtod(s.c_str(), nullptr);
	return true;
}
static Verdict texts(const std::string &t) {
	Lib &l = lib(t);
	std::string alphabet = field(t, "alphabet"), first = field(t, "first"), kind = field(t, "kind");
	int max = atoi(field(t, "max").c_str());
	uint64_t n = 0;
	std::string error;
	std::function<bool(std::string &)> go = [&](std::string &s) -> bool {
		n++;
		char *b = (char *) malloc(s.size() ? s.size() : 1);
		memcpy(b, s.data(), s.size());
		if (kind == "int") {
			long got = 0, want = 0;
			int e = l.lx_toInt(&got, b, s.size());
			bool ok = wantInt(s, want);
			if (ok == (e != 0) || (ok && got != want)) error = s + ": " + (e ? "rejected" : num(got)) + " instead of " + (ok ? num(want) : "rejected");
		}
		else if (kind == "double") {
			double got = 0, want = 0;
			int e = l.lx_toDouble(&got, b, s.size());
			bool ok = wantDouble(s, want);
			bool same = ok && (got == want || std::fabs(got - want) <= std::fabs(want) * 1e-13 || std::fabs(want) < 1e-300) && std::signbit(got) == std::signbit(want);
			if (ok == (e != 0) || (ok && !same)) error = s + ": " + (e ? "rejected" : std::to_string(got)) + " instead of " + (ok ? std::to_string(want) : "rejected");
		}
		else {
			int got = 0;
			int e = l.lx_toBool(&got, b, s.size());
			bool ok = s == "true" || s == "false";
			if (ok == (e != 0) || (ok && got != (s == "true"))) error = s;
		}
		free(b);
		if (!error.empty()) return false;
		if ((int) s.size() == max) return true;
		for (char c : alphabet) {
			s.push_back(c);
			bool r = go(s);
			s.pop_back();
			if (!r) return false;
		}
		return true;
	};
	std::string s = first;
	if (!go(s)) return bad(error);
	return good(t, (uint32_t) n);
}
static Verdict helpers(const std::string &t) {
	Lib &l = lib(t);
	std::string what = field(t, "what");
	uint64_t n = 0;
	if (what == "class") {
		for (int c = 0; c < 256; c++, n++) {
			int want = ((c >= '0' && c <= '9') ? 1 : 0) | (isxdigit(c) ? 2 : 0) | (isalpha(c) ? 4 : 0) | (c <= ' ' ? 8 : 0);
			if (l.lx_class(c) != want) return bad("class of " + num(c));
			if (l.lx_lower(c) != tolower(c) || l.lx_upper(c) != toupper(c)) return bad("case of " + num(c));
			bool e;
			if (text(l, [&](lc_t *x) { return l.lx_fromUint8(x, c); }, e) != "<" + num(c) || e) return bad("byte " + num(c));
			if (l.lx_hex(c) != "0123456789ABCDEF"[c & 15]) return bad("hexadecimal digit of " + num(c));
		}
		bool e;
		for (int c = 0; c < 2; c++) if (text(l, [&](lc_t *x) { return l.lx_fromBool(x, c); }, e) != (c ? "<true" : "<false") || e) return bad("boolean " + num(c));
	}
	else if (what == "compare") {
		auto w = words(std::string("a\0b", 3), 4);
		for (auto &a : w) for (auto &b : w) {
			n++;
			char *p = (char *) malloc(a.size() ? a.size() : 1), *q = (char *) malloc(b.size() ? b.size() : 1);
			memcpy(p, a.data(), a.size());
			memcpy(q, b.data(), b.size());
			if (l.lx_compare(p, a.size(), q, b.size()) != (a == b)) return bad("comparison of " + eng::esc(a) + " with " + eng::esc(b));
			for (size_t k = 0; k <= std::min(a.size(), b.size()); k++) if (l.lx_comparePartial(p, q, k) != (a.substr(0, k) == b.substr(0, k))) return bad("comparison of the start of " + eng::esc(a) + " with " + eng::esc(b));
			free(p);
			free(q);
		}
		for (auto &a : words("ab", 6)) if (n++, l.lx_strlen(a.c_str()) != a.size()) return bad("length of " + a);
	}
	else {
		const int N = 14;
		for (int s = 0; s < N; s++) for (int d = 0; d < N; d++) for (int k = 0; k + std::max(s, d) <= N; k++) for (int no = 0; no < 2; no++) {
			if (no && s < d + k && d < s + k) continue;
			n++;
			char *b = (char *) malloc(N), w[N];
			for (int i = 0; i < N; i++) b[i] = w[i] = (char) (i + 65);
			memmove(w + d, w + s, k);
			l.lx_copy(b + d, b + s, k, no);
			bool same = !memcmp(w, b, N);
			memset(w + d, 0, k);
			l.lx_clear(b + d, k);
			same = same && !memcmp(w, b, N);
			free(b);
			if (!same) return bad("copy of " + num(k) + " bytes from " + num(s) + " to " + num(d));
		}
	}
	return good(t, (uint32_t) n);
}

int main(int argc, char **argv) {
	CheckInfo ci;
	ci.property = "P18";
	ci.level = "model_checking";
	ci.rule = "a case is a set of operation sequences or inputs which share a first part; every sequence is run on the real container and compared with the model after each operation; states are distinct model contents";
	ci.assumptions = {"single-threaded use", "comparison functions are consistent orders"};
	ci.setup = [](const std::string &d) {
		g_libs[0].load(d, "default");
		g_libs[1].load(d, "portable");
	};
	ci.spaces = [](bool th) {
		std::vector<Space> r;
		std::vector<std::string> c;
		for (auto lib : {"default", "portable"}) {
			std::string L = std::string("lib=") + lib;
			c.clear();
			for (int size : {1, 4, 24}) for (auto st : {"fit", "double"}) for (int f = 0; f < ArrayRun::OPS; f++)
				for (int d = 1; d <= (th ? 5 : 4); d++) if (th || d < 4 || size == 4 || L == "lib=default")
					c.push_back(L + " element=" + num(size) + " strategy=" + st + " first=" + num(f) + " depth=" + num(d));
			Space s = listSpace(std::string("arrays, ") + lib, "every sequence of 27 array operations to depth 4 (5 in the thorough tier), for element sizes 1, 4, 24 and both growth strategies", c, arrays);
			s.timeout = th ? 1000 : 120;
			r.push_back(s);
			c.clear();
			for (int set = 0; set < 3; set++) for (int a = 0; a < (set == 1 ? 7 : 15); a++) for (int b = 0; b < (set == 1 ? 7 : 15); b++)
				c.push_back(L + " keys=" + num(set) + " null=" + (set == 1 ? "5" : "-1") + " first=" + num(a) + "," + num(b) + " depth=" + num(set == 1 ? (th ? 7 : 6) : (th ? 6 : 5)));
			s = listSpace(std::string("tries, ") + lib, "every sequence of insertions of the keys over {a,b} to length 3, {0,255} to length 2, or 15 words with common beginnings, to depth 5 or 6 (one more in the thorough tier); every probe key looked up after every sequence", c, tries);
			s.timeout = th ? 1000 : 200;
			r.push_back(s);
		}
		c.clear();
		for (int how = 0; how < 3; how++) for (int dir : {1, -1}) for (int size : {1, 4, 12}) {
			std::string S = "lib=default how=" + num(how) + " direction=" + num(dir) + " element=" + num(size);
			for (int n = 0; n <= (th ? 9 : 8); n++) c.push_back(S + " range=all length=" + num(n) + " values=" + num(n <= 5 ? 6 : n == 6 ? 5 : n == 7 ? 4 : 3));
			if (how) for (int n = 0; n <= 5; n++) c.push_back(S + " range=part length=" + num(n) + " values=4");
		}
		Space s = listSpace("sorting", "every array of 0..8 elements (3 to 6 different values, each element tagged), each sort, both directions, three element sizes; every subrange for the quicksorts", c, sorts);
		s.timeout = th ? 600 : 30;
		r.push_back(s);
		c.clear();
		for (auto lib : {"default", "portable"}) {
			std::string L = std::string("lib=") + lib;
			for (long b = -70000; b < 70000; b += 10000) c.push_back(L + " from=" + num(b) + " count=10000");
			for (int k = 17; k < 64; k++) for (int sg = 0; sg < 2; sg++) {
				unsigned long p = 1ul << k;
				c.push_back(L + " from=" + num((long) ((sg ? 0 - p : p) - 20)) + " count=" + (k == 63 ? "40" : "41"));
			}
			for (unsigned long p = 100000; p < 9000000000000000000ul; p *= 10) for (int sg = 0; sg < 2; sg++) c.push_back(L + " from=" + num((long) ((sg ? 0 - p : p) - 20)) + " count=41");
		}
		r.push_back(listSpace("integers", "-70000..70000 and 20 numbers to each side of every power of two and ten, written and read back in decimal and hexadecimal", c, integers));
		c.clear();
		for (auto p : {"int 019-xXaFg. 6", "int 0-9x 9", "double 019.-eE+ 7", "double 5.e- 9", "bool truefals 6"}) {
			std::istringstream is(p);
			std::string kind, al, max;
			is >> kind >> al >> max;
			int m = atoi(max.c_str()) + (th ? 1 : 0);
			std::string S = "lib=default kind=" + kind + " alphabet=" + al + " max=";
			c.push_back(S + "1 first=");
			for (char x : al) for (char y : al) c.push_back(S + num(m) + " first=" + x + y);
		}
		for (auto big : {"922337203685477580", "-922337203685477580", "1844674407370955161", "0xfffffffffffffff", "-0x800000000000000", "0x1000000000000000", "99999999999999999999", "0.1234567890123456", "1e30", "1.7976931348623157e30", "2.5e-30", "123456789012345678901234567890."})
			for (auto kind : {"int", "double"}) c.push_back(std::string("lib=default kind=") + kind + " alphabet=0123456789abf max=" + num(strlen(big) + 2) + " first=" + big);
		s = listSpace("texts", "every text over the listed alphabets to the listed length, read as integer, float or boolean; all continuations by up to two characters of texts near the largest numbers", c, texts);
		s.timeout = 200;
		r.push_back(s);
		c.clear();
		for (auto lib : {"default", "portable"}) for (auto w : {"class", "compare", "copy"}) c.push_back(std::string("lib=") + lib + " what=" + w);
		r.push_back(listSpace("helpers", "every byte; every pair of texts over three bytes to length 4; every overlapping and disjoint copy within 14 bytes", c, helpers));
		return r;
	};
	eng::Engine en;
	en.info = ci;
	return en.main(argc, argv);
}
