// The model of the host interface (a stack of values, cells shared by reference, two globals, one captured variable, host
// objects), its breadth first search, and the comparison of every transition with the real machine.
#pragma once
#include <unordered_map>
#include "engine.hpp"
#include "capi.h"
static Variant g_v, g_vi, g_vp;
struct cp_t;
struct Api {
	cp_t *(*make)(const shim_cfg *, int);
	int (*reset)(cp_t *);
	size_t (*state)(cp_t *, char *, size_t), (*observe)(cp_t *, char *, size_t);
	int (*op)(cp_t *, int, long, long);
	void (*clearErrors)(cp_t *), (*destroy)(cp_t *), (*failing)(int);
	size_t (*hosts)(char *, size_t);
	int (*hostCount)();
	shim_t *(*shim)(cp_t *);
	cp_t *c[2] = {};
	void load(Variant &v) {
		v.sym(make, "cp_new"); v.sym(reset, "cp_reset"); v.sym(state, "cp_state"); v.sym(observe, "cp_observe"); v.sym(op, "cp_op");
		v.sym(clearErrors, "cp_clearErrors"); v.sym(destroy, "cp_delete"); v.sym(failing, "cp_failing"); v.sym(hosts, "cp_hosts");
		v.sym(hostCount, "cp_hostCount"); v.sym(shim, "cp_shim");
	}
	cp_t *get(int mode) {
		if (!c[mode]) {
			shim_cfg k = defaultCfg();
			k.vmObjects = 400;
			c[mode] = make(&k, mode);
			if (!c[mode]) { fprintf(stderr, "cannot start the machine\n"); _exit(97); }
		}
		return c[mode];
	}
};
static Api g_api[3];

// ---- the model ----
struct Val {
	char k = 'n'; // n nil, b i f, s string, y symbol, t type, L cons, V vector, C composite, H host object, F closure, K callback
	long i = 0;   // boolean, integer, symbol, type, function, or cell
	long off = 0;
	double d = 0;
	std::string s;
};
struct Cell { char k; long type = 0; std::vector<Val> v; };
struct St {
	std::vector<Val> stack;
	Val g[2], x;
	std::vector<Cell> heap;
	int types = 0, hosts = 0;
};
static Val mk(char k, long i = 0) { Val v; v.k = k; v.i = i; return v; }
static const char *const fnName[] = {"f0", "f1", "f2", "f3", "f4"};
static const int fnArity[] = {1, 0, 1, 1, 2};
static const bool fnRest[] = {false, false, false, true, false};

struct Show {
	const St &s;
	bool rename; // types by first appearance instead of by age
	std::string o;
	std::map<std::pair<long, long>, int> labels;
	std::map<long, int> ty;
	Show(const St &t, bool r) : s(t), rename(r) {}
	bool label(long c, long slot) {
		auto it = labels.find({c, slot});
		if (it != labels.end()) { o += "#" + std::to_string(it->second); return false; }
		int n = (int) labels.size();
		labels[{c, slot}] = n;
		o += "#" + std::to_string(n);
		return true;
	}
	void type(long t) {
		if (t < 0) { o += "B" + std::to_string(-t - 1); return; }
		if (rename) t = ty.emplace(t, (int) ty.size()).first->second;
		o += "T" + std::to_string(t);
	}
	void val(const Val &v) {
		char b[64];
		switch (v.k) {
		case 'n': o += "()"; break;
		case 'b': o += v.i ? "true" : "false"; break;
		case 'i': o += std::to_string(v.i); break;
		case 'f': snprintf(b, sizeof b, "%.17gf", v.d); o += b; break;
		case 's': o += "\"" + v.s + "\""; break;
		case 'y': o += v.i == 5 ? "'5:s" : "'6"; break;
		case 't': type(v.i); break;
		case 'F': o += "F" + std::to_string(v.i); break;
		case 'K': o += "K" + std::to_string(v.i); break;
		case 'L':
			if (!label(v.i, -1)) break;
			o += "(";
			val(s.heap[v.i].v[0]);
			o += " . ";
			val(s.heap[v.i].v[1]);
			o += ")";
			break;
		case 'V': {
			o += "[";
			const Cell &c = s.heap[v.i];
			for (size_t i = v.off; i < c.v.size(); i++) {
				if (label(v.i, (long) i)) { o += "="; val(c.v[i]); }
				o += " ";
			}
			o += "]";
			break;
		}
		case 'H':
			if (!label(v.i, -1)) break;
			o += "{";
			val(s.heap[v.i].v[0]);
			o += "}";
			break;
		case 'C':
			if (!label(v.i, -1)) break;
			o += "<";
			type(s.heap[v.i].type);
			o += " ";
			val(s.heap[v.i].v[0]);
			o += " ";
			val(s.heap[v.i].v[1]);
			o += ">";
			break;
		}
	}
	std::string all() {
		for (auto &v : s.stack) { val(v); o += ", "; }
		o += "| ";
		for (auto &v : s.g) { val(v); o += ", "; }
		val(s.x);
		return o;
	}
};
static std::string show(const St &s, bool rename) { return Show(s, rename).all(); }
// Only what can be reached counts.
static void collect(St &s) {
	std::vector<int> to(s.heap.size(), -1);
	std::vector<long> order;
	std::function<void(Val &)> visit = [&](Val &v) {
		if (v.k != 'L' && v.k != 'V' && v.k != 'C' && v.k != 'H') return;
		if (to[v.i] < 0) {
			to[v.i] = (int) order.size();
			order.push_back(v.i);
			for (auto &x : s.heap[v.i].v) visit(x);
		}
	};
	for (auto &v : s.stack) visit(v);
	for (auto &v : s.g) visit(v);
	visit(s.x);
	auto fix = [&](Val &v) { if (v.k == 'L' || v.k == 'V' || v.k == 'C' || v.k == 'H') v.i = to[v.i]; };
	std::vector<Cell> h;
	for (long i : order) h.push_back(s.heap[i]);
	for (auto &c : h) for (auto &v : c.v) fix(v);
	for (auto &v : s.stack) fix(v);
	for (auto &v : s.g) fix(v);
	fix(s.x);
	s.heap = h;
}
struct Op { int op; long a, b; const char *name; };
enum R { OK, FAIL, OUT };
static bool at(const St &s, long i, size_t &k) {
	long n = (long) s.stack.size();
	if (i < 0) i += n;
	if (i < 0 || i >= n) return false;
	k = i;
	return true;
}
static bool cyclic(const St &s, Val v) {
	for (size_t n = 0; v.k == 'L'; n++) { if (n > s.heap.size()) return true; v = s.heap[v.i].v[1]; }
	return false;
}
static R call(St &s, Val f, long n, Val &out);
static long alloc(St &s, char k, std::vector<Val> v, long type = 0) { Cell c; c.k = k; c.v = v; c.type = type; s.heap.push_back(c); return (long) s.heap.size() - 1; }
// Arguments are the topmost n values; they are gone afterwards.
static R call(St &s, Val f, long n, Val &out) {
	for (int d = 0; f.k == 'C'; d++) { if (d > 8) return OUT; f = s.heap[f.i].v[1]; }
	if (f.k != 'F' && f.k != 'K') return FAIL;
	if ((long) s.stack.size() < n) return OUT;
	std::vector<Val> a(s.stack.end() - n, s.stack.end());
	if (f.k == 'K') {
		if (n != 1) return OUT; // a callback takes what it takes
		if (f.i == 0) { out = mk('V', alloc(s, 'V', {a[0]})); }
		else {
			R r = call(s, a[0], 0, out);
			if (r != OK) return r;
		}
		s.stack.resize(s.stack.size() - n);
		return OK;
	}
	if (fnRest[f.i] ? n < fnArity[f.i] : n != fnArity[f.i]) return FAIL;
	switch (f.i) {
	case 0: out = a[0]; break;
	case 1: out = s.x; break;
	case 2: s.x = a[0]; out = a[0]; break;
	case 3: {
		Val r;
		for (long i = n - 1; i >= 1; i--) r = mk('L', alloc(s, 'L', {a[i], r}));
		out = mk('L', alloc(s, 'L', {a[0], r}));
		break;
	}
	case 4: out = mk('V', alloc(s, 'V', {a[0], a[1]})); break;
	}
	s.stack.resize(s.stack.size() - n);
	return OK;
}
static R apply(St &s, const Op &o) {
	std::vector<Val> &k = s.stack;
	size_t p;
	auto push = [&](const Val &v) { k.push_back(v); return OK; };
	switch (o.op) {
	case C_NIL: return push(mk('n'));
	case C_BOOL: return push(mk('b'));
	case C_INT: return push(mk('i'));
	case C_FLOAT: return push(mk('f'));
	case C_STRING: { Val v = mk('s'); v.s = std::string("ab").substr(0, o.a); return push(v); }
	case C_SYMBOL: return push(mk('y', 5));
	case C_CSYMBOL: return push(mk('y', 6));
	case C_NEWTYPE: return push(mk('t', s.types++));
	case C_EXTYPE: return push(mk('t', -1 - o.a));
	case C_RETYPE: if (k.empty() || k.back().k != 't') return FAIL; return push(Val(k.back()));
	case C_COMPOSITE: {
		long t = -1 - o.a;
		if (o.a < 0) { if (k.empty() || k.back().k != 't') return FAIL; t = k.back().i; }
		return push(mk('C', alloc(s, 'C', {mk('n'), mk('n')}, t)));
	}
	case C_CONS: return push(mk('L', alloc(s, 'L', {mk('n'), mk('n')})));
	case C_VECTOR: return push(mk('V', alloc(s, 'V', std::vector<Val>(o.a))));
	case C_PUSH: if (!at(s, o.a, p)) return FAIL; return push(Val(k[p]));
	case C_POP: if (k.empty()) return FAIL; k.pop_back(); return OK;
	case C_POPN: if ((long) k.size() < o.a) return FAIL; k.resize(k.size() - o.a); return OK;
	case C_POPALL: case C_SOFTRESET: k.clear(); return OK;
	case C_COPYTOP: if (k.empty() || !at(s, o.a, p)) return FAIL; k[p] = Val(k.back()); return OK;
	case C_SETBOOL: if (k.empty() || k.back().k != 'b') return FAIL; k.back().i = o.a; return OK;
	case C_SETINT: if (k.empty() || k.back().k != 'i') return FAIL; k.back().i = o.a; return OK;
	case C_SETFLOAT: if (k.empty() || k.back().k != 'f') return FAIL; k.back().d = o.a + 0.5; return OK;
	case C_COMPVALUE: if (k.empty() || k.back().k != 'C') return FAIL; return push(Val(s.heap[k.back().i].v[0]));
	case C_COMPFUNCTION: if (k.empty() || k.back().k != 'C') return FAIL; return push(Val(s.heap[k.back().i].v[1]));
	case C_SETCOMPVALUE: case C_SETCOMPFUNCTION:
		if (k.empty() || !at(s, o.a, p) || k[p].k != 'C') return FAIL;
		s.heap[k[p].i].v[o.op == C_SETCOMPFUNCTION] = k.back();
		return OK;
	case C_CAR: case C_FIRST: {
		if (k.empty()) return FAIL;
		Val q = k.back();
		if (q.k == 'n') return push(q);
		if (q.k == 'L') return push(Val(s.heap[q.i].v[0]));
		if (q.k == 'V') { if (q.off >= (long) s.heap[q.i].v.size()) return FAIL; return push(Val(s.heap[q.i].v[q.off])); }
		if (q.k == 's') { if (q.s.empty()) return FAIL; return push(mk('i', (unsigned char) q.s[0])); }
		if (q.k == 'F') { if (q.i != 1 && q.i != 2) return FAIL; return push(Val(s.x)); }
		return FAIL;
	}
	case C_CDR: case C_REST: {
		if (k.empty()) return FAIL;
		Val q = k.back();
		if (q.k == 'n') return push(q);
		if (q.k == 'L') return push(Val(s.heap[q.i].v[1]));
		if (q.k == 'V') { if (q.off >= (long) s.heap[q.i].v.size()) return FAIL; q.off++; return push(q); }
		if (q.k == 's') { if (q.s.empty()) return FAIL; q.s.erase(0, 1); return push(q); }
		return FAIL;
	}
	case C_SETCAR: case C_SETFIRST: case C_SETCDR: case C_SETREST: {
		if (k.empty() || !at(s, o.a, p)) return FAIL;
		Val q = k[p];
		bool cdr = o.op == C_SETCDR || o.op == C_SETREST;
		if (q.k == 'F' && !cdr) return OUT; // the header says that closures aren't supported, the code sets the captured variable
		if (q.k == 'L') { s.heap[q.i].v[cdr] = k.back(); return OK; }
		if (q.k == 'V' && !cdr) { if (q.off >= (long) s.heap[q.i].v.size()) return FAIL; s.heap[q.i].v[q.off] = k.back(); return OK; }
		return FAIL;
	}
	case C_ELEMENT: {
		if (k.empty() || o.a < 0) return FAIL;
		Val q = k.back();
		if (q.k == 'n') return FAIL;
		if (q.k == 'L') {
			for (long i = 0; i < o.a; i++) { if (q.k != 'L') return FAIL; q = s.heap[q.i].v[1]; }
			if (q.k != 'L') return FAIL;
			return push(Val(s.heap[q.i].v[0]));
		}
		if (q.k == 'V') { if (q.off + o.a >= (long) s.heap[q.i].v.size()) return FAIL; return push(Val(s.heap[q.i].v[q.off + o.a])); }
		if (q.k == 's') { if (o.a >= (long) q.s.size()) return FAIL; return push(mk('i', (unsigned char) q.s[o.a])); }
		if (q.k == 'F') { if ((q.i != 1 && q.i != 2) || o.a > 0) return FAIL; return push(Val(s.x)); }
		return FAIL;
	}
	case C_SETELEMENT: {
		if (k.empty() || !at(s, o.b, p) || o.a < 0) return FAIL;
		Val q = k[p];
		if (q.k == 'F') return OUT;
		if (q.k == 'L') {
			for (long i = 0; i < o.a; i++) { if (q.k != 'L') return FAIL; q = s.heap[q.i].v[1]; }
			if (q.k != 'L') return FAIL;
			s.heap[q.i].v[0] = k.back();
			return OK;
		}
		if (q.k == 'V') { if (q.off + o.a >= (long) s.heap[q.i].v.size()) return FAIL; s.heap[q.i].v[q.off + o.a] = k.back(); return OK; }
		return FAIL;
	}
	case C_SETGLOBAL: if (k.empty()) return FAIL; s.g[o.a] = k.back(); return OK;
	case C_GETGLOBAL: if (o.a == 2) return FAIL; return push(Val(s.g[o.a]));
	case C_FUNCTION: return push(o.a < C_FUNCTIONS ? mk('F', o.a) : mk('K', o.a - C_FUNCTIONS));
	case C_CALL: {
		if (!at(s, o.a, p)) return FAIL;
		Val r;
		St old = s;
		R x = call(s, k[p], o.b, r);
		if (x == OK) return push(r);
		s = old;
		return x;
	}
	case C_ROUNDTRIP: return k.empty() ? FAIL : OK;
	case C_MAKE:
		switch (o.a) {
		case 0: return push(mk('b', 1));
		case 1: return push(mk('i', 3));
		case 2: { Val v = mk('f'); v.d = 1.5; return push(v); }
		case 3: { Val v = mk('s'); v.s = "ab"; return push(v); }
		case 4: return push(mk('y', 5));
		case 5: return push(mk('y', 6));
		case 6: return push(mk('n'));
		default: return push(mk('L', alloc(s, 'L', {mk('n'), mk('n')})));
		}
	case C_GC: case C_CHURN: return OK;
	case C_HOST: return push(mk('H', alloc(s, 'H', {mk('n')}, s.hosts++)));
	case C_HOSTSET: if (k.empty() || !at(s, o.a, p) || k[p].k != 'H') return FAIL; s.heap[k[p].i].v[0] = k.back(); return OK;
	case C_HOSTGET: if (k.empty() || k.back().k != 'H') return FAIL; return push(Val(s.heap[k.back().i].v[0]));
	}
	return OUT;
}
static std::string observe(const St &s) {
	std::string o = "length " + std::to_string(s.stack.size());
	if (s.stack.empty()) return o + " type - bool - int - uint - float - string - name - id - copyType - compositeType - arity - variadic - len - is ---------------";
	const Val &v = s.stack.back();
	static const std::map<char, const char *> names = {{'n', "list"}, {'L', "list"}, {'b', "bool"}, {'i', "integer"}, {'f', "float"}, {'s', "string"},
		{'y', "symbol"}, {'t', "type"}, {'V', "vector"}, {'C', "composite"}, {'H', "user"}, {'F', "closure"}, {'K', "function"}};
	char b[64];
	o += std::string(" type ") + names.at(v.k);
	o += " bool " + (v.k == 'b' ? std::to_string(v.i) : "-");
	o += " int " + (v.k == 'i' ? std::to_string(v.i) : "-");
	o += " uint " + (v.k == 'i' ? std::to_string(v.i) : "-");
	snprintf(b, sizeof b, "%.17g", v.d);
	o += std::string(" float ") + (v.k == 'f' ? b : "-");
	o += " string " + (v.k == 's' ? std::to_string(v.s.size()) + ":" + v.s : "-");
	o += std::string(" name ") + (v.k == 'y' ? v.i == 5 ? "1:s" : "0:" : "-");
	o += " id " + (v.k == 'y' ? std::to_string(v.i) : "-");
	o += " copyType ";
	if (v.k == 't') { Show w(s, false); w.type(v.i); o += w.o; } else o += "-";
	o += " compositeType ";
	if (v.k == 'C') { Show w(s, false); w.type(s.heap[v.i].type); o += w.o; } else o += "-";
	o += " arity " + (v.k == 'F' ? std::to_string(fnArity[v.i]) : "-");
	o += std::string(" variadic ") + (v.k == 'F' ? fnRest[v.i] ? "1" : "0" : "-");
	o += " len ";
	long len = -1, upvalues = v.k == 'F' && (v.i == 1 || v.i == 2);
	if (v.k == 'n') len = 0;
	if (v.k == 'L' && !cyclic(s, v)) { len = 0; for (Val q = v; q.k == 'L'; q = s.heap[q.i].v[1]) len++; }
	if (v.k == 'V') len = (long) s.heap[v.i].v.size() - v.off;
	if (v.k == 's') len = (long) v.s.size();
	if (v.k == 'F') len = upvalues;
	o += len < 0 ? "-" : std::to_string(len);
	o += " is ";
	bool is[] = {false, v.k == 'b', v.k == 'i', v.k == 'f', v.k == 's', v.k == 'y', v.k == 't', v.k == 'C', v.k == 'n' || v.k == 'L', v.k == 'n',
	             v.k == 'L', v.k == 'V', v.k == 'F', v.k == 'H', (v.k == 'n' || v.k == 'V' || v.k == 's' || v.k == 'F') && len == 0};
	for (bool x : is) o += x ? "1" : "0";
	return o;
}

// Host objects which can be reached, as the numbers which they got when they were made.
static std::string reachable(const St &s) {
	std::set<long> h;
	for (auto &c : s.heap) if (c.k == 'H') h.insert(c.type);
	std::string r;
	for (long i : h) r += std::to_string(i) + " ";
	return r;
}
// ---- the search ----
struct Cfg {
	std::string name;
	std::vector<Op> ops;
	size_t maxStack, maxCells;
	int depth;
	size_t maxStates;
};
static std::string text(const std::vector<int> &path) { std::string r; for (int i : path) r += (r.empty() ? "" : " ") + std::to_string(i); return r; }
static std::string words(const Cfg &c, const std::vector<int> &path) {
	std::string r;
	for (int i : path) {
		const Op &o = c.ops[i];
		r += (r.empty() ? "" : "; ") + std::string(o.name) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
	}
	return r;
}
static R transition(const Cfg &c, St &s, int i) {
	St old = s;
	R r = apply(s, c.ops[i]);
	if (r == FAIL) {
		s = old;
		if (c.ops[i].op == C_CALL) { // afterwards the host resets the machine
			s.stack.clear();
			collect(s);
		}
		return FAIL;
	}
	if (r == OUT) { s = old; return OUT; }
	collect(s);
	return OK;
}
// Shortest ways to all states of the model within the bounds.
static std::vector<std::string> reach(const Cfg &c, bool &complete, int &deepest) {
	struct N { St s; std::vector<int> path; };
	std::vector<N> level(1), next;
	std::unordered_map<std::string, bool> seen;
	std::vector<std::string> out;
	level[0].s.x = mk('i', 7);
	seen[show(level[0].s, true)] = true;
	out.push_back("");
	complete = true;
	deepest = 0;
	for (int d = 0; d < c.depth && !level.empty(); d++) {
		next.clear();
		for (auto &n : level) for (size_t i = 0; i < c.ops.size(); i++) {
			St s = n.s;
			R r = transition(c, s, (int) i);
			if (r == OUT || s.stack.size() > c.maxStack || s.heap.size() > c.maxCells) continue;
			std::string k = show(s, true);
			if (!seen.emplace(k, true).second) continue;
			if (out.size() >= c.maxStates) { complete = false; continue; }
			std::vector<int> p = n.path;
			p.push_back((int) i);
			out.push_back(text(p));
			deepest = d + 1;
			next.push_back({s, p});
		}
		if (!complete) break;
		std::swap(level, next);
	}
	return out;
}
static std::vector<std::string> split(const std::string &t) { std::vector<std::string> r; std::istringstream is(t); for (std::string w; is >> w; ) r.push_back(w); return r; }
static Verdict check(const Cfg &c, const std::string &t, int nv, bool both, bool hosts = false) {
	std::vector<int> path;
	std::istringstream is(t);
	for (int i; is >> i; ) path.push_back(i);
	Verdict v;
	char buf[8192];
	St st0;
	st0.x = mk('i', 7);
	uint32_t steps = 0;
	std::string sig;
	for (int a = 0; a < nv; a++) for (int mode = both ? 0 : 1; mode < 2; mode++) {
		Api &api = g_api[a];
		cp_t *m = api.get(mode);
		for (int last = -1; last < (int) c.ops.size(); last++) {
			St s = st0;
			if (api.reset(m)) return bad("the machine could not be reset");
			std::vector<int> p = path;
			if (last >= 0) p.push_back(last);
			for (size_t i = 0; i < p.size(); i++) {
				bool probe = last >= 0 && i + 1 == p.size();
				const Op &o = c.ops[p[i]];
				R r = transition(c, s, p[i]);
				if (r == OUT) { if (!probe) return bad("bad path"); goto nextOp; }
				int e = api.op(m, o.op, o.a, o.b);
				steps++;
				if (!!e != (r == FAIL)) return bad("after " + words(c, std::vector<int>(p.begin(), p.begin() + i)) + ": " + o.name + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ") "
				                                  + (e ? "reported an error" : "reported no error") + " (" + (mode ? "collection before every allocation" : "no forced collections") + ", build " + std::to_string(a) + ")");
				if (e && o.op == C_CALL) api.op(m, C_SOFTRESET, 0, 0);
				if (e) api.clearErrors(m);
			}
			{
				std::string want = show(s, false), have(buf, api.state(m, buf, sizeof buf));
				if (want != have) return bad("after " + words(c, p) + ": the state is " + have + " instead of " + want + (mode ? " (collection before every allocation" : " (no forced collections") + ", build " + std::to_string(a) + ")");
				want = observe(s);
				have = std::string(buf, api.observe(m, buf, sizeof buf));
				api.clearErrors(m);
				if (want != have) return bad("after " + words(c, p) + ": the inspecting functions say " + have + " instead of " + want);
				if (hosts) {
					std::string left = reachable(s), alive(buf, api.hosts(buf, sizeof buf));
					for (auto &w : split(left)) if ((" " + alive).find(" " + w + " ") == std::string::npos) return bad("after " + words(c, p) + ": host object " + w + " was destroyed although it can be reached (left: " + alive + ")");
					if (alive.find('!') != std::string::npos) return bad("after " + words(c, p) + ": destroyed twice or marked after being destroyed: " + alive);
					if (api.op(m, C_GC, 0, 0)) return bad("after " + words(c, p) + ": the collection failed");
					alive = std::string(buf, api.hosts(buf, sizeof buf));
					if (alive != left) return bad("after " + words(c, p) + " and a collection: the host objects " + alive + "are left instead of " + left);
					have = std::string(buf, api.state(m, buf, sizeof buf));
					want = show(s, false);
					if (want != have) return bad("after " + words(c, p) + " and a collection: the state is " + have + " instead of " + want);
				}
				if (last < 0) sig = show(s, true);
			}
			nextOp:;
		}
		if (int e = api.reset(m)) return bad("after " + words(c, path) + ": resetting the machine fails (" + std::to_string(e) + ", from 1000 on: that host object was not destroyed exactly once)");
	}
	v.sig = fnv(sig);
	v.steps = steps;
	v.states = 1;
	return v;
}

#define O(x, a, b) {x, a, b, #x}
