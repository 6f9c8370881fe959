// Reference semantics of duck-lisp, written from the language documentation: a small tree-walking evaluator with
// lexical addresses resolved before evaluation. It shares no code with /repo.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {

struct CtError { std::string what; };   // the program is rejected by the compiler
struct RtError { std::string what; };   // the program stops with a reported error
struct Diverges {};                     // beyond the step bound
struct Unsupported { std::string what; }; // outside of what this model specifies

// ---------------------------------------------------------------- reader

enum class A { Int, Float, Bool, Str, Id, Expr, Vec }; // Vec: only as the result of compile-time code
struct Ast {
	A k = A::Expr;
	int64_t i = 0;
	double d = 0;
	std::string s;
	std::vector<Ast> e;
	std::shared_ptr<Ast> tail; // of a dotted list
	bool mark = false; // written with #, which excuses it from parenthesis inference
	bool isId(const char *n) const { return k == A::Id && s == n; }
};

struct Reader {
	const std::string &t;
	size_t p = 0;
	explicit Reader(const std::string &text) : t(text) {}
	void ws() {
		while (p < t.size()) {
			if (space(t[p])) p++;
			else if (t[p] == ';') while (p < t.size() && t[p] != '\n' && t[p] != '\r') p++;
			else break;
		}
	}
	static bool space(char c) { return (unsigned char) c <= ' '; }
	static bool delim(char c) { return space(c) || c == '(' || c == ')' || c == '"' || c == ';'; }
	static constexpr int MAXDEPTH = 998; // nesting the reader accepts
	Ast read(int depth = 0) {
		ws();
		if (p >= t.size()) throw CtError{"end of input"};
		if (depth > MAXDEPTH) throw CtError{"nested too deeply"};
		bool mark = t[p] == '#' && p + 1 < t.size() && t[p + 1] == '('; // an expression which is not inferred
		if (mark) p++;
		if (t[p] == '(') {
			p++;
			Ast a;
			a.mark = mark;
			while (1) {
				ws();
				if (p >= t.size()) throw CtError{"unbalanced"};
				if (t[p] == ')') { p++; return a; }
				a.e.push_back(read(depth + 1));
			}
		}
		if (t[p] == ')') throw CtError{"stray )"};
		if (t[p] == '"') {
			Ast a;
			a.k = A::Str;
			p++;
			while (1) {
				if (p >= t.size()) throw CtError{"open string"};
				if (t[p] == '"') { p++; return a; }
				if (t[p] == '\\') {
					p++;
					if (p >= t.size()) throw CtError{"open string"};
					a.s += t[p] == 'n' ? '\n' : t[p];
					p++;
				}
				else a.s += t[p++];
			}
		}
		size_t b = p;
		while (p < t.size() && !delim(t[p])) p++;
		return atom(t.substr(b, p - b));
	}
	static bool digits(const std::string &s, size_t a, size_t b) {
		if (a >= b) return false;
		for (; a < b; a++) if (!isdigit((unsigned char) s[a])) return false;
		return true;
	}
	// -?[0-9]+ | -?0[xX][0-9a-fA-F]+
	static bool integer(const std::string &w, int64_t &out) {
		size_t n = w.size(), b = w[0] == '-' ? 1 : 0;
		bool neg = b;
		unsigned __int128 v = 0;
		if (digits(w, b, n)) {
			for (size_t k = b; k < n; k++) { v = v * 10 + (w[k] - '0'); if (v >> 70) throw CtError{"integer range"}; }
			if (v > (unsigned __int128) INT64_MAX + neg) throw CtError{"integer range"};
		}
		else if (n > b + 2 && w[b] == '0' && (w[b + 1] == 'x' || w[b + 1] == 'X')) {
			for (size_t k = b + 2; k < n; k++) {
				if (!isxdigit((unsigned char) w[k])) return false;
			}
			for (size_t k = b + 2; k < n; k++) {
				v = v * 16 + (isdigit((unsigned char) w[k]) ? w[k] - '0' : (tolower(w[k]) - 'a' + 10));
				if (v >> 64) throw CtError{"integer range"};
			}
		}
		else return false;
		out = (int64_t) (neg ? 0 - (uint64_t) v : (uint64_t) v);
		return true;
	}
	// -? (digits . digits? | . digits | digits) (e -? digits)?   with a point or an exponent
	static bool floating(const std::string &w, double &out) {
		size_t n = w.size(), k = w[0] == '-' ? 1 : 0;
		auto run = [&] { size_t b = k; while (k < n && isdigit((unsigned char) w[k])) k++; return k - b; };
		size_t whole = run(), frac = 0;
		bool point = k < n && w[k] == '.', ex = false;
		if (point) { k++; frac = run(); }
		if (!whole && !frac) return false;
		if (k < n && (w[k] == 'e' || w[k] == 'E')) {
			ex = true;
			k++;
			if (k < n && w[k] == '-') k++;
			if (!run()) return false;
		}
		if (k != n || (!point && !ex)) return false;
		out = strtod(w.c_str(), nullptr);
		return true;
	}
	static Ast atom(const std::string &w) {
		Ast a;
		if (w == "true" || w == "false") { a.k = A::Bool; a.i = w == "true"; return a; }
		if (floating(w, a.d)) { a.k = A::Float; return a; }
		if (integer(w, a.i)) { a.k = A::Int; return a; }
		a.k = A::Id;
		a.mark = w[0] == '#' && w.size() > 1;
		a.s = a.mark ? w.substr(1) : w; // #name is name, excused from inference
		return a;
	}
};
// The canonical form which the shim prints.
inline void printAst(const Ast &a, std::string &o) {
	char b[64];
	auto bytes = [&](const std::string &s) {
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
			else if (c >= 32 && c < 127) o += (char) c;
			else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		}
	};
	switch (a.k) {
	case A::Int: o += std::to_string(a.i); break;
	case A::Float:
		if (a.d != a.d) o += "nanf";
		else { snprintf(b, sizeof b, "%.17gf", a.d); o += b; }
		break;
	case A::Bool: o += a.i ? "true" : "false"; break;
	case A::Str: o += '"'; bytes(a.s); o += '"'; break;
	case A::Id: o += '|'; bytes(a.s); o += '|'; break;
	case A::Vec: break;
	case A::Expr:
		o += '(';
		for (size_t i = 0; i < a.e.size(); i++) { if (i) o += ' '; printAst(a.e[i], o); }
		o += ')';
		break;
	}
}

// ---------------------------------------------------------------- values

struct Obj { virtual ~Obj() {} };
struct Cell;
struct Cons;
struct Closure;
struct Vec;
struct Comp;
struct Str;

enum class K { Bool, Int, Float, Str, List, Sym, Fn, Clo, Vec, Type, Comp };
struct Value {
	K k = K::List;
	int64_t i = 0;        // Int, Bool (0..255), Type
	double d = 0;
	std::string name;     // Sym, Fn
	Cons *cons = nullptr; // List
	Closure *clo = nullptr;
	Vec *vec = nullptr;
	Comp *comp = nullptr;
	Str *str = nullptr;
	size_t off = 0, len = 0;
};
struct Cell : Obj { Value v; };
struct Cons : Obj { Value car, cdr; };
struct Vec : Obj { std::vector<Value> v; };
struct Comp : Obj { int64_t type; Value value, fn; };
struct Str : Obj { std::string s; };

struct Node;
struct Proto {
	int nparams = 0;
	bool variadic = false;
	int nslots = 0;
	int selfSlot = -1;
	std::vector<std::pair<bool, int>> caps; // (from parent's local slot?, index)
	std::vector<Node *> body;
};
struct Closure : Obj { Proto *p = nullptr; std::vector<Cell *> caps; };

enum class N { Const, Local, Cap, Global, SetLocal, SetCap, SetGlobal, DefGlobal, Bind, Body, If, When, Unless, While,
	Lambda, Call, CCall, Apply, Op, Quote, Nil };
struct Node : Obj {
	N n = N::Nil;
	Value c;
	int idx = 0;
	std::string name;
	std::vector<Node *> a;
	Proto *proto = nullptr;
};

inline Value vint(int64_t i) { Value v; v.k = K::Int; v.i = i; return v; }
inline Value vflt(double d) { Value v; v.k = K::Float; v.d = d; return v; }
inline Value vbool(int64_t b) { Value v; v.k = K::Bool; v.i = b; return v; }
inline Value vnil() { return Value(); }
inline Value vsym(const std::string &s) { Value v; v.k = K::Sym; v.name = s; return v; }

inline bool truthy(const Value &v) {
	switch (v.k) {
	case K::Bool: case K::Int: return v.i != 0;
	case K::Float: return v.d != 0;
	case K::List: return v.cons != nullptr;
	case K::Vec: return v.vec && v.off < v.vec->v.size();
	case K::Str: return v.off < v.len;
	case K::Sym: case K::Fn: case K::Clo: return true;
	default: return false;
	}
}

// ---------------------------------------------------------------- printing (the same canonical form the shim prints)

struct Printer {
	std::string o;
	static constexpr size_t LIMIT = 1200; // the text is cut there: values may be cyclic
	bool full() const { return o.size() > LIMIT; }
	void bytes(const std::string &s) {
		char b[8];
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
			else if (c >= 32 && c < 127) o += (char) c;
			else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		}
	}
	void obj(const Value &v) {
		if (full()) return;
		if (v.k == K::List && v.cons) {
			// a list object and its first cell
			o += "(";
			elem(v.cons->car);
			const Value *c = &v.cons->cdr;
			while (1) {
				if (full()) break;
				if (c->k == K::List && !c->cons) break;
				if (c->k == K::List) { o += " "; elem(c->cons->car); c = &c->cons->cdr; continue; }
				o += " . ";
				obj(*c);
				break;
			}
			o += ")";
			return;
		}
		char b[64];
		switch (v.k) {
		case K::Bool: o += v.i == 1 ? "true" : v.i == 0 ? "false" : "bool:" + std::to_string(v.i); break;
		case K::Int: o += std::to_string(v.i); break;
		case K::Float:
			if (v.d != v.d) o += "nanf";
			else { snprintf(b, sizeof b, "%.17gf", v.d); o += b; }
			break;
		case K::Str: o += '"'; if (v.str) bytes(v.str->s.substr(v.off, v.len - v.off)); o += '"'; break;
		case K::List: o += "()"; break;
		case K::Sym: o += "'"; bytes(v.name); break;
		case K::Fn: o += "<callback>"; break;
		case K::Clo: o += "<closure " + std::to_string(v.clo->p->nparams) + (v.clo->p->variadic ? "?" : "") + ">"; break;
		case K::Vec:
			o += "[";
			if (v.vec) for (size_t i = v.off; i < v.vec->v.size() && !full(); i++) { if (i != v.off) o += " "; elem(v.vec->v[i]); }
			o += "]";
			break;
		case K::Type: o += v.i >= 1000 ? "::u" + std::to_string(v.i - 1000) : "::" + std::to_string(v.i); break;
		case K::Comp: o += "<comp ::u" + std::to_string(v.comp->type - 1000) + " "; elem(v.comp->value); o += " "; elem(v.comp->fn); o += ">"; break;
		}
	}
	void elem(const Value &v) { obj(v); }
};
inline std::string print(const Value &v) { Printer p; p.obj(v); if (p.full()) p.o = p.o.substr(0, Printer::LIMIT) + "..."; return p.o; }

// ---------------------------------------------------------------- the evaluator

struct Result { std::string observable; bool diverged = false, unsupported = false; std::string why; uint64_t steps = 0; };

struct Interp {
	std::vector<std::unique_ptr<Obj>> heap;
	std::vector<std::unique_ptr<Proto>> protos;
	std::map<std::string, Value> globals;
	std::string log;
	uint64_t steps = 0, limit = 3000;
	int depth = 0;
	int64_t nextType = 1000;
	std::map<std::string, std::function<Value(Interp &, std::vector<Value> &)>> callbacks;
	bool comptime = false;
	std::shared_ptr<Interp> ct; // compile-time environment
	// compile-time scope root (names defined by comptime/defmacro at top level persist)

	template <class T> T *mk() { auto *p = new T(); heap.emplace_back(p); return p; }

	Interp() {
		callbacks["emit"] = [](Interp &in, std::vector<Value> &a) {
			if (a.size() != 1) throw Unsupported{"emit arity"};
			if (in.log.size() < 4000) in.log += print(a[0]) + ";";
			return a[0];
		};
		callbacks["gc"] = [](Interp &, std::vector<Value> &a) { if (!a.empty()) throw Unsupported{"gc arity"}; return vnil(); };
		callbacks["call1"] = [](Interp &in, std::vector<Value> &a) {
			if (a.size() != 2) throw Unsupported{"call1 arity"};
			std::vector<Value> x{a[1]};
			return in.call(a[0], x);
		};
		callbacks["fail"] = [](Interp &, std::vector<Value> &) -> Value { throw RtError{"fail"}; };
		for (auto &c : callbacks) { Value v; v.k = K::Fn; v.name = c.first; globals[c.first] = v; }
	}

	Value str(const std::string &s) {
		Value v;
		v.k = K::Str;
		if (s.empty()) return v;
		v.str = mk<Str>();
		v.str->s = s;
		v.len = s.size();
		return v;
	}
	Value cons(const Value &a, const Value &d) { Value v; v.cons = mk<Cons>(); v.cons->car = a; v.cons->cdr = d; return v; }
	Value listOf(const std::vector<Value> &xs) { Value v; for (size_t i = xs.size(); i--;) v = cons(xs[i], v); return v; }
	Value quote(const Ast &a) {
		if (++steps > limit) throw Diverges{};
		switch (a.k) {
		case A::Int: return vint(a.i);
		case A::Float: return vflt(a.d);
		case A::Bool: return vbool(a.i);
		case A::Str: return str(a.s);
		case A::Id: return vsym(a.s);
		case A::Vec: { std::vector<Value> e; for (auto &x : a.e) e.push_back(quote(x)); return op("vector", e); }
		case A::Expr: { Value v; if (a.tail) v = quote(*a.tail); for (size_t i = a.e.size(); i--;) v = cons(quote(a.e[i]), v); return v; }
		}
		return vnil();
	}
	int astDepth = 0;
	struct Nest { int &n; explicit Nest(int &x) : n(x) { if (++n > 300) { n--; throw Unsupported{"deep or cyclic"}; } } ~Nest() { n--; } };
	Ast toAst(const Value &v, bool code) {
		Nest nest(astDepth);
		Ast a;
		switch (v.k) {
		case K::Int: a.k = A::Int; a.i = v.i; return a;
		case K::Float: a.k = A::Float; a.d = v.d; return a;
		case K::Bool: a.k = A::Bool; a.i = v.i; return a;
		case K::Str: a.k = A::Str; a.s = v.str ? v.str->s.substr(v.off, v.len - v.off) : ""; return a;
		case K::Sym: a.k = A::Id; a.s = v.name; return a;
		case K::List: {
			const Value *p = &v;
			int n = 0;
			while (p->k == K::List && p->cons) { a.e.push_back(toAst(p->cons->car, code)); p = &p->cons->cdr; if (++n > 300) throw Unsupported{"long"}; }
			if (p->k != K::List && code) throw Unsupported{"dotted code"};
			if (p->k != K::List) a.tail = std::make_shared<Ast>(toAst(*p, code));
			return a;
		}
		case K::Vec:
			if (code) throw CtError{"not an expression"};
			a.k = A::Vec;
			if (vlen(v) > 300) throw Unsupported{"long"};
			for (size_t i = 0; i < vlen(v); i++) a.e.push_back(toAst(v.vec->v[v.off + i], false));
			return a;
		case K::Type: throw Unsupported{"data without a literal form"};
		default: throw CtError{"not an expression"};
		}
	}

	// ---- compile

	struct Scope { std::map<std::string, int> vars, funcs; std::map<std::string, Value> macros; };
	struct Fn { Fn *parent; std::vector<Scope> scopes; Proto *proto; };

	Proto *newProto() { protos.emplace_back(new Proto()); return protos.back().get(); }
	Node *node(N n) { auto *x = mk<Node>(); x->n = n; return x; }

	// (found, isCap, index)
	bool lookup(Fn *f, const std::string &name, bool funcs, bool &cap, int &idx) {
		for (size_t i = f->scopes.size(); i--;) {
			auto &m = funcs ? f->scopes[i].funcs : f->scopes[i].vars;
			auto it = m.find(name);
			if (it != m.end()) { cap = false; idx = it->second; return true; }
		}
		if (!f->parent) return false;
		bool c; int k;
		if (!lookup(f->parent, name, funcs, c, k)) return false;
		for (size_t j = 0; j < f->proto->caps.size(); j++)
			if (f->proto->caps[j].first == !c && f->proto->caps[j].second == k) { cap = true; idx = (int) j; return true; }
		f->proto->caps.push_back({!c, k});
		cap = true;
		idx = (int) f->proto->caps.size() - 1;
		return true;
	}
	// 0 none, 1 function, 2 macro: the nearest scope that defines it as either
	int fnKind(Fn *f, const std::string &name) {
		for (Fn *g = f; g; g = g->parent)
			for (size_t i = g->scopes.size(); i--;) {
				if (g->scopes[i].macros.count(name)) return 2;
				if (g->scopes[i].funcs.count(name)) return 1;
			}
		return 0;
	}
	// The nearest macro of this name; fnKind(f, name) is 2.
	Value macroFn(Fn *f, const std::string &name) {
		for (Fn *g = f; g; g = g->parent)
			for (size_t i = g->scopes.size(); i--;) {
				auto it = g->scopes[i].macros.find(name);
				if (it != g->scopes[i].macros.end()) return it->second;
			}
		throw Unsupported{"macro"};
	}
	// Scopes of the compile-time environment follow those of the program.
	struct CtScope {
		Interp &in;
		explicit CtScope(Interp &i) : in(i) { in.ctDepth++; if (in.ct) in.ct->ctRoot->scopes.emplace_back(); }
		~CtScope() { in.ctDepth--; if (in.ct) in.ct->ctRoot->scopes.pop_back(); }
	};
	int ctDepth = 0;
	int expansions = 0; // in this text
	uint64_t ctRuns = 0; // macros and comptime forms run so far

	int bindName(Fn *f, const std::string &name, bool fn) {
		int k = f->proto->nslots++;
		f->scopes.back().vars[name] = k;
		if (fn) f->scopes.back().funcs[name] = k;
		return k;
	}

	static std::string base(const std::string &s) { return s.rfind("__", 0) == 0 ? s.substr(2) : s; }
	static int arityOf(const std::string &op) {
		static const std::map<std::string, int> m = {
			{"+", 2}, {"-", 2}, {"*", 2}, {"/", 2}, {"=", 2}, {"<", 2}, {">", 2}, {"not", 1}, {"cons", 2}, {"car", 1}, {"cdr", 1},
			{"set-car", 2}, {"set-cdr", 2}, {"null?", 1}, {"type-of", 1}, {"make-type", 0}, {"make-instance", 3}, {"composite-value", 1},
			{"composite-function", 1}, {"set-composite-value", 2}, {"set-composite-function", 2}, {"make-string", 1}, {"concatenate", 2},
			{"substring", 3}, {"length", 1}, {"symbol-string", 1}, {"symbol-id", 1}, {"make-vector", 2}, {"get-vector-element", 2},
			{"set-vector-element", 3}, {"list", -1}, {"vector", -1}};
		auto it = m.find(op);
		return it == m.end() ? -2 : it->second;
	}
	static bool isKeyword(const std::string &s) {
		static const char *k[] = {"var", "global", "setq", "while", "if", "when", "unless", "defun", "lambda", "defmacro", "noscope", "comptime",
			"quote", "funcall", "apply", "nop", "declare"};
		for (auto x : k) if (base(s) == x) return true;
		return arityOf(base(s)) != -2;
	}

	Node *compile(Fn *f, const Ast &a) {
		switch (a.k) {
		case A::Int: { auto *x = node(N::Const); x->c = vint(a.i); return x; }
		case A::Float: { auto *x = node(N::Const); x->c = vflt(a.d); return x; }
		case A::Bool: { auto *x = node(N::Const); x->c = vbool(a.i); return x; }
		case A::Str: { auto *x = node(N::Quote); x->name = a.s; return x; }
		case A::Id: {
			bool cap; int idx;
			if (lookup(f, a.s, false, cap, idx)) { auto *x = node(cap ? N::Cap : N::Local); x->idx = idx; return x; }
			auto *x = node(N::Global);
			x->name = a.s;
			return x;
		}
		case A::Vec: break;
		case A::Expr: return expr(f, a);
		}
		return nullptr;
	}
	// a form list in the current scope
	void body(Fn *f, const std::vector<Ast> &e, size_t from, std::vector<Node *> &out) {
		for (size_t i = from; i < e.size(); i++) out.push_back(stmt(f, e[i]));
	}
	Node *stmt(Fn *f, const Ast &a0) {
		Ast a = a0;
		// macros may expand to definitions in this scope
		for (int k = 0; k < 50; k++) {
			if (a.k != A::Expr || a.e.empty() || a.e[0].k != A::Id) break;
			if (fnKind(f, a.e[0].s) != 2) break;
			a = expand(f, a);
		}
		if (a.k == A::Expr && !a.e.empty() && a.e[0].k == A::Id && fnKind(f, a.e[0].s) == 0) {
			std::string h = base(a.e[0].s);
			if (h == "var") {
				if (a.e.size() != 3) throw CtError{"var"};
				if (a.e[1].k != A::Id) throw Unsupported{"var name"};
				auto *x = node(N::Bind);
				x->a.push_back(operand(f, a.e[2]));
				x->idx = bindName(f, a.e[1].s, false);
				return x;
			}
			if (h == "defun") {
				if (a.e.size() < 4) throw CtError{"defun"};
				if (a.e[1].k != A::Id) throw CtError{"defun name"};
				// Which one a macro call then means is not documented.
				if (comptime && fnKind(f, a.e[1].s) == 2) throw Unsupported{"compile-time function with the name of a macro"};
				auto *x = node(N::Bind);
				Ast l;
				l.e.assign(a.e.begin() + 1, a.e.end());
				x->a.push_back(lambda(f, l));
				x->idx = bindName(f, a.e[1].s, true);
				f->scopes.back().macros.erase(a.e[1].s);
				return x;
			}
			if (h == "noscope" || (h == "comptime" && comptime)) {
				auto *x = node(N::Body);
				body(f, a.e, 1, x->a);
				return x;
			}
		}
		return compile(f, a);
	}
	Node *scope(Fn *f, const std::vector<Ast> &e, size_t from) {
		auto *x = node(N::Body);
		f->scopes.emplace_back();
		CtScope cs(*this);
		body(f, e, from, x->a);
		f->scopes.pop_back();
		return x;
	}
	// l.e[0] is the name or `lambda`, l.e[1] the parameters, then the body
	Node *lambda(Fn *f, const Ast &l) {
		if (l.e.size() < 3) throw CtError{"lambda"};
		if (l.e[1].k != A::Expr) throw CtError{"lambda args"};
		auto *x = node(N::Lambda);
		CtScope cs(*this);
		Proto *p = x->proto = newProto();
		Fn g{f, {}, p};
		g.scopes.emplace_back();
		p->selfSlot = p->nslots++;
		g.scopes.back().vars["self"] = p->selfSlot;
		g.scopes.back().funcs["self"] = p->selfSlot;
		g.scopes.emplace_back();
		auto &ps = l.e[1].e;
		for (size_t i = 0; i < ps.size(); i++) {
			if (ps[i].k != A::Id) throw CtError{"param"};
			if (ps[i].s == "&rest") {
				if (i + 2 != ps.size()) throw CtError{"&rest"};
				p->variadic = true;
				continue;
			}
			bindName(&g, ps[i].s, false);
		}
		p->nparams = (int) ps.size() - (p->variadic ? 2 : 0);
		g.scopes.emplace_back();
		body(&g, l.e, 2, p->body);
		return x;
	}
	Node *opNode(N n, const std::string &name, Fn *f, const Ast &a, size_t from) {
		auto *x = node(n);
		x->name = name;
		x->a.resize(a.e.size() - from);
		if (n == N::Op && (name == "list" || name == "vector")) // compiled in the order in which they are evaluated
			for (size_t i = a.e.size(); i-- > from;) x->a[i - from] = operand(f, a.e[i]);
		else
			for (size_t i = from; i < a.e.size(); i++) x->a[i - from] = operand(f, a.e[i]);
		return x;
	}
	// A branch of a condition. The compiler drops branches which a constant condition never takes, perhaps before it
	// runs the compile-time code in them.
	template <class F> void branch(Node *cond, F fn) {
		bool constant = cond->n == N::Const || cond->n == N::Quote || cond->n == N::Nil;
		uint64_t before = ctRuns;
		if (constant) {
			try { fn(); }
			catch (CtError &) { if (ctRuns != before) throw Unsupported{"compile-time code under a constant condition"}; throw; }
		}
		else fn();
		if (constant && ctRuns != before) throw Unsupported{"compile-time code under a constant condition"};
	}
	// An operand whose value is used: an undefined variable here is an error. (Where a value is discarded the compiler
	// may drop the lookup.)
	Node *operand(Fn *f, const Ast &a) {
		Node *x = compile(f, a);
		used(x);
		return x;
	}
	static void used(Node *x) {
		switch (x->n) {
		case N::Global: x->idx = 1; break;
		case N::If: used(x->a[1]); used(x->a[2]); break;
		case N::When: case N::Unless: used(x->a[1]); break;
		case N::Body: if (!x->a.empty()) used(x->a.back()); break;
		default: break;
		}
	}
	Ast expand(Fn *f, const Ast &a) {
		// Run the macro in the compile-time environment on the quoted arguments.
		if (++expansions > 80) throw Diverges{};
		Value fn = macroFn(f, a.e[0].s);
		Interp &home = comptime ? *this : *ct;
		auto run = [&] {
			std::vector<Value> args;
			for (size_t i = 1; i < a.e.size(); i++) args.push_back(home.quote(a.e[i]));
			return home.call(fn, args);
		};
		Value v;
		if (comptime) {
			try { v = run(); }
			catch (RtError &e) { throw CtError{"compile-time: " + e.what}; }
		}
		else v = atCompileTime(run);
		return home.toAst(v, true);
	}
	template <class F> Value atCompileTime(F fn) {
		ctRuns++;
		ct->log.clear();
		ct->steps = 0;
		ct->depth = 0;
		Value v;
		try { v = fn(); }
		catch (RtError &e) { log += ct->log; throw CtError{"compile-time: " + e.what}; }
		catch (CtError &e) { log += ct->log; throw; }
		log += ct->log;
		return v;
	}
	Fn *ctRoot = nullptr; // for the compile-time interpreter: its top level, whose scopes follow those of the program
	std::vector<Cell *> ctSlots;
	Proto *ctProto = nullptr;
	int gensyms = 0;
	void needCt() {
		if (ct) return;
		ct = std::make_shared<Interp>();
		ct->comptime = true;
		ct->callbacks["gensym"] = [](Interp &in, std::vector<Value> &a) -> Value {
			if (!a.empty()) throw Unsupported{"gensym arity"};
			char b[24];
			snprintf(b, sizeof b, "%016x", in.gensyms++);
			return vsym(std::string(1, '\0') + b);
		};
		ct->callbacks["intern"] = [](Interp &in, std::vector<Value> &a) {
			(void) in;
			if (a.size() != 1) throw Unsupported{"intern arity"};
			if (a[0].k != K::Str) throw RtError{"intern"};
			return vsym(a[0].str ? a[0].str->s.substr(a[0].off, a[0].len - a[0].off) : "");
		};
		ct->callbacks["read"] = [](Interp &in, std::vector<Value> &a) {
			if (a.size() != 2) throw Unsupported{"read arity"};
			if (a[0].k != K::Str || a[1].k != K::Bool) throw RtError{"read"};
			if (a[1].i) throw Unsupported{"read with inference"};
			std::string t = in.text(a[0]);
			Reader r(t);
			try { return in.cons(in.quote(r.read()), vint(0)); }
			catch (CtError &) { return in.cons(vnil(), vint(2)); } // some error number
		};
		for (auto n : {"intern", "gensym", "read"}) { Value v; v.k = K::Fn; v.name = n; ct->globals[n] = v; }
		ct->ctProto = ct->newProto();
		ct->ctRoot = new Fn{nullptr, {}, ct->ctProto};
		ct->ctRoot->scopes.resize(1 + ctDepth);
	}
	~Interp() { delete ctRoot; }

	Node *expr(Fn *f, const Ast &a) {
		if (a.e.empty()) return node(N::Nil);
		if (a.e[0].k != A::Id) return scope(f, a.e, 0);
		const std::string &name = a.e[0].s;
		int kind = fnKind(f, name);
		if (kind == 2) {
			Ast x = expand(f, a);
			// The value of a macro call is its expansion, which may not define names here.
			if (x.k == A::Expr && !x.e.empty() && x.e[0].k == A::Id) {
				std::string b = base(x.e[0].s);
				if (b == "var" || b == "defun" || b == "noscope") throw Unsupported{"definition in expression position"};
			}
			return compile(f, x);
		}
		if (kind == 1) {
			bool cap; int idx;
			if (!lookup(f, name, true, cap, idx)) throw Unsupported{"function lookup"};
			auto *x = node(N::Call);
			auto *h = node(cap ? N::Cap : N::Local);
			h->idx = idx;
			x->a.push_back(h);
			for (size_t i = 1; i < a.e.size(); i++) x->a.push_back(operand(f, a.e[i]));
			return x;
		}
		if (callbacks.count(name)) return opNode(N::CCall, name, f, a, 1);
		std::string h = base(name);
		size_t n = a.e.size() - 1;
		if (!isKeyword(name)) {
			auto *x = node(N::Call);
			auto *g = node(N::Global);
			g->name = name;
			g->idx = 1;
			x->a.push_back(g);
			for (size_t i = 1; i < a.e.size(); i++) x->a.push_back(operand(f, a.e[i]));
			return x;
		}
		if (h == "var" || h == "defun" || h == "noscope") throw Unsupported{"definition in expression position"};
		if (h == "nop" || h == "declare") throw Unsupported{"nop"};
		if (h == "global") {
			if (n != 2) throw CtError{"global"};
			if (a.e[1].k != A::Id) throw Unsupported{"global name"};
			auto *x = opNode(N::DefGlobal, a.e[1].s, f, a, 2);
			return x;
		}
		if (h == "setq") {
			if (n != 2) throw CtError{"setq"};
			if (a.e[1].k != A::Id) throw CtError{"setq name"};
			auto *v = compile(f, a.e[2]);
			bool cap; int idx;
			Node *x;
			if (lookup(f, a.e[1].s, false, cap, idx)) { x = node(cap ? N::SetCap : N::SetLocal); x->idx = idx; }
			else { x = node(N::SetGlobal); x->name = a.e[1].s; }
			x->a.push_back(v);
			return x;
		}
		if (h == "if") {
			if (n != 3) throw CtError{"if"};
			auto *x = node(N::If);
			x->a.push_back(operand(f, a.e[1]));
			uint64_t before = ctRuns, between = 0;
			for (int i : {2, 3}) { between = ctRuns; branch(x->a[0], [&] { x->a.push_back(compile(f, a.e[i])); }); }
			// Which branch is compiled first is not documented.
			if (between != before && ctRuns != between) throw Unsupported{"compile-time code in both branches"};
			return x;
		}
		if (h == "when" || h == "unless" || h == "while") {
			if (n < 2) throw CtError{h};
			auto *x = node(h == "when" ? N::When : h == "unless" ? N::Unless : N::While);
			x->a.push_back(compile(f, a.e[1]));
			branch(x->a[0], [&] { x->a.push_back(scope(f, a.e, 2)); });
			return x;
		}
		if (h == "lambda") return lambda(f, a);
		if (h == "quote") {
			if (n != 1) throw CtError{"quote"};
			auto *x = node(N::Quote);
			x->idx = 1;
			asts.emplace_back(new Ast(a.e[1]));
			x->name = std::to_string(asts.size() - 1);
			return x;
		}
		if (h == "funcall") {
			if (n < 1) throw Unsupported{"funcall"};
			return opNode(N::Call, "", f, a, 1);
		}
		if (h == "apply") {
			if (n < 2) throw CtError{"apply"};
			return opNode(N::Apply, "", f, a, 1);
		}
		if (h == "defmacro") {
			if (comptime) throw Unsupported{"nested defmacro"};
			if (n < 3) throw CtError{"defmacro"};
			if (a.e[1].k != A::Id) throw CtError{"defmacro"};
			const std::string &m = a.e[1].s;
			needCt();
			Ast l;
			l.e.assign(a.e.begin() + 1, a.e.end());
			Value v = atCompileTime([&] { return ct->evalTop(ct->lambda(ct->ctRoot, l)); });
			f->scopes.back().macros[m] = v;
			f->scopes.back().funcs.erase(m);
			// At compile time it is a macro too, and its name is bound to the function.
			int k = ct->bindName(ct->ctRoot, m, false);
			ct->ctRoot->scopes.back().macros[m] = v;
			ct->ctRoot->scopes.back().funcs.erase(m);
			ct->ctSlots.resize(ct->ctProto->nslots);
			ct->ctSlots[k] = ct->mk<Cell>();
			ct->ctSlots[k]->v = v;
			return node(N::Nil);
		}
		if (h == "comptime") {
			if (comptime) {
				auto *x = node(N::Body);
				body(f, a.e, 1, x->a);
				for (auto *y : x->a) if (y->n == N::Bind) throw Unsupported{"definition in expression position"};
				return x;
			}
			needCt();
			Value v = atCompileTime([&] {
				auto *x = ct->node(N::Body);
				ct->body(ct->ctRoot, a.e, 1, x->a);
				return ct->evalTop(x);
			});
			auto *r = node(N::Quote);
			r->idx = 1;
			asts.emplace_back(new Ast(ct->toAst(v, false)));
			r->name = std::to_string(asts.size() - 1);
			return r;
		}
		int ar = arityOf(h);
		if (ar >= 0 && (int) n != ar) throw CtError{"arity of " + h};
		return opNode(N::Op, h, f, a, 1);
	}
	std::vector<std::unique_ptr<Ast>> asts;

	// ---- evaluate

	struct Frame { std::vector<Cell *> slots; Closure *fn; };

	Value evalTop(Node *x) {
		Frame fr;
		fr.fn = nullptr;
		if (comptime) { ctSlots.resize(ctProto->nslots); fr.slots = ctSlots; }
		Value v = eval(fr, x);
		if (comptime) ctSlots = fr.slots;
		return v;
	}
	Cell *&slot(Frame &fr, int i) { if ((int) fr.slots.size() <= i) fr.slots.resize(i + 1); return fr.slots[i]; }

	Value eval(Frame &fr, Node *x) {
		if (++steps > limit) throw Diverges{};
		switch (x->n) {
		case N::Nil: return vnil();
		case N::Const: return x->c;
		case N::Quote:
			if (x->idx) return quote(*asts[std::stoul(x->name)]);
			return str(x->name);
		case N::Local: { Cell *c = slot(fr, x->idx); if (!c) throw Unsupported{"unset local"}; return c->v; }
		case N::Cap: return fr.fn->caps[x->idx]->v;
		case N::Global: {
			auto it = globals.find(x->name);
			if (it == globals.end() && !x->idx) throw Unsupported{"discarded undefined variable"};
			if (it == globals.end()) throw RtError{"undefined " + x->name};
			return it->second;
		}
		case N::SetLocal: { Value v = eval(fr, x->a[0]); Cell *c = slot(fr, x->idx); if (!c) throw Unsupported{"unset local"}; return c->v = v; }
		case N::SetCap: { Value v = eval(fr, x->a[0]); return fr.fn->caps[x->idx]->v = v; }
		case N::SetGlobal: case N::DefGlobal: { Value v = eval(fr, x->a[0]); return globals[x->name] = v; }
		case N::Bind: {
			Value v = eval(fr, x->a[0]);
			Cell *c = mk<Cell>();
			c->v = v;
			slot(fr, x->idx) = c;
			return v;
		}
		case N::Body: {
			Value v;
			for (auto *s : x->a) v = eval(fr, s);
			return v;
		}
		case N::If: return truthy(eval(fr, x->a[0])) ? eval(fr, x->a[1]) : eval(fr, x->a[2]);
		case N::When: return truthy(eval(fr, x->a[0])) ? eval(fr, x->a[1]) : vnil();
		case N::Unless: return truthy(eval(fr, x->a[0])) ? vnil() : eval(fr, x->a[1]);
		case N::While:
			while (truthy(eval(fr, x->a[0]))) { eval(fr, x->a[1]); if (++steps > limit) throw Diverges{}; }
			return vnil();
		case N::Lambda: {
			Value v;
			v.k = K::Clo;
			v.clo = mk<Closure>();
			v.clo->p = x->proto;
			for (auto &c : x->proto->caps) {
				if (c.first) { Cell *s = slot(fr, c.second); if (!s) throw Unsupported{"capture of an unset local"}; v.clo->caps.push_back(s); }
				else v.clo->caps.push_back(fr.fn->caps[c.second]);
			}
			return v;
		}
		case N::Call: {
			Value fn = eval(fr, x->a[0]);
			std::vector<Value> args;
			for (size_t i = 1; i < x->a.size(); i++) args.push_back(eval(fr, x->a[i]));
			return call(fn, args);
		}
		case N::CCall: {
			std::vector<Value> args;
			for (auto *a : x->a) args.push_back(eval(fr, a));
			// a callback is a global: it may have been redefined
			auto it = globals.find(x->name);
			if (it->second.k != K::Fn) throw RtError{"not a callback"};
			return callbacks[it->second.name](*this, args);
		}
		case N::Apply: {
			Value fn = eval(fr, x->a[0]);
			std::vector<Value> args;
			for (size_t i = 1; i < x->a.size(); i++) args.push_back(eval(fr, x->a[i]));
			Value last = args.back();
			args.pop_back();
			if (last.k != K::List) throw RtError{"apply"};
			int n = 0;
			while (last.k == K::List && last.cons) { args.push_back(last.cons->car); last = Value(last.cons->cdr); if (++n > 500) throw Diverges{}; }
			if (last.k != K::List) {
				// The rest list of a variadic function may be dotted too: not documented.
				const Value *g = &fn;
				while (g->k == K::Comp) g = &g->comp->fn;
				if (g->k == K::Clo && g->clo->p->variadic) throw Unsupported{"apply of a variadic function on a dotted list"};
				throw RtError{"apply on a dotted list"};
			}
			return call(fn, args);
		}
		case N::Op: {
			std::vector<Value> a(x->a.size());
			if (x->name == "list" || x->name == "vector") // these evaluate their last argument first
				for (size_t i = a.size(); i--;) a[i] = eval(fr, x->a[i]);
			else
				for (size_t i = 0; i < a.size(); i++) a[i] = eval(fr, x->a[i]);
			// When a variable is read which an other operand assigns is not documented.
			for (size_t i = 0; i < a.size(); i++) if (x->a[i]->n == N::Local || x->a[i]->n == N::SetLocal)
				if (!identical(slot(fr, x->a[i]->idx)->v, a[i])) throw Unsupported{"operand assigned while the others are evaluated"};
			return op(x->name, a);
		}
		}
		return vnil();
	}

	Value call(const Value &fn, std::vector<Value> &args) {
		if (++steps > limit) throw Diverges{};
		if (fn.k == K::Comp) return call(fn.comp->fn, args);
		if (fn.k == K::Fn) return callbacks.at(fn.name)(*this, args);
		if (fn.k != K::Clo) throw RtError{"not a function"};
		Proto *p = fn.clo->p;
		if (p->variadic ? (int) args.size() < p->nparams : (int) args.size() != p->nparams) throw RtError{"arity"};
		if (++depth > 150) throw Diverges{};
		Frame fr;
		fr.fn = fn.clo;
		fr.slots.resize(p->nslots);
		auto bind = [&](int k, const Value &v) { Cell *c = mk<Cell>(); c->v = v; fr.slots[k] = c; };
		bind(p->selfSlot, fn);
		for (int i = 0; i < p->nparams; i++) bind(p->selfSlot + 1 + i, args[i]);
		if (p->variadic) bind(p->selfSlot + 1 + p->nparams, listOf(std::vector<Value>(args.begin() + p->nparams, args.end())));
		Value v;
		for (auto *s : p->body) v = eval(fr, s);
		depth--;
		return v;
	}

	static bool identical(const Value &a, const Value &b) {
		return a.k == b.k && a.i == b.i && !memcmp(&a.d, &b.d, sizeof a.d) && a.name == b.name && a.cons == b.cons && a.clo == b.clo && a.vec == b.vec
			&& a.comp == b.comp && a.str == b.str && a.off == b.off && a.len == b.len;
	}
	static bool num(const Value &v) { return v.k == K::Int || v.k == K::Float || v.k == K::Bool; }
	static double dbl(const Value &v) { return v.k == K::Float ? v.d : (double) v.i; }
	std::string text(const Value &v) {
		if (v.k == K::Sym) return v.name;
		return v.str ? v.str->s.substr(v.off, v.len - v.off) : "";
	}
	static size_t vlen(const Value &v) { return v.vec && v.off < v.vec->v.size() ? v.vec->v.size() - v.off : 0; }
	static Value emptyVec() { Value v; v.k = K::Vec; return v; }

	Value op(const std::string &o, std::vector<Value> &a) {
		if (o == "+" || o == "-" || o == "*" || o == "/") {
			if (!num(a[0]) || !num(a[1])) throw RtError{"arithmetic"};
			if (a[0].k == K::Float || a[1].k == K::Float) {
				double x = dbl(a[0]), y = dbl(a[1]);
				return vflt(o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y);
			}
			bool b = a[0].k == K::Bool && a[1].k == K::Bool;
			int64_t x = a[0].i, y = a[1].i, r;
			if (o == "+") r = (int64_t) ((uint64_t) x + (uint64_t) y);
			else if (o == "-") r = (int64_t) ((uint64_t) x - (uint64_t) y);
			else if (o == "*") r = (int64_t) ((uint64_t) x * (uint64_t) y);
			else {
				if (y == 0 || (y == -1 && x == INT64_MIN)) throw RtError{"division"};
				r = x / y;
			}
			return b ? vbool((uint8_t) r) : vint(r);
		}
		if (o == "<" || o == ">") {
			if (!num(a[0]) || !num(a[1])) throw RtError{"comparison"};
			bool l;
			if (a[0].k == K::Float || a[1].k == K::Float) l = o == "<" ? dbl(a[0]) < dbl(a[1]) : dbl(a[0]) > dbl(a[1]);
			else l = o == "<" ? a[0].i < a[1].i : a[0].i > a[1].i;
			return vbool(l);
		}
		if (o == "=") {
			switch (a[0].k) {
			case K::Fn: case K::Clo: case K::Comp: throw RtError{"="};
			default: break;
			}
			if (a[0].k != a[1].k) return vbool(0);
			switch (a[0].k) {
			case K::Bool: case K::Int: case K::Type: return vbool(a[0].i == a[1].i);
			case K::Float: return vbool(a[0].d == a[1].d);
			case K::Str: return vbool(text(a[0]) == text(a[1]));
			case K::Sym: return vbool(a[0].name == a[1].name);
			case K::List: return vbool(a[0].cons == a[1].cons);
			case K::Vec:
				// Whether two empty vectors are the same is not documented.
				if (!vlen(a[0]) && !vlen(a[1])) throw Unsupported{"empty vectors"};
				return vbool(a[0].vec == a[1].vec && (!a[0].vec || a[0].off == a[1].off));
			default: break;
			}
			return vbool(0);
		}
		if (o == "not") {
			switch (a[0].k) {
			case K::Bool: return vbool(!a[0].i);
			case K::Int: return vint(!a[0].i);
			case K::Float: return vflt(!a[0].d);
			case K::List: return vbool(!a[0].cons);
			case K::Vec: return vbool(!vlen(a[0]));
			default: throw RtError{"not"};
			}
		}
		if (o == "cons") return cons(a[0], a[1]);
		if (o == "list") return listOf(a);
		if (o == "vector") {
			Value v = emptyVec();
			if (a.empty()) return v;
			v.vec = mk<Vec>();
			v.vec->v = a;
			return v;
		}
		if (o == "make-vector") {
			if (a[0].k != K::Int || a[0].i < 0) throw RtError{"make-vector"};
			if (a[0].i > 5000) throw Unsupported{"big vector"};
			Value v = emptyVec();
			if (a[0].i == 0) return v;
			v.vec = mk<Vec>();
			v.vec->v.assign((size_t) a[0].i, a[1]);
			return v;
		}
		if (o == "car") {
			if (a[0].k == K::List) return a[0].cons ? a[0].cons->car : vnil();
			if (a[0].k == K::Vec) return vlen(a[0]) ? a[0].vec->v[a[0].off] : emptyVec();
			if (a[0].k == K::Str) return a[0].off < a[0].len ? vint((unsigned char) a[0].str->s[a[0].off]) : str("");
			throw RtError{"car"};
		}
		if (o == "cdr") {
			if (a[0].k == K::List) return a[0].cons ? a[0].cons->cdr : vnil();
			if (a[0].k == K::Vec) {
				if (vlen(a[0]) < 2) return emptyVec();
				Value v = a[0];
				v.off++;
				return v;
			}
			if (a[0].k == K::Str) {
				if (a[0].len - a[0].off < 2) return str("");
				Value v = a[0];
				v.off++;
				return v;
			}
			throw RtError{"cdr"};
		}
		if (o == "set-car") {
			if (a[0].k == K::List && a[0].cons) { a[0].cons->car = a[1]; return a[0]; }
			if (a[0].k == K::Vec && vlen(a[0])) { a[0].vec->v[a[0].off] = a[1]; return a[0]; }
			throw RtError{"set-car"};
		}
		if (o == "set-cdr") {
			if (a[0].k == K::List && a[0].cons) { a[0].cons->cdr = a[1]; return a[0]; }
			if (a[0].k == K::Vec && vlen(a[0])) {
				bool null = (a[1].k == K::List && !a[1].cons) || (a[1].k == K::Vec && !vlen(a[1]));
				if (!null) throw RtError{"set-cdr"};
				a[0].vec->v.resize(a[0].off + 1);
				return a[0];
			}
			throw RtError{"set-cdr"};
		}
		if (o == "null?") {
			switch (a[0].k) {
			case K::List: return vbool(!a[0].cons);
			case K::Vec: return vbool(!vlen(a[0]));
			case K::Str: return vbool(a[0].off >= a[0].len);
			default: return vbool(0);
			}
		}
		if (o == "type-of") {
			Value v;
			v.k = K::Type;
			switch (a[0].k) {
			case K::Bool: v.i = 1; break;
			case K::Int: v.i = 2; break;
			case K::Float: v.i = 3; break;
			case K::Str: v.i = 4; break;
			case K::List: v.i = 5; break;
			case K::Sym: v.i = 6; break;
			case K::Fn: v.i = 7; break;
			case K::Clo: v.i = 8; break;
			case K::Vec: v.i = 9; break;
			case K::Type: v.i = 10; break;
			case K::Comp: v.i = a[0].comp->type; break;
			}
			return v;
		}
		if (o == "make-type") { Value v; v.k = K::Type; v.i = nextType++; return v; }
		if (o == "make-instance") {
			if (a[0].k != K::Type || a[0].i < 1000) throw RtError{"make-instance"};
			Value v;
			v.k = K::Comp;
			v.comp = mk<Comp>();
			v.comp->type = a[0].i;
			v.comp->value = a[1];
			v.comp->fn = a[2];
			return v;
		}
		if (o == "composite-value" || o == "composite-function" || o == "set-composite-value" || o == "set-composite-function") {
			if (a[0].k != K::Comp) throw RtError{o};
			if (o == "composite-value") return a[0].comp->value;
			if (o == "composite-function") return a[0].comp->fn;
			if (o == "set-composite-value") a[0].comp->value = a[1];
			else a[0].comp->fn = a[1];
			return setComposite(o, a);
		}
		if (o == "make-string") {
			std::string s;
			if (a[0].k == K::Vec) {
				for (size_t i = 0; i < vlen(a[0]); i++) {
					auto &e = a[0].vec->v[a[0].off + i];
					if (e.k != K::Int) throw RtError{"make-string"};
					s += (char) e.i;
				}
				return str(s);
			}
			if (a[0].k == K::List) {
				Value p = a[0];
				while (p.k == K::List && p.cons) {
					if (p.cons->car.k != K::Int) throw RtError{"make-string"};
					s += (char) p.cons->car.i;
					if (s.size() > 600) throw Unsupported{"cyclic make-string"};
					p = Value(p.cons->cdr);
				}
				if (p.k != K::List) throw RtError{"make-string"};
				return str(s);
			}
			throw RtError{"make-string"};
		}
		if (o == "concatenate") {
			for (int i = 0; i < 2; i++) if (a[i].k != K::Str && a[i].k != K::Sym) throw RtError{"concatenate"};
			return str(text(a[0]) + text(a[1]));
		}
		if (o == "substring") {
			if (a[0].k != K::Str || a[1].k != K::Int || a[2].k != K::Int) throw RtError{"substring"};
			int64_t n = (int64_t) (a[0].len - a[0].off);
			if (a[1].i < 0 || a[2].i < 0 || a[1].i > n || a[2].i > n || a[2].i < a[1].i) throw RtError{"substring"};
			return str(text(a[0]).substr((size_t) a[1].i, (size_t) (a[2].i - a[1].i)));
		}
		if (o == "length") {
			if (a[0].k == K::Vec) return vint((int64_t) vlen(a[0]));
			if (a[0].k == K::Str) return vint((int64_t) (a[0].len - a[0].off));
			if (a[0].k == K::List) {
				int64_t n = 0;
				Value p = a[0];
				while (p.k == K::List && p.cons) { if (++n > 100000) throw RtError{"cyclic"}; p = Value(p.cons->cdr); }
				return vint(n);
			}
			throw RtError{"length"};
		}
		if (o == "symbol-string") {
			if (a[0].k != K::Sym) throw RtError{o};
			return str(a[0].name);
		}
		if (o == "symbol-id") {
			if (a[0].k != K::Sym) throw RtError{o};
			throw Unsupported{"symbol ids"};
		}
		if (o == "get-vector-element") {
			if ((a[0].k != K::Vec && a[0].k != K::Str) || a[1].k != K::Int) throw RtError{o};
			int64_t n = a[0].k == K::Vec ? (int64_t) vlen(a[0]) : (int64_t) (a[0].len - a[0].off);
			if (a[1].i < 0 || a[1].i >= n) throw RtError{o};
			if (a[0].k == K::Vec) return a[0].vec->v[a[0].off + (size_t) a[1].i];
			return vint((unsigned char) a[0].str->s[a[0].off + (size_t) a[1].i]);
		}
		if (o == "set-vector-element") {
			if (a[0].k == K::Str) throw Unsupported{"set-vector-element on a string"};
			if (a[0].k != K::Vec || a[1].k != K::Int) throw RtError{o};
			if (a[1].i < 0 || a[1].i >= (int64_t) vlen(a[0])) throw RtError{o};
			a[0].vec->v[a[0].off + (size_t) a[1].i] = a[2];
			return a[2];
		}
		throw Unsupported{o};
	}
	Value setComposite(const std::string &, std::vector<Value> &a) { return a[0]; }

	// ---- one evaluation in this session

	Result run(const std::string &src) {
		Result r;
		log.clear();
		steps = 0;
		depth = 0;
		ctDepth = 0;
		expansions = 0;
		if (ct) {
			// Compile-time names are forgotten, compile-time globals stay.
			ct->expansions = 0;
			ct->ctRoot->scopes.clear();
			ct->ctRoot->scopes.resize(1);
		}
		try {
			Reader rd(src);
			Ast a = rd.read();
			Proto *p = newProto();
			Fn f{nullptr, {}, p};
			f.scopes.emplace_back();
			Node *x = compile(&f, a);
			Frame fr;
			fr.fn = nullptr;
			fr.slots.resize(p->nslots);
			Value v = eval(fr, x);
			r.observable = "=> " + print(v) + " log[" + log + "]";
		}
		catch (CtError &e) { r.observable = "compile error log[" + log + "]"; r.why = e.what; }
		catch (RtError &e) { r.observable = "runtime error log[" + log + "]"; r.why = e.what; }
		catch (Diverges &) { r.diverged = true; }
		catch (Unsupported &u) { r.unsupported = true; r.why = u.what; }
		r.steps = steps;
		return r;
	}
};

} // namespace ref
