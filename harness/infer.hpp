// Parenthesis inference as docs/parenthesis-inference.md describes it: a reader's tree in, the inferred tree out.
#pragma once
#include "ref.hpp"
#include <functional>

struct Infer {
	typedef ref::Ast Ast;
	struct Sig;
	typedef std::function<void(Infer &, struct Call &)> Script;
	struct Sig {
		char kind = 'L'; // 'L', 'I': a variable; 'F': a function
		std::string pos; // one letter for each positional parameter
		bool variadic = false;
		int64_t defaults = 0;
		char rest = 'I';
		int script = 0; // 1: declares its first argument; 2: lambda; 3: defun, defmacro; 4: declares the first two arguments
	};
	std::vector<std::map<std::string, Sig>> scopes{1};
	long declarations = 0, inserted = 0;

	static Sig signature(const Ast &a) {
		Sig s;
		if (a.k == ref::A::Id) {
			if (a.s != "L" && a.s != "I") throw ref::CtError{"type"};
			s.kind = a.s[0];
			return s;
		}
		if (a.k != ref::A::Expr) throw ref::CtError{"type"};
		s.kind = 'F';
		for (size_t i = 0; i < a.e.size(); i++) {
			const Ast &x = a.e[i];
			if (x.isId("&rest")) {
				if (i + 3 != a.e.size()) throw ref::CtError{"type"};
				if (a.e[i + 1].k != ref::A::Int) throw ref::CtError{"type"};
				if (a.e[i + 2].k == ref::A::Expr) throw ref::Unsupported{"nested types"};
				s.variadic = true;
				s.defaults = a.e[i + 1].i;
				s.rest = signature(a.e[i + 2]).kind;
				break;
			}
			if (x.k == ref::A::Expr) throw ref::Unsupported{"nested types"};
			s.pos += signature(x).kind;
		}
		return s;
	}
	static Sig sig(const char *text) { std::string t = text; ref::Reader r(t); return signature(r.read()); }
	typedef std::map<std::string, Sig> Scope;
	static Scope builtins() {
		Scope all;
		auto builtin = [&](const char *name, const char *type, int script = 0) {
			for (std::string n : {std::string(name), "__" + std::string(name)}) { all[n] = sig(type); all[n].script = script; }
		};
		for (auto n : {"funcall", "apply", "while", "when", "unless"}) builtin(n, "(I &rest 1 I)");
		for (auto n : {"make-type"}) builtin(n, "()");
		for (auto n : {"noscope", "list", "vector"}) builtin(n, "(&rest 0 I)");
		builtin("comptime", "(&rest 1 I)");
		for (auto n : {"not", "quote", "car", "cdr", "null?", "type-of", "composite-value", "composite-function", "make-string", "length", "symbol-string", "symbol-id"}) builtin(n, "(I)");
		for (auto n : {"*", "/", "+", "-", "=", "<", ">", "make-vector", "get-vector-element", "cons", "set-car", "set-cdr", "set-composite-value", "set-composite-function", "concatenate"}) builtin(n, "(I I)");
		for (auto n : {"if", "set-vector-element", "make-instance", "substring"}) builtin(n, "(I I I)");
		builtin("setq", "(L I)");
		builtin("var", "(L I)", 1);
		builtin("global", "(L I)", 1);
		builtin("lambda", "(L &rest 1 I)", 2);
		builtin("defun", "(L L &rest 1 I)", 3);
		builtin("defmacro", "(L L &rest 1 I)", 3);
		builtin("declare", "(L L &rest 0 I)");
		builtin("infer-and-get-next-argument", "()");
		builtin("declare-identifier", "(I I)");
		builtin("declaration-scope", "(&rest 1 I)");
		for (auto n : {"emit", "intern"}) all[n] = sig("(I)");
		for (auto n : {"gc", "fail", "gensym"}) all[n] = sig("()");
		for (auto n : {"call1", "read"}) all[n] = sig("(I I)");
		return all;
	}
	const Sig *find(const std::string &n) {
		for (size_t i = scopes.size(); i--;) {
			auto it = scopes[i].find(n);
			if (it != scopes[i].end()) return &it->second;
		}
		static const Scope all = builtins();
		auto it = all.find(n);
		return it == all.end() ? nullptr : &it->second;
	}

	// The arguments of one call, taken one by one.
	struct Args {
		Infer &in;
		std::vector<Ast> &from; // where the arguments come from
		size_t &at;
		const Sig type;
		bool written; // the call has its parentheses
		std::vector<Ast> got;
		size_t k = 0;
		// All of the rest arguments count as one.
		size_t next() {
			size_t b = got.size();
			if (k > type.pos.size()) throw ref::CtError{"no such argument"};
			if (k < type.pos.size()) {
				if (at >= from.size()) throw ref::CtError{"too few arguments"};
				got.push_back(in.argument(from, at, type.pos[k] == 'I'));
			}
			else if (type.variadic) {
				if (!written && type.defaults < 0) throw ref::CtError{"needs parentheses"};
				for (int64_t i = 0; written ? at < from.size() : i < type.defaults; i++) got.push_back(in.argument(from, at, type.rest == 'I'));
			}
			k++;
			return b;
		}
		bool more() const { return k <= type.pos.size(); }
	};
	void declare(const Ast &name, const Sig &s) {
		if (name.k != ref::A::Id && name.k != ref::A::Str) throw ref::CtError{"name"};
		if (name.k == ref::A::Str) throw ref::Unsupported{"string as a name"};
		scopes.back()[name.s] = s;
		declarations++;
	}
	// Takes the next form, and whatever belongs to it, from the row.
	Ast argument(std::vector<Ast> &row, size_t &at, bool infer) {
		if (at >= row.size()) throw ref::CtError{"too few arguments"};
		Ast a = row[at++];
		if (a.k != ref::A::Id) {
			compound(a, infer);
			maybeDeclare(a, infer);
			return a;
		}
		bool mark = a.mark;
		a.mark = false;
		if (mark || !infer) return a;
		const Sig *s = find(a.s);
		if (!s) throw ref::CtError{"undeclared " + a.s};
		if (s->kind != 'F') return a;
		Ast c;
		c.e.push_back(a);
		Args args{*this, row, at, *s, false, {}, 0};
		call(args);
		for (auto &x : args.got) c.e.push_back(x);
		inserted++;
		maybeDeclare(c, infer);
		return c;
	}
	void call(Args &args) {
		auto type = [&](const Ast &params) {
			if (params.k != ref::A::Expr) throw ref::Unsupported{"parameters"};
			Sig s;
			s.kind = 'F';
			for (size_t i = 0; i < params.e.size(); i++) {
				if (params.e[i].k != ref::A::Id) throw ref::Unsupported{"parameters"};
				if (params.e[i].s == "&rest") {
					if (i + 2 != params.e.size()) throw ref::Unsupported{"parameters"};
					s.variadic = true;
					break;
				}
				s.pos += 'I';
			}
			return s;
		};
		if (args.type.script == 1) { Ast n = args.got[args.next()]; declare(n, Sig()); }
		if (args.type.script == 4) { Ast n = args.got[args.next()]; Ast m = args.got[args.next()]; declare(n, Sig()); declare(m, sig("(I)")); }
		if (args.type.script == 2 || args.type.script == 3) {
			Ast name;
			if (args.type.script == 3) name = args.got[args.next()];
			Ast params = args.got[args.next()];
			Sig t = type(params);
			scopes.emplace_back();
			for (auto &p : params.e) if (p.s != "&rest") declare(p, Sig());
			Ast self;
			self.k = ref::A::Id;
			self.s = "self";
			declare(self, t);
			args.next();
			scopes.pop_back();
			if (args.type.script == 3) declare(name, t);
		}
		while (args.more()) args.next();
	}
	void maybeDeclare(const Ast &a, bool infer) {
		if (a.k != ref::A::Expr || a.e.empty() || !(a.e[0].isId("declare") || a.e[0].isId("__declare"))) return;
		if (!infer || a.e.size() < 3 || a.e.size() > 4 || a.e[1].k != ref::A::Id) throw ref::Unsupported{"declare"};
		Sig s = signature(a.e[2]);
		if (a.e.size() == 4) {
			std::string t;
			ref::printAst(a.e[3], t);
			if (t == "(|declare-identifier| (|infer-and-get-next-argument|) (|quote| |L|))") s.script = 1;
			else if (t == "((|declare-identifier| (|infer-and-get-next-argument|) (|quote| |L|)) (|declare-identifier| (|infer-and-get-next-argument|) (|quote| (|I|))))") s.script = 4;
			else throw ref::Unsupported{"script"};
			if (s.kind != 'F') throw ref::CtError{"script of a variable"};
			if (s.pos.size() < 1 || (s.script == 4 && s.pos.size() < 2)) throw ref::Unsupported{"script"};
		}
		scopes.back()[a.e[1].s] = s;
		declarations++;
	}
	void unmark(Ast &a) { a.mark = false; for (auto &x : a.e) unmark(x); }
	void compound(Ast &a, bool infer) {
		if (a.k == ref::A::Id) { a.mark = false; return; }
		if (a.k != ref::A::Expr) return;
		if (!infer || a.mark || a.e.empty()) {
			std::function<void(const Ast &)> look = [&](const Ast &x) {
				if (x.isId("declare") || x.isId("__declare")) throw ref::Unsupported{"declare in a literal"};
				for (auto &y : x.e) look(y);
			};
			look(a);
			unmark(a);
			return;
		}
		Ast head = a.e[0];
		std::vector<Ast> row = a.e, out;
		size_t at = 1;
		if (head.k == ref::A::Id && !head.mark) {
			const Sig *s = find(head.s);
			if (!s) throw ref::CtError{"undeclared " + head.s};
			if (s->kind == 'I') throw ref::CtError{"not a function"};
			if (s->kind == 'F') {
				Args args{*this, row, at, *s, true, {}, 0};
				call(args);
				if (at != row.size()) throw ref::CtError{"too many arguments"};
				a.e = args.got;
				a.e.insert(a.e.begin(), head);
				return;
			}
		}
		bool scope = head.k != ref::A::Id;
		if (scope) { scopes.emplace_back(); at = 0; }
		else { head.mark = false; out.push_back(head); }
		while (at < row.size()) out.push_back(argument(row, at, true));
		if (scope) scopes.pop_back();
		a.e = out;
	}
	Ast run(const std::string &text) {
		ref::Reader r(text);
		Ast a = r.read();
		compound(a, true);
		return a;
	}
};
