// The program spaces: bounded grammars shared by the properties. Each family is a size-indexed grammar; a tier takes
// every sentence up to the largest cost whose total stays within the tier's limit.
#pragma once
#include <memory>
#include "engine.hpp"
#include "gram.hpp"

// duck-lisp has no quote character: the program texts in the checks write 'x for (quote x).
inline std::string unquote(const std::string &t) {
	std::string o;
	std::vector<int> closeAt; // depths at which a quote has to be closed
	int depth = 0;
	bool str = false;
	for (size_t i = 0; i < t.size(); i++) {
		char c = t[i];
		if (str) {
			o += c;
			if (c == '\\' && i + 1 < t.size()) o += t[++i];
			else if (c == '"') { str = false; while (!closeAt.empty() && closeAt.back() == depth) o += ')', closeAt.pop_back(); }
			continue;
		}
		bool delim = c == '(' || c == ')' || c == '"' || c == ' ' || c == '\n';
		// an atom ends before a delimiter
		if (delim && i && t[i - 1] != '(' && t[i - 1] != ')' && t[i - 1] != ' ' && t[i - 1] != '"' && t[i - 1] != '\n' && t[i - 1] != '\'')
			while (!closeAt.empty() && closeAt.back() == depth) o += ')', closeAt.pop_back();
		if (c == '\'' && (i == 0 || t[i - 1] == '(' || t[i - 1] == ' ' || t[i - 1] == '\n' || t[i - 1] == '\'')) {
			o += "(quote ";
			closeAt.push_back(depth);
			continue;
		}
		o += c;
		if (c == '(') depth++;
		if (c == ')') { depth--; while (!closeAt.empty() && closeAt.back() == depth) o += ')', closeAt.pop_back(); }
		if (c == '"') str = true;
	}
	while (!closeAt.empty()) o += ')', closeAt.pop_back();
	return o;
}

struct Family {
	std::string name;
	std::shared_ptr<Gram> g;
	std::string start = "P";
	int maxCost = 0;
	uint64_t count = 0;
	std::string at(uint64_t i) const { return unquote(g->at(start, i)); }
	// every sentence of cost <= the largest cost that stays within `limit`
	void bound(uint64_t limit, int cap = 60) {
		maxCost = 0;
		count = 0;
		for (int c = 1; c <= cap; c++) {
			uint64_t n = g->countUpTo(start, c);
			if (n > limit) break;
			maxCost = c;
			count = n;
		}
	}
	std::string bounds() const {
		return "every sentence of grammar '" + name + "' of cost <= " + std::to_string(maxCost) + " (" + std::to_string(count) + ")";
	}
};

namespace corpus {
inline Family fam(const std::string &n) {
	Family f;
	f.name = n;
	f.g = std::make_shared<Gram>();
	return f;
}

// Nested scopes, shadowing, assignment, blocks in expression position.
inline Family scopes() {
	Family f = fam("scopes");
	f.g->rule("P", "(() (var x 3) (global y 4) {B} (list x y))", 0)
		.rule("B", "{S}", 0).rule("B", "{S} {B}", 0)
		.rule("S", "(var x {E})").rule("S", "(var y {E})").rule("S", "(setq x {E})").rule("S", "(setq y {E})")
		.rule("S", "(emit {V})").rule("S", "(() {B})").rule("S", "(noscope {B})").rule("S", "(global y {C})")
		.rule("E", "{C}", 0).rule("E", "{V}", 0).rule("E", "(+ {V} 10)").rule("E", "(() {B} {V})").rule("E", "(if {V} {E} {E})")
		.rule("V", "x").rule("V", "y")
		.rule("C", "1").rule("C", "0");
	return f;
}

// Closures: capture by reference, escape, sharing, nesting, recursion.
inline Family closures() {
	Family f = fam("closures");
	f.g->rule("P", "(() (var a 1) (var b 20) (var r (lambda () 7)) (defun f () (setq a (+ a 100)) a) (defun g (b) (setq r (lambda () (setq b (+ b 1000)) b)) b) {B} (list a b (funcall r)))", 0)
		.rule("B", "{S}", 0).rule("B", "{S} {B}", 0)
		.rule("S", "(var b {E})").rule("S", "(setq a {E})").rule("S", "(setq r {F})").rule("S", "(emit {E})")
		.rule("S", "(() {B})").rule("S", "(defun f () {B})").rule("S", "(defun g (b) {B})").rule("S", "(setq b {E})")
		.rule("S", "{E}", 0)
		.rule("E", "1").rule("E", "a").rule("E", "b").rule("E", "(+ a 1)").rule("E", "(f)").rule("E", "(g {E})")
		.rule("E", "(funcall r)").rule("E", "(funcall {F})")
		.rule("F", "(lambda () {B})").rule("F", "f");
	return f;
}

// Nested functions around up-values at several depths with mutation from every level.
inline Family upvalues() {
	Family f = fam("upvalues");
	f.g->rule("P", "(() (var a 1) (var k ()) (defun f (b) {T1}) {U} (list a (funcall k)))", 0)
		.rule("T1", "(var c {A1}) {M1} (setq k (lambda () {T2})) {M1} (+ a b)", 0)
		.rule("T2", "{M2} (funcall (lambda () {M2} {A2}))", 0).rule("T2", "{M2} {A2}", 0).rule("T2", "(var d {A2}) (funcall (lambda () {M3} (+ d c)))", 0)
		.rule("M1", "a").rule("M1", "(setq a (+ a {A1}))").rule("M1", "(setq b {A1})").rule("M1", "(emit c)").rule("M1", "(setq c (+ c 1))")
		.rule("M2", "()").rule("M2", "(setq a (+ a {A2}))").rule("M2", "(setq b (+ b 1))").rule("M2", "(setq c (+ b c))").rule("M2", "(emit (list a b c))")
		.rule("M3", "(setq d (+ d c))").rule("M3", "(setq c a)").rule("M3", "(setq a d)")
		.rule("A1", "2").rule("A1", "b").rule("A1", "a").rule("A2", "3").rule("A2", "a").rule("A2", "b").rule("A2", "c")
		.rule("U", "(emit (f 5))").rule("U", "(emit (f 5)) (emit (funcall k)) {U}").rule("U", "(emit (f 5)) (var k2 k) (emit (f 7)) (emit (funcall k2))")
		.rule("U", "(emit (f 5)) (setq a 50)");
	return f;
}

// Closures made in loops.
inline Family loops() {
	Family f = fam("loops");
	f.g->rule("P", "(() (var i 0) (var s 0) (var l ()) (while (< i 3) {B} (setq i (+ i 1))) (while l (emit (funcall (car l))) (setq l (cdr l))) (list i s))", 0)
		.rule("B", "{S}", 0).rule("B", "{S} {B}", 0)
		.rule("S", "(var j {E})").rule("S", "(var k {E})").rule("S", "(setq l (cons (lambda () {L}) l))").rule("S", "(setq s {E})").rule("S", "(() {B})")
		.rule("S", "(if (= i 1) {X} {X})").rule("S", "(when (< s 2) {B})")
		.rule("X", "(setq s (+ s 5))").rule("X", "i").rule("X", "(emit i)")
		.rule("L", "i").rule("L", "j").rule("L", "(setq j (+ j i))").rule("L", "(setq s (+ s 1))").rule("L", "(+ j k)")
		.rule("E", "i").rule("E", "s").rule("E", "7").rule("E", "(+ s i)").rule("E", "j");
	return f;
}
inline Family branches() {
	Family f = fam("branches");
	f.g->rule("P", "(() (var x 2) (var y ()) (global g 0) {S})", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(emit {L})").rule("E", "(setq x {E})").rule("E", "{L}")
		.rule("E", "(if {E} {E} {E})").rule("E", "(when {E} {S})").rule("E", "(unless {E} {S})").rule("E", "(not {E})").rule("E", "(() {S})")
		.rule("L", "x").rule("L", "0").rule("L", "7").rule("L", "()").rule("L", "y").rule("L", "false");
	return f;
}
inline Family branchLoops() {
	Family f = fam("loops and branches");
	f.g->rule("P", "(() (var i 0) (var j 0) (var t 3) {S} (list i j t))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(while (< i t) (setq i (+ i 1)) {S})").rule("E", "(while {C} {S} (setq t (- t 1)))").rule("E", "(while {C} (setq t (- t 1)))")
		.rule("E", "(while (() (setq t (- t 1)) {C}) {S})")
		.rule("E", "(if {C} {E} {E})").rule("E", "(when {C} {S})").rule("E", "(unless {C} {S})").rule("E", "(() {S})")
		.rule("E", "(emit {V})").rule("E", "(setq j (+ j {V}))").rule("E", "(var t {V})").rule("E", "(setq j (if {C} {V} {V}))").rule("E", "(setq j (while {C} (setq t (- t 1))))")
		.rule("C", "t").rule("C", "(> t 1)").rule("C", "(< j 3)").rule("C", "false").rule("C", "(not (= i 2))")
		.rule("V", "i").rule("V", "1").rule("V", "t");
	return f;
}
inline Family callPrograms() {
	Family f = fam("call programs");
	f.g->rule("P", "(() (var x 1) (var n 3) (defun f (a) {B}) (defun g (b &rest c) {G}) (var h (lambda (x y) {H})) {E})", 0)
		.rule("B", "a").rule("B", "(if a {R} x)").rule("B", "(emit a) {R}").rule("B", "(+ a x)").rule("B", "(setq x (+ x 1)) (list a x)").rule("B", "(lambda (b) (list a b x))").rule("B", "(self ())").rule("B", "(if a (self ()) 5)")
		.rule("R", "(f (cdr (list a)))").rule("R", "(g a a)").rule("R", "(f ())").rule("R", "(self (if a () 1))")
		.rule("G", "c").rule("G", "(list b c)").rule("G", "(if c (apply g c) b)").rule("G", "(apply f c)").rule("G", "(if c (apply self c) (list b))")
		.rule("H", "(list y x)").rule("H", "(f (+ x y))").rule("H", "(apply g x y (list x))").rule("H", "y")
		.rule("E", "{E} {E}", 0).rule("E", "(f {A})").rule("E", "(g {A})").rule("E", "(g {A} {A})").rule("E", "(funcall h {A} {A})").rule("E", "(apply h (list {A} {A}))").rule("E", "(emit (f {A}))").rule("E", "(call1 f {A})").rule("E", "(apply g {A} (list {A} 9))")
		.rule("A", "x").rule("A", "()").rule("A", "(f {A})").rule("A", "(g 4 {A})").rule("A", "7").rule("A", "(funcall h 2 {A})");
	return f;
}
inline Family recursion() {
	Family f = fam("recursion");
	f.g->rule("P", "(() (var d 0) (defun ev (n) {N}) (global od (lambda (n) {N})) (defun sum (n acc &rest k) {M}) (emit d) (list {C} d))", 0)
		.rule("N", "(if (= n 0) {Z} {S})", 0).rule("N", "(setq d (+ d 1)) (if (> n 0) {S} {Z})").rule("N", "(var m (- n 1)) (if (< m 0) {Z} (+ m {T}))")
		.rule("Z", "true").rule("Z", "d").rule("Z", "0").rule("S", "(od (- n 1))").rule("S", "(self (- n 1))").rule("S", "(+ 1 {T})").rule("S", "(list n {T})").rule("S", "(() (var q {T}) (list q n))").rule("S", "((lambda () {T}))").rule("S", "(call1 self (- n 1))")
		.rule("T", "(od (- n 1))").rule("T", "(self (- n 1))").rule("T", "(sum (- n 1) n)")
		.rule("M", "(if (= n 0) acc (apply self (- n 1) (+ acc n) n k))").rule("M", "(if (= n 0) (list acc k) (self (- n 1) (+ acc n) k))").rule("M", "(if (> n 0) (sum (- n 1) acc) k)")
		.rule("C", "(ev 4)").rule("C", "(od 3)").rule("C", "(sum 4 0)").rule("C", "(sum 3 1 8 9)").rule("C", "(ev 0)").rule("C", "(call1 od 2)");
	return f;
}
inline Family arithmetic() {
	Family f = fam("arithmetic expressions");
	f.g->rule("P", "(() (var x {C}) (var y {C}) (global g {C}) {E})", 0)
		.rule("C", "3").rule("C", "2.5").rule("C", "true").rule("C", "-7")
		.rule("E", "x").rule("E", "y").rule("E", "g").rule("E", "2").rule("E", "-0.5").rule("E", "false")
		.rule("E", "(+ {E} {E})").rule("E", "(- {E} {E})").rule("E", "(* {E} {E})").rule("E", "(/ {E} {E})")
		.rule("E", "(= {E} {E})").rule("E", "(< {E} {E})").rule("E", "(> {E} {E})").rule("E", "(not {E})");
	return f;
}
inline Family listHistories() {
	Family f = fam("list histories");
	f.g->rule("P", "(() (var a (list 1 2 3)) (var b a) (global c (cons 0 (cdr a))) (var q '(7 8)) {S} (list (length a) a b c q))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(setq {V} {L})").rule("E", "(set-car {L} {X})").rule("E", "(set-cdr {L} {L})").rule("E", "(emit (= {L} {L}))").rule("E", "(emit (null? {L}))").rule("E", "(emit (length {L}))")
		.rule("E", "(emit (set-car {V} 5))").rule("E", "(emit (set-cdr {V} ()))")
		.rule("V", "a").rule("V", "b").rule("V", "c").rule("V", "q")
		.rule("L", "{V}", 0).rule("L", "(cdr {V})").rule("L", "(cdr (cdr {V}))").rule("L", "(cons {X} {V})").rule("L", "()").rule("L", "(list 4 (car {V}))").rule("L", "(cons (car {V}) (cdr (cdr {V})))").rule("L", "'(7 8)")
		.rule("X", "9").rule("X", "{V}").rule("X", "(car {V})");
	return f;
}
inline Family vectorHistories() {
	Family f = fam("vector histories");
	f.g->rule("P", "(() (var a (vector 1 2 3)) (var b (cdr a)) (global c a) (var d (make-vector 2 a)) {S} (list (length a) (length b) a b c (length d)))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(setq {V} {L})").rule("E", "(set-car {L} {X})").rule("E", "(set-cdr {L} {N})").rule("E", "(set-vector-element {L} {I} {X})").rule("E", "(emit (get-vector-element {L} {I}))")
		.rule("E", "(emit (= {L} {L}))").rule("E", "(emit (null? {L}))").rule("E", "(emit (length {L}))").rule("E", "(emit (if {L} 1 2))").rule("E", "(emit (car {L}))")
		.rule("V", "a").rule("V", "b").rule("V", "c")
		.rule("L", "{V}", 0).rule("L", "(cdr {V})").rule("L", "(cdr (cdr {V}))").rule("L", "(vector)").rule("L", "(vector {X} 8)").rule("L", "(make-vector {I} {X})").rule("L", "(car d)")
		.rule("N", "()").rule("N", "(vector)").rule("I", "0").rule("I", "1").rule("I", "2")
		.rule("X", "9").rule("X", "(car {V})").rule("X", "d");
	return f;
}
inline Family stringHistories() {
	Family f = fam("string histories");
	f.g->rule("P", "(() (var a \"xyz\") (var b (cdr a)) (global c \"\") (var q 'sy) {S} (list (length a) (length b) (length c) a b c))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(setq {V} {L})").rule("E", "(emit (get-vector-element {L} {I}))").rule("E", "(emit (= {L} {L}))").rule("E", "(emit (null? {L}))").rule("E", "(emit (length {L}))").rule("E", "(emit (if {L} 1 2))").rule("E", "(emit (car {L}))").rule("E", "(emit (concatenate {L} {L}))")
		.rule("V", "a").rule("V", "b").rule("V", "c")
		.rule("L", "{V}", 0).rule("L", "(cdr {V})").rule("L", "(concatenate {V} {V})").rule("L", "(substring {V} {I} {I})").rule("L", "(concatenate q {V})").rule("L", "\"k\"").rule("L", "(make-string (list (car {V}) 65))").rule("L", "(make-string (vector 66))").rule("L", "(symbol-string q)")
		.rule("I", "0").rule("I", "1").rule("I", "2").rule("I", "(length a)");
	return f;
}
inline Family mixedNesting() {
	Family f = fam("mixed nesting");
	f.g->rule("P", "(() (var a {X}) (var b (list a a)) (var v (vector a b)) {S} (list a b v))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(setq a {X})").rule("E", "(set-car b {X})").rule("E", "(set-car (cdr b) {X})").rule("E", "(set-vector-element v 0 {X})").rule("E", "(set-vector-element v 1 {X})").rule("E", "(setq b (cons {X} b))").rule("E", "(setq v (cdr v))").rule("E", "(emit (= {X} {X}))").rule("E", "(set-cdr b {X})")
		.rule("X", "a").rule("X", "b").rule("X", "v").rule("X", "(car b)").rule("X", "(car v)").rule("X", "5").rule("X", "\"s\"").rule("X", "(get-vector-element v 1)").rule("X", "(vector a)").rule("X", "(list b)").rule("X", "'(1 (2 \"t\") u)");
	return f;
}
inline Family compositeHistories() {
	Family f = fam("composite histories");
	f.g->rule("P", "(() (var t (make-type)) (global u (make-type)) (var a (make-instance t 1 (lambda (x) (list x 'a)))) (var b (make-instance u a ())) (var k a) {S} (list a b k (= t u) (= (type-of a) t) (= (type-of b) u)))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(set-composite-value {C} {X})").rule("E", "(set-composite-function {C} {F})").rule("E", "(setq {V} {C})").rule("E", "(emit (type-of {X}))").rule("E", "(emit (= {T} {T}))").rule("E", "(emit (composite-value {C}))").rule("E", "(emit (funcall {C} {X}))").rule("E", "(setq t {T})").rule("E", "(emit (composite-function {C}))")
		.rule("V", "a").rule("V", "b").rule("V", "k")
		.rule("C", "{V}", 0).rule("C", "(make-instance {T} {X} {F})").rule("C", "(composite-value b)")
		.rule("T", "t").rule("T", "u").rule("T", "(make-type)").rule("T", "(type-of {X})")
		.rule("X", "{V}").rule("X", "5").rule("X", "t").rule("X", "'s").rule("X", "(composite-value {V})")
		.rule("F", "{V}").rule("F", "(lambda (x) x)").rule("F", "(composite-function {V})").rule("F", "emit").rule("F", "()");
	return f;
}
inline Family symbols() {
	Family f = fam("symbols");
	f.g->rule("P", "(() (var a 'x) (var b 'y) (global c '(x y (z))) {S} (list a b c))", 0)
		.rule("S", "{E}", 0).rule("S", "{E} {S}", 0)
		.rule("E", "(emit (= {X} {X}))").rule("E", "(emit (symbol-string {X}))").rule("E", "(emit (= (symbol-string {X}) (symbol-string {X})))").rule("E", "(setq {V} {X})").rule("E", "(emit (type-of {X}))").rule("E", "(emit (concatenate {X} {X}))").rule("E", "(setq c (cdr c))")
		.rule("V", "a").rule("V", "b")
		.rule("X", "{V}").rule("X", "'x").rule("X", "'y").rule("X", "(car c)").rule("X", "(car (cdr c))").rule("X", "'emit").rule("X", "'if").rule("X", "'(x)").rule("X", "(comptime ''x)");
	return f;
}
inline Family quotes() {
	Family f = fam("quotes");
	f.g->rule("P", "(() (var x 5) (list {D} x {D}))", 0)
		.rule("D", "(quote {Q})", 0)
		.rule("Q", "x").rule("Q", "7").rule("Q", "-1.5").rule("Q", "\"s\"").rule("Q", "true").rule("Q", "()").rule("Q", "({Q})").rule("Q", "({Q} {Q})").rule("Q", "(quote {Q})").rule("Q", "(if {Q} {Q})").rule("Q", "(x {Q})").rule("Q", "nil").rule("Q", "300").rule("Q", "\"\"").rule("Q", "(() {Q} ())").rule("Q", "lambda");
	return f;
}
inline std::vector<Family> all() {
	return {scopes(), closures(), upvalues(), loops(), branches(), branchLoops(), callPrograms(), recursion(), arithmetic(), listHistories(),
		vectorHistories(), stringHistories(), mixedNesting(), compositeHistories(), symbols(), quotes()};
}
} // namespace corpus
