/* The host interface of one build variant: performs operations by number and shows the machine's complete state in a
   canonical form (sharing included). Only public headers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "duckLisp.h"
#include "duckVM.h"
#include "shim.h"
#include "capi.h"

#define EXPORT __attribute__((visibility("default")))
#define MAXLABELS 256

static dl_error_t global(duckVM_t *vm, duckVM_object_t *o, dl_ptrdiff_t key) {
	dl_error_t e = duckVM_pushGlobal(vm, key);
	return e ? e : duckVM_object_pop(vm, o);
}
static const duckVM_object_type_t g_builtin[] = {duckVM_object_type_integer, duckVM_object_type_string};
static const char *const g_typeNames[duckVM_object_type_last] = {
	[duckVM_object_type_bool] = "bool", [duckVM_object_type_integer] = "integer", [duckVM_object_type_float] = "float",
	[duckVM_object_type_string] = "string", [duckVM_object_type_list] = "list", [duckVM_object_type_symbol] = "symbol",
	[duckVM_object_type_function] = "function", [duckVM_object_type_closure] = "closure", [duckVM_object_type_vector] = "vector",
	[duckVM_object_type_type] = "type", [duckVM_object_type_composite] = "composite", [duckVM_object_type_user] = "user"};

/* ---- host objects ---- */

/* Handles (copied freely by the machine) refer to one heap object which owns the payload. */
typedef struct { int number; int destroyed, misuse; duckVM_object_t *ref; } host_t;
#define MAXHOSTS 4096
static host_t g_hosts[MAXHOSTS];
static int g_hosts_length, g_failing = -1;
static dl_error_t host_destroy(duckVM_gclist_t *gc, duckVM_object_t *o) {
	host_t *h = o->value.user.data;
	(void) gc;
	if (h < g_hosts || h >= g_hosts + g_hosts_length || h->number != h - g_hosts) abort();
	h->destroyed++;
	return h->number == g_failing ? dl_error_invalidValue : dl_error_ok;
}
static dl_error_t host_markPayload(duckVM_gclist_t *gc, dl_array_t *dispatch, duckVM_object_t *o) {
	host_t *h = o->value.user.data;
	(void) gc;
	if (h->destroyed) h->misuse++;
	return h->ref ? dl_array_pushElement(dispatch, &h->ref) : dl_error_ok;
}
static dl_error_t host_markHandle(duckVM_gclist_t *gc, dl_array_t *dispatch, duckVM_object_t *o) {
	duckVM_object_t *owner = o->value.user.data;
	(void) gc;
	return dl_array_pushElement(dispatch, &owner);
}
static dl_error_t host_make(duckVM_t *vm) {
	if (g_hosts_length == MAXHOSTS) return dl_error_invalidValue;
	host_t *h = &g_hosts[g_hosts_length];
	memset(h, 0, sizeof *h);
	h->number = g_hosts_length++;
	duckVM_object_t *owner = NULL, handle;
	dl_error_t e = duckVM_allocateHeapObject(vm, &owner, duckVM_object_makeUser(h, host_markPayload, host_destroy));
	if (e) { g_hosts_length--; return e; }
	handle = duckVM_object_makeUser(owner, host_markHandle, NULL);
	return duckVM_object_push(vm, &handle);
}
static host_t *host_of(const duckVM_object_t *o) {
	if (o->type != duckVM_object_type_user) return NULL;
	host_t *h = ((duckVM_object_t *) o->value.user.data)->value.user.data;
	return h >= g_hosts && h < g_hosts + MAXHOSTS ? h : NULL;
}
static dl_error_t host_set(duckVM_t *vm, long index) {
	duckVM_object_t v, hostObject, *p = NULL;
	long n = (long) duckVM_stackLength(vm);
	if (n == 0) return dl_error_invalidValue;
	if (index < 0) index += n;
	if (index < 0 || index >= n) return dl_error_invalidValue;
	dl_error_t e = duckVM_push(vm, index);
	if (e) return e;
	e = duckVM_object_pop(vm, &hostObject);
	if (e) return e;
	host_t *h = host_of(&hostObject);
	if (!h) return dl_error_invalidValue;
	e = duckVM_object_pop(vm, &v);
	if (e) return e;
	e = duckVM_object_push(vm, &v);
	if (e) return e;
	e = duckVM_allocateHeapObject(vm, &p, v);
	if (e) return e;
	h->ref = p;
	return e;
}
static dl_error_t host_get(duckVM_t *vm) {
	duckVM_object_t o, nil = duckVM_object_makeList(NULL);
	dl_error_t e = duckVM_object_pop(vm, &o);
	if (e) return e;
	e = duckVM_object_push(vm, &o);
	if (e) return e;
	host_t *h = host_of(&o);
	if (!h) return dl_error_invalidValue;
	return duckVM_object_push(vm, h->ref ? h->ref : &nil);
}
EXPORT void cp_failing(int which) { g_failing = which; }
/* The host objects which weren't destroyed; "!" marks one which was destroyed twice or used afterwards. */
EXPORT size_t cp_hosts(char *out, size_t max) {
	size_t n = 0;
	out[0] = 0;
	for (int i = 0; i < g_hosts_length && n + 20 < max; i++) {
		if (g_hosts[i].destroyed > 1 || g_hosts[i].misuse) n += snprintf(out + n, max - n, "%d! ", i);
		else if (!g_hosts[i].destroyed) n += snprintf(out + n, max - n, "%d ", i);
	}
	return n;
}
EXPORT int cp_hostCount() { return g_hosts_length; }
/* (host): a new host object. (dead n): was the nth host object destroyed? (refer h x): h refers to x. (referred h) */
static dl_error_t cb_host(duckVM_t *vm) { return host_make(vm); }
static dl_error_t cb_dead(duckVM_t *vm) {
	dl_ptrdiff_t n = -1;
	dl_error_t e = duckVM_copySignedInteger(vm, &n);
	if (e) return e;
	e = duckVM_pop(vm);
	if (e) return e;
	e = duckVM_pushBoolean(vm);
	if (e) return e;
	return duckVM_setBoolean(vm, n >= 0 && n < g_hosts_length && g_hosts[n].destroyed);
}
static dl_error_t cb_refer(duckVM_t *vm) {
	dl_error_t e = host_set(vm, -2);
	return e ? e : duckVM_pop(vm);
}
static dl_error_t cb_referred(duckVM_t *vm) {
	dl_error_t e = host_get(vm);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	return e ? e : duckVM_pop(vm);
}

typedef struct {
	shim_t *shim;
	duckVM_t *vm;
	unsigned char *setup;
	size_t setupLength;
	long globals[3], functions[C_FUNCTIONS + C_CALLBACKS];
	dl_ptrdiff_t names[C_FUNCTIONS];
	dl_size_t types[64];
	int types_length;
	int mode;
	char *out;
	size_t n, max;
	const void *labels[MAXLABELS];
	int slots[MAXLABELS], labels_length;
} cp_t;

static const char *const g_functionNames[] = {"f0", "f1", "f2", "f3", "f4", "wrap", "call0", "host", "dead", "refer", "referred"};
static const char g_setup[] =
	"(() (var x 7)"
	" (global f0 (lambda (a) a))"
	" (global f1 (lambda () x))"
	" (global f2 (lambda (a) (() (setq x a) a)))"
	" (global f3 (lambda (a &rest r) (cons a r)))"
	" (global f4 (lambda (a b) (vector a b)))"
	" (global g0 ()) (global g1 ()) (emit g0) (emit g1) (emit f0) (emit f1) (emit f2) (emit f3) (emit f4))";

/* (wrap x): a vector which holds x. */
static dl_error_t cb_wrap(duckVM_t *vm) {
	dl_error_t e = duckVM_pushVector(vm, 1);
	if (e) return e;
	e = duckVM_push(vm, -2);
	if (e) return e;
	e = duckVM_setElement(vm, 0, -2);
	if (e) return e;
	e = duckVM_pop(vm);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
/* (call0 f): the result of calling f without arguments. */
static dl_error_t cb_call0(duckVM_t *vm) {
	dl_error_t e = duckVM_call(vm, -1, 0);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}

static dl_error_t (*const g_callbacks[])(duckVM_t *) = {cb_wrap, cb_call0, cb_host, cb_dead, cb_refer, cb_referred};
static const char *const g_callbackTypes[] = {"(I)", "(I)", "()", "(I)", "(I I)", "(I)"};

static void quiet(cp_t *c) { shim_schedule(0, NULL, 0); (void) c; }
static void loud(cp_t *c) { if (c->mode) shim_schedule(1, NULL, 0); }

EXPORT int cp_reset(cp_t *c);
EXPORT cp_t *cp_new(const shim_cfg *cfg, int mode) {
	cp_t *c = calloc(1, sizeof *c);
	g_hosts_length = 0;
	c->shim = shim_new(cfg);
	if (shim_initError(c->shim)) return NULL;
	c->vm = shim_vm(c->shim);
	duckLisp_t *dl = shim_compiler(c->shim);
	for (int i = 0; i < C_LINKED; i++) {
		const char *n = g_functionNames[C_FUNCTIONS + i];
		if (duckLisp_linkCFunction(dl, g_callbacks[i], (dl_uint8_t *) n, strlen(n)
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) g_callbackTypes[i], strlen(g_callbackTypes[i])
#endif
		                           )) return NULL;
		if (duckVM_linkCFunction(c->vm, shim_key(c->shim, n), g_callbacks[i])) return NULL;
	}
	if (shim_compile(c->shim, g_setup, sizeof g_setup - 1, &c->setup, &c->setupLength)) return NULL;
	for (int i = 0; i < C_FUNCTIONS + C_CALLBACKS; i++) c->functions[i] = shim_key(c->shim, g_functionNames[i]);
	c->globals[0] = shim_key(c->shim, "g0");
	c->globals[1] = shim_key(c->shim, "g1");
	c->globals[2] = 1000000;
	c->mode = mode;
	if (cp_reset(c)) return NULL;
	for (int i = 0; i < C_FUNCTIONS; i++) {
		if (duckVM_pushGlobal(c->vm, c->functions[i])) return NULL;
		if (duckVM_copyClosureName(c->vm, &c->names[i])) return NULL;
		if (duckVM_pop(c->vm)) return NULL;
	}
	return c;
}
EXPORT shim_t *cp_shim(cp_t *c) { return c->shim; }
EXPORT void cp_delete(cp_t *c) {
	free(c->setup);
	shim_free(c->shim);
	free(c);
}
EXPORT int cp_reset(cp_t *c) {
	quiet(c);
	(void) dl_array_popElements(&c->vm->errors, dl_null, c->vm->errors.elements_length);
	int e = duckVM_softReset(c->vm);
	if (e) return e;
	shim_result r;
	shim_exec(c->shim, c->setup, c->setupLength, 1, &r);
	e = r.status;
	shim_resultFree(&r);
	c->types_length = 0;
	if (e) return e;
	e = duckVM_softReset(c->vm);
	if (e) return e;
	if (g_hosts_length) {
		/* Nothing refers to them now. */
		e = duckVM_garbageCollect(c->vm);
		if (e && g_failing < 0) return e;
		for (int i = 0; i < g_hosts_length; i++) if (g_hosts[i].destroyed != 1 || g_hosts[i].misuse) return 1000 + i;
		g_hosts_length = 0;
	}
	return 0;
}

/* ---- showing ---- */

static void o(cp_t *c, const char *s) { size_t n = strlen(s); if (c->n + n < c->max) { memcpy(c->out + c->n, s, n); c->n += n; } }
static void oi(cp_t *c, const char *f, long i) { char b[64]; snprintf(b, sizeof b, f, i); o(c, b); }
static void obytes(cp_t *c, const unsigned char *p, size_t n) { char b[8]; for (size_t i = 0; i < n; i++) { if (p[i] > 32 && p[i] < 127) snprintf(b, sizeof b, "%c", p[i]); else snprintf(b, sizeof b, "\\x%02x", p[i]); o(c, b); } }
static int label(cp_t *c, const void *p, int slot) {
	for (int i = 0; i < c->labels_length; i++) if (c->labels[i] == p && c->slots[i] == slot) { oi(c, "#%ld", i); return 0; }
	if (c->labels_length == MAXLABELS) { o(c, "#?"); return 0; }
	c->labels[c->labels_length] = p;
	c->slots[c->labels_length] = slot;
	oi(c, "#%ld", c->labels_length++);
	return 1;
}
static void otype(cp_t *c, dl_size_t t) {
	for (int i = 0; i < c->types_length; i++) if (c->types[i] == t) { oi(c, "T%ld", i); return; }
	for (int i = 0; i < 2; i++) if (g_builtin[i] == t) { oi(c, "B%ld", i); return; }
	o(c, "T?");
}
static void value(cp_t *c, const duckVM_object_t *v) {
	char b[64];
	if (!v) { o(c, "()"); return; }
	if (c->n + 100 > c->max) return;
	switch (v->type) {
	case duckVM_object_type_bool: o(c, v->value.boolean == 1 ? "true" : v->value.boolean == 0 ? "false" : "bool?"); break;
	case duckVM_object_type_integer: oi(c, "%ld", v->value.integer); break;
	case duckVM_object_type_float: snprintf(b, sizeof b, "%.17gf", v->value.floatingPoint); o(c, b); break;
	case duckVM_object_type_string: {
		o(c, "\"");
		const duckVM_object_t *s = v->value.string.internalString;
		if (s) {
			if (s->type != duckVM_object_type_internalString || v->value.string.offset < 0
			    || (size_t) v->value.string.offset > v->value.string.length
			    || v->value.string.length > s->value.internalString.value_length) o(c, "<corrupt>");
			else obytes(c, s->value.internalString.value + v->value.string.offset, v->value.string.length - v->value.string.offset);
		}
		else if (v->value.string.length != (size_t) v->value.string.offset) o(c, "<corrupt>");
		o(c, "\"");
		break;
	}
	case duckVM_object_type_list: value(c, v->value.list); break;
	case duckVM_object_type_cons:
		if (!label(c, v, -1)) break;
		o(c, "(");
		value(c, v->value.cons.car);
		o(c, " . ");
		value(c, v->value.cons.cdr);
		o(c, ")");
		break;
	case duckVM_object_type_symbol: {
		const duckVM_object_t *s = v->value.symbol.internalString;
		oi(c, "'%ld", (long) v->value.symbol.id);
		if (s) { o(c, ":"); if (s->type != duckVM_object_type_internalString) o(c, "<corrupt>"); else obytes(c, s->value.internalString.value, s->value.internalString.value_length); }
		break;
	}
	case duckVM_object_type_function: {
		int i;
		for (i = 0; i < C_CALLBACKS; i++) if (g_callbacks[i] == v->value.function.callback) break;
		oi(c, "K%ld", i);
		break;
	}
	case duckVM_object_type_closure: {
		int i;
		for (i = 0; i < C_FUNCTIONS; i++) if (c->names[i] == v->value.closure.name) break;
		oi(c, "F%ld", i);
		if (v->value.closure.bytecode->type != duckVM_object_type_bytecode) o(c, "<corrupt>");
		break;
	}
	case duckVM_object_type_vector: {
		const duckVM_object_t *iv = v->value.vector.internal_vector;
		o(c, "[");
		if (iv) {
			if (iv->type != duckVM_object_type_internalVector) o(c, "<corrupt>");
			else for (size_t i = v->value.vector.offset; i < iv->value.internal_vector.length; i++) {
				if (label(c, iv, (int) i)) { o(c, "="); value(c, iv->value.internal_vector.values[i]); }
				o(c, " ");
			}
		}
		o(c, "]");
		break;
	}
	case duckVM_object_type_type: otype(c, v->value.type); break;
	case duckVM_object_type_composite: {
		const duckVM_object_t *p = v->value.composite;
		if (!p || p->type != duckVM_object_type_internalComposite) { o(c, "<corrupt>"); break; }
		if (!label(c, p, -1)) break;
		o(c, "<");
		otype(c, p->value.internalComposite.type);
		o(c, " ");
		value(c, p->value.internalComposite.value);
		o(c, " ");
		value(c, p->value.internalComposite.function);
		o(c, ">");
		break;
	}
	case duckVM_object_type_user: {
		host_t *h = host_of(v);
		if (!h) { o(c, "<corrupt>"); break; }
		if (!label(c, h, -1)) break;
		o(c, "{");
		value(c, h->ref);
		o(c, "}");
		break;
	}
	default: oi(c, "<type %ld>", v->type);
	}
}
/* The complete state: every stack slot, both globals, the captured variable. */
EXPORT size_t cp_state(cp_t *c, char *out, size_t max) {
	duckVM_object_t g;
	size_t height;
	quiet(c);
	c->out = out; c->n = 0; c->max = max; c->labels_length = 0;
	height = duckVM_stackLength(c->vm);
	for (size_t i = 0; i < height; i++) {
		value(c, &DL_ARRAY_GETADDRESS(c->vm->stack, duckVM_object_t, i));
		o(c, ", ");
	}
	if (c->vm->upvalue_stack.elements_length != c->vm->stack.elements_length) o(c, "<upvalue stack out of step>");
	o(c, "| ");
	for (int i = 0; i < 2; i++) {
		if (global(c->vm, &g, c->globals[i])) o(c, "unset");
		else value(c, &g);
		o(c, ", ");
	}
	if (global(c->vm, &g, c->functions[1]) || g.type != duckVM_object_type_closure) o(c, "<f1 lost>");
	else {
		duckVM_upvalueArray_t a;
		duckVM_object_t x;
		if (duckVM_closure_getUpvalueArray(g.value.closure, &a) || a.length != 1 || duckVM_upvalueArray_getUpvalue(c->vm, a, &x, 0)) o(c, "<x lost>");
		else value(c, &x);
	}
	loud(c);
	return c->n;
}
/* What every inspecting function says about the top of the stack. */
EXPORT size_t cp_observe(cp_t *c, char *out, size_t max) {
	duckVM_t *vm = c->vm;
	duckVM_object_type_t t;
	dl_bool_t b;
	dl_ptrdiff_t i;
	dl_size_t n;
	double d;
	dl_uint8_t *s, u8;
	char buf[64];
	quiet(c);
	c->out = out; c->n = 0; c->max = max;
	oi(c, "length %ld", (long) duckVM_stackLength(vm));
	if (duckVM_typeOf(vm, &t)) o(c, " type -"); else { o(c, " type "); o(c, t < duckVM_object_type_last && g_typeNames[t] ? g_typeNames[t] : "?"); }
	b = 9;
	if (duckVM_copyBoolean(vm, &b)) o(c, " bool -"); else oi(c, " bool %ld", b);
	if (duckVM_copySignedInteger(vm, &i)) o(c, " int -"); else oi(c, " int %ld", i);
	if (duckVM_copyUnsignedInteger(vm, &n)) o(c, " uint -"); else oi(c, " uint %ld", (long) n);
	if (duckVM_copyFloat(vm, &d)) o(c, " float -"); else { snprintf(buf, sizeof buf, " float %.17g", d); o(c, buf); }
	s = NULL; n = 77;
	if (duckVM_copyString(vm, &s, &n)) o(c, " string -"); else { oi(c, " string %ld:", (long) n); if (n) obytes(c, s, n); if (s) (void) dl_free(vm->memoryAllocation, (void **) &s); }
	s = NULL; n = 77;
	if (duckVM_copySymbolName(vm, &s, &n)) o(c, " name -"); else { oi(c, " name %ld:", (long) n); if (n) obytes(c, s, n); if (s) (void) dl_free(vm->memoryAllocation, (void **) &s); }
	if (duckVM_copySymbolId(vm, &n)) o(c, " id -"); else oi(c, " id %ld", (long) n);
	if (duckVM_copyType(vm, &n)) o(c, " copyType -"); else { o(c, " copyType "); otype(c, n); }
	if (duckVM_copyCompositeType(vm, &n)) o(c, " compositeType -"); else { o(c, " compositeType "); otype(c, n); }
	if (duckVM_copyClosureArity(vm, &u8)) o(c, " arity -"); else oi(c, " arity %ld", u8);
	if (duckVM_copyClosureIsVariadic(vm, &b)) o(c, " variadic -"); else oi(c, " variadic %ld", b);
	if (duckVM_length(vm, &n)) o(c, " len -"); else oi(c, " len %ld", (long) n);
	o(c, " is ");
	static dl_error_t (*const is[])(duckVM_t *, dl_bool_t *) = {
		duckVM_isNone, duckVM_isBoolean, duckVM_isInteger, duckVM_isFloat, duckVM_isString, duckVM_isSymbol, duckVM_isType,
		duckVM_isComposite, duckVM_isList, duckVM_isNil, duckVM_isCons, duckVM_isVector, duckVM_isClosure, duckVM_isUser, duckVM_isEmpty};
	for (size_t k = 0; k < sizeof is / sizeof *is; k++) {
		b = 9;
		if (is[k](vm, &b)) o(c, "-"); else oi(c, "%ld", b);
	}
	loud(c);
	return c->n;
}
EXPORT void cp_clearErrors(cp_t *c) { (void) dl_array_popElements(&c->vm->errors, dl_null, c->vm->errors.elements_length); }

EXPORT int cp_op(cp_t *c, int op, long a, long b) {
	duckVM_t *vm = c->vm;
	duckVM_object_t x, *h;
	dl_size_t n;
	dl_error_t e;
	static dl_uint8_t bytes[] = "ab", name[] = "s";
	loud(c);
	switch (op) {
	case C_NIL: return duckVM_pushNil(vm);
	case C_BOOL: return duckVM_pushBoolean(vm);
	case C_INT: return duckVM_pushInteger(vm);
	case C_FLOAT: return duckVM_pushFloat(vm);
	case C_STRING: return duckVM_pushString(vm, bytes, a);
	case C_SYMBOL: return duckVM_pushSymbol(vm, 5, name, 1);
	case C_CSYMBOL: return duckVM_pushCompressedSymbol(vm, 6);
	case C_NEWTYPE:
		e = duckVM_pushNewType(vm);
		if (e) return e;
		e = duckVM_copyType(vm, &n);
		if (e) return e;
		if (c->types_length < 64) c->types[c->types_length++] = n;
		return 0;
	case C_EXTYPE: return duckVM_pushExistingType(vm, g_builtin[a]);
	case C_RETYPE:
		e = duckVM_copyType(vm, &n);
		return e ? e : duckVM_pushExistingType(vm, n);
	case C_COMPOSITE:
		if (a < 0) {
			e = duckVM_copyType(vm, &n);
			if (e) return e;
		}
		else n = g_builtin[a];
		return duckVM_pushComposite(vm, n);
	case C_CONS: return duckVM_pushCons(vm);
	case C_VECTOR: return duckVM_pushVector(vm, a);
	case C_PUSH: return duckVM_push(vm, a);
	case C_POP: return duckVM_pop(vm);
	case C_POPN: return duckVM_popSeveral(vm, a);
	case C_POPALL: return duckVM_popAll(vm);
	case C_SOFTRESET: return duckVM_softReset(vm);
	case C_COPYTOP: return duckVM_copyFromTop(vm, a);
	case C_SETBOOL: return duckVM_setBoolean(vm, a);
	case C_SETINT: return duckVM_setInteger(vm, a);
	case C_SETFLOAT: return duckVM_setFloat(vm, a + 0.5);
	case C_COMPVALUE: return duckVM_pushCompositeValue(vm);
	case C_COMPFUNCTION: return duckVM_pushCompositeFunction(vm);
	case C_SETCOMPVALUE: return duckVM_setCompositeValue(vm, a);
	case C_SETCOMPFUNCTION: return duckVM_setCompositeFunction(vm, a);
	case C_CAR: return duckVM_pushCar(vm);
	case C_FIRST: return duckVM_pushFirst(vm);
	case C_CDR: return duckVM_pushCdr(vm);
	case C_REST: return duckVM_pushRest(vm);
	case C_SETCAR: return duckVM_setCar(vm, a);
	case C_SETFIRST: return duckVM_setFirst(vm, a);
	case C_SETCDR: return duckVM_setCdr(vm, a);
	case C_SETREST: return duckVM_setRest(vm, a);
	case C_ELEMENT: return duckVM_pushElement(vm, a);
	case C_SETELEMENT: return duckVM_setElement(vm, a, b);
	case C_SETGLOBAL: return duckVM_setGlobal(vm, c->globals[a]);
	case C_GETGLOBAL: return duckVM_pushGlobal(vm, c->globals[a]);
	case C_FUNCTION: return duckVM_pushGlobal(vm, c->functions[a]);
	case C_CALL: return duckVM_call(vm, a, (dl_uint8_t) b);
	case C_ROUNDTRIP:
		e = duckVM_object_pop(vm, &x);
		return e ? e : duckVM_object_push(vm, &x);
	case C_MAKE:
		switch (a) {
		case 0: x = duckVM_object_makeBoolean(dl_true); break;
		case 1: x = duckVM_object_makeInteger(3); break;
		case 2: x = duckVM_object_makeFloat(1.5); break;
		case 3: e = duckVM_object_makeString(vm, &x, bytes, 2); if (e) return e; break;
		case 4: e = duckVM_object_makeSymbol(vm, &x, 5, name, 1); if (e) return e; break;
		case 5: duckVM_object_makeCompressedSymbol(&x, 6); break;
		case 6: x = duckVM_object_makeList(NULL); break;
		default: e = duckVM_allocateHeapObject(vm, &h, duckVM_object_makeCons(NULL, NULL)); if (e) return e; x = duckVM_object_makeList(h); break;
		}
		return duckVM_object_push(vm, &x);
	case C_GC: return duckVM_garbageCollect(vm);
	case C_HOST: return host_make(vm);
	case C_HOSTSET: return host_set(vm, a);
	case C_HOSTGET: return host_get(vm);
	case C_CHURN:
		for (int i = 0; i < 1000; i++) {
			e = duckVM_pushCons(vm);
			if (e) return e;
			e = duckVM_pop(vm);
			if (e) return e;
		}
		return 0;
	}
	return -1;
}
