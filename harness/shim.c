/* One copy of this file is compiled together with /repo's sources for every build configuration. It only uses
   duck-lisp's public headers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "duckLisp.h"
#include "duckVM.h"
#include "parser.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "shim.h"

#define EXPORT __attribute__((visibility("default")))

static struct {
	int mode;
	size_t n, count;
} g_faults;
EXPORT size_t shim_faults(int mode, size_t n) {
	size_t c = g_faults.count;
	g_faults.mode = mode;
	g_faults.n = n;
	g_faults.count = 0;
	return c;
}
#ifdef SHIM_FAULTS
void *__real_malloc(size_t n);
void *__real_realloc(void *p, size_t n);
void *__real_calloc(size_t m, size_t n);
void __sanitizer_print_stack_trace(void);
static int fault(void) {
	g_faults.count++;
	int f = g_faults.mode == 1 ? g_faults.count == g_faults.n : g_faults.mode == 2 && g_faults.count >= g_faults.n;
	/* For diagnosis. */
	if (f && g_faults.count == g_faults.n && getenv("SHIM_FAULT_TRACE")) __sanitizer_print_stack_trace();
	return f;
}
EXPORT void *__wrap_malloc(size_t n) { return fault() ? NULL : __real_malloc(n); }
EXPORT void *__wrap_realloc(void *p, size_t n) { return fault() ? NULL : __real_realloc(p, n); }
EXPORT void *__wrap_calloc(size_t m, size_t n) { return fault() ? NULL : __real_calloc(m, n); }
/* The shim's own memory is not part of this. */
#define malloc __real_malloc
#define realloc __real_realloc
#define calloc __real_calloc
#endif

typedef struct {
	char *data;
	size_t length, capacity;
} sbuf;

static void sb_n(sbuf *b, const char *s, size_t n) {
	if (b->length + n + 1 > b->capacity) {
		b->capacity = (b->length + n + 1) * 2 + 64;
		b->data = realloc(b->data, b->capacity);
	}
	memcpy(b->data + b->length, s, n);
	b->length += n;
	b->data[b->length] = 0;
}
static void sb(sbuf *b, const char *fmt, ...) {
	char tmp[256];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
	va_end(ap);
	sb_n(b, tmp, (size_t) n);
}
static char *sb_take(sbuf *b) {
	if (!b->data) sb_n(b, "", 0);
	char *r = b->data;
	b->data = NULL;
	b->length = b->capacity = 0;
	return r;
}

struct shim_s {
	shim_cfg cfg;
	dl_memoryAllocation_t ma, ma2;
	void *memory, *memory2;
	duckLisp_t dl;
	duckVM_t vm;
	sbuf log;
	const char *initError;
	int haveDl, haveVm;
};

static shim_t *g_current = NULL;

/* ---- canonical printing ---- */

static void p_bytes(sbuf *b, const dl_uint8_t *p, size_t n) {
	for (size_t i = 0; i < n; i++) {
		unsigned char c = p[i];
		if (c == '"' || c == '\\') sb(b, "\\%c", c);
		else if (c >= 32 && c < 127) sb(b, "%c", c);
		else sb(b, "\\x%02x", c);
	}
}

/* Values may be cyclic: the text is cut after this many characters. */
#define PRINT_LIMIT 1200
static void p_obj(sbuf *b, const duckVM_object_t *o);

static void p_ptr(sbuf *b, const duckVM_object_t *o) {
	if (o == NULL) {
		sb(b, "()");
		return;
	}
	p_obj(b, o);
}

static void p_cons(sbuf *b, const duckVM_object_t *o) {
	sb(b, "(");
	p_ptr(b, o->value.cons.car);
	const duckVM_object_t *c = o->value.cons.cdr;
	while (1) {
		if (b->length > PRINT_LIMIT) break;
		/* A boxed list is the same thing as the list. */
		while (c && c->type == duckVM_object_type_list) c = c->value.list;
		if (c == NULL) break;
		if (c->type == duckVM_object_type_cons) {
			sb(b, " ");
			p_ptr(b, c->value.cons.car);
			c = c->value.cons.cdr;
			continue;
		}
		sb(b, " . ");
		p_obj(b, c);
		break;
	}
	sb(b, ")");
}

static void p_float(sbuf *b, double d) {
	if (d != d) sb(b, "nanf");
	else sb(b, "%.17gf", d);
}

static void p_obj(sbuf *b, const duckVM_object_t *o) {
	if (b->length > PRINT_LIMIT) return;
	switch (o->type) {
	case duckVM_object_type_bool:
		if (o->value.boolean == 1) sb(b, "true");
		else if (o->value.boolean == 0) sb(b, "false");
		else sb(b, "bool:%d", (int) o->value.boolean);
		break;
	case duckVM_object_type_integer: sb(b, "%ld", (long) o->value.integer); break;
	case duckVM_object_type_float: p_float(b, o->value.floatingPoint); break;
	case duckVM_object_type_string: {
		sb(b, "\"");
		if (o->value.string.internalString) {
			const duckVM_object_t *is = o->value.string.internalString;
			if (is->type != duckVM_object_type_internalString) sb(b, "<corrupt string>");
			else if (o->value.string.offset < 0
			         || (size_t) o->value.string.offset > o->value.string.length
			         || o->value.string.length > is->value.internalString.value_length)
				sb(b, "<bad range %ld..%zu of %zu>", (long) o->value.string.offset,
				   (size_t) o->value.string.length, (size_t) is->value.internalString.value_length);
			else
				p_bytes(b, is->value.internalString.value + o->value.string.offset,
				        o->value.string.length - o->value.string.offset);
		}
		sb(b, "\"");
		break;
	}
	case duckVM_object_type_list: p_ptr(b, o->value.list); break;
	case duckVM_object_type_cons: p_cons(b, o); break;
	case duckVM_object_type_symbol:
		sb(b, "'");
		if (o->value.symbol.internalString) {
			const duckVM_object_t *is = o->value.symbol.internalString;
			if (is->type != duckVM_object_type_internalString) sb(b, "<corrupt symbol>");
			else p_bytes(b, is->value.internalString.value, is->value.internalString.value_length);
		}
		else sb(b, "#%zu", (size_t) o->value.symbol.id);
		break;
	case duckVM_object_type_function: sb(b, "<callback>"); break;
	case duckVM_object_type_closure:
		sb(b, "<closure %d%s>", (int) o->value.closure.arity, o->value.closure.variadic ? "?" : "");
		break;
	case duckVM_object_type_vector: {
		sb(b, "[");
		const duckVM_object_t *iv = o->value.vector.internal_vector;
		if (iv) {
			if (iv->type != duckVM_object_type_internalVector) sb(b, "<corrupt vector>");
			else for (size_t i = o->value.vector.offset; i < iv->value.internal_vector.length && b->length <= PRINT_LIMIT; i++) {
				if (i != (size_t) o->value.vector.offset) sb(b, " ");
				p_ptr(b, iv->value.internal_vector.values[i]);
			}
		}
		sb(b, "]");
		break;
	}
	case duckVM_object_type_type:
		if (o->value.type >= duckVM_object_type_last)
			sb(b, "::u%zu", (size_t) (o->value.type - duckVM_object_type_last));
		else sb(b, "::%zu", (size_t) o->value.type);
		break;
	case duckVM_object_type_composite: {
		const duckVM_object_t *ic = o->value.composite;
		if (!ic || ic->type != duckVM_object_type_internalComposite) {
			sb(b, "<corrupt composite>");
			break;
		}
		sb(b, "<comp ::u%ld ", (long) (ic->value.internalComposite.type - duckVM_object_type_last));
		p_ptr(b, ic->value.internalComposite.value);
		sb(b, " ");
		p_ptr(b, ic->value.internalComposite.function);
		sb(b, ">");
		break;
	}
	case duckVM_object_type_user: sb(b, "<user>"); break;
	default: sb(b, "<type %d>", (int) o->type);
	}
}

static char *print_obj(const duckVM_object_t *o) {
	sbuf b = {0};
	p_obj(&b, o);
	if (b.length > PRINT_LIMIT) {
		b.length = PRINT_LIMIT;
		sb(&b, "...");
	}
	return sb_take(&b);
}

/* ---- callbacks available to programs ---- */

/* (emit x): append the printed x to the log, return x. */
static dl_error_t cb_emit(duckVM_t *vm) {
	shim_t *s = g_current;
	if (vm->stack.elements_length < 1) return dl_error_invalidValue;
	const duckVM_object_t *o = &DL_ARRAY_GETADDRESS(vm->stack, duckVM_object_t, vm->stack.elements_length - 1);
	char *t = print_obj(o);
	if (s->log.length < 4000) {
		sb_n(&s->log, t, strlen(t));
		sb(&s->log, ";");
	}
	free(t);
	return dl_error_ok;
}

static void poison_free(duckVM_t *vm) {
	for (size_t i = 0; i < vm->gclist.freeObjects_length; i++) {
		duckVM_object_t *o = vm->gclist.freeObjects[i];
		memset(o, 0x5a, sizeof *o);
		o->type = duckVM_object_type_none;
		o->inUse = 0;
	}
}

/* (gc): collect garbage, scribble over everything which was freed, return nil. */
static dl_error_t cb_gc(duckVM_t *vm) {
	dl_error_t e = duckVM_garbageCollect(vm);
	if (e) return e;
	poison_free(vm);
	return duckVM_pushNil(vm);
}

/* (call1 f x): call f from C with argument x. */
static dl_error_t cb_call1(duckVM_t *vm) {
	/* stack: f x */
	dl_error_t e = duckVM_call(vm, -2, 1);
	if (e) return e;
	/* stack: f result */
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}

/* (fail): a callback that reports an error. */
static dl_error_t cb_fail(duckVM_t *vm) {
	(void) vm;
	return dl_error_invalidValue;
}

typedef struct {
	const char *name;
	dl_error_t (*cb)(duckVM_t *);
	const char *type;
} cbdef;

static const cbdef g_callbacks[] = {
	{"emit", cb_emit, "(I)"},
	{"gc", cb_gc, "()"},
	{"call1", cb_call1, "(I I)"},
	{"fail", cb_fail, "()"},
};

/* ---- collection schedules (needs the allocation hook in duckVM.c) ---- */

static struct {
	int mode; /* 0: as the machine decides, 1: before every allocation, 2: before the allocations listed in `at` */
	size_t at[4];
	int n;
	size_t count;
	int inside;
} g_schedule;

void duckVM_allocationHook(duckVM_t *vm) {
	if (g_schedule.inside) return;
	g_schedule.count++;
	int now = g_schedule.mode == 1;
	if (g_schedule.mode == 2) for (int i = 0; i < g_schedule.n; i++) if (g_schedule.at[i] == g_schedule.count) now = 1;
	if (!now) return;
	g_schedule.inside = 1;
	if (!duckVM_garbageCollect(vm)) poison_free(vm);
	g_schedule.inside = 0;
}

EXPORT void shim_schedule(int mode, const size_t *at, int n) {
	g_schedule.mode = mode;
	g_schedule.n = n > 4 ? 4 : n;
	for (int i = 0; i < g_schedule.n; i++) g_schedule.at[i] = at[i];
	g_schedule.count = 0;
}
EXPORT size_t shim_allocations(void) { return g_schedule.count; }

EXPORT const char *shim_features(void) {
	return ""
#ifdef USE_STDLIB
		"stdlib "
#endif
#ifdef USE_DUCKLIB_MALLOC
		"ducklib-malloc "
#endif
#ifdef USE_PARENTHESIS_INFERENCE
		"inference "
#endif
#ifdef NO_OPTIMIZE_JUMPS
		"no-optimize-jumps "
#endif
#ifdef NO_OPTIMIZE_PUSHPOPS
		"no-optimize-pushpops "
#endif
		;
}

static shim_t *make(const shim_cfg *cfg);

EXPORT shim_t *shim_new(const shim_cfg *cfg) {
	/* Starting up is not part of a schedule. */
	g_schedule.inside = 1;
	shim_t *s = make(cfg);
	g_schedule.inside = 0;
	return s;
}

static shim_t *make(const shim_cfg *cfg) {
	shim_t *s = calloc(1, sizeof *s);
	dl_error_t e;
	s->cfg = *cfg;
	size_t mem = cfg->memory;
#ifdef USE_DUCKLIB_MALLOC
	if (mem == 0) mem = 1024 * 1024;
#else
	if (mem == 0) mem = 1024;
#endif
	s->memory = malloc(mem);
	memset(s->memory, cfg->fill, mem);
	e = dl_memory_init(&s->ma, s->memory, mem, (dl_memoryFit_t) cfg->fit);
	if (e) {
		s->initError = "memory";
		return s;
	}
	if (cfg->separateArenas) {
		s->memory2 = malloc(mem);
		memset(s->memory2, cfg->fill, mem);
		e = dl_memory_init(&s->ma2, s->memory2, mem, (dl_memoryFit_t) cfg->fit);
		if (e) {
			s->initError = "memory";
			return s;
		}
	}
	dl_memoryAllocation_t *vma = cfg->separateArenas ? &s->ma2 : &s->ma;
	e = duckLisp_init(&s->dl, &s->ma, cfg->ctObjects
#ifdef USE_PARENTHESIS_INFERENCE
	                  , cfg->inferObjects
#endif
	                  );
	s->haveDl = 1;
	if (e) {
		s->initError = "compiler";
		return s;
	}
	e = duckVM_init(&s->vm, vma, cfg->vmObjects);
	s->haveVm = 1;
	if (e) {
		s->initError = "vm";
		return s;
	}
	for (size_t i = 0; i < sizeof g_callbacks / sizeof *g_callbacks; i++) {
		const cbdef *d = &g_callbacks[i];
		e = duckLisp_linkCFunction(&s->dl, d->cb, (dl_uint8_t *) d->name, strlen(d->name)
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) d->type, strlen(d->type)
#endif
		                           );
		if (e) {
			s->initError = "link";
			return s;
		}
		long key = (long) duckLisp_symbol_nameToValue(&s->dl, (dl_uint8_t *) d->name, strlen(d->name));
		e = duckVM_linkCFunction(&s->vm, key, d->cb);
		if (e) {
			s->initError = "link-vm";
			return s;
		}
	}
	return s;
}

EXPORT const char *shim_initError(shim_t *s) { return s->initError; }

EXPORT void shim_free(shim_t *s) {
	if (!s) return;
	g_current = s;
	if (s->haveVm) duckVM_quit(&s->vm);
	if (s->haveDl) duckLisp_quit(&s->dl);
	dl_memory_quit(&s->ma);
	if (s->cfg.separateArenas) dl_memory_quit(&s->ma2);
	free(s->memory);
	free(s->memory2);
	free(s->log.data);
	free(s);
}

static void take_errors(sbuf *b, dl_array_t *errors) {
	if (errors->elements_length) sb_n(b, errors->elements, errors->elements_length);
	if (errors->elements_length) (void) dl_array_popElements(errors, dl_null, errors->elements_length);
}

static dl_error_t compile(shim_t *s, const char *source, size_t length, dl_uint8_t **bc, dl_size_t *bl) {
	return duckLisp_loadString(&s->dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                           s->cfg.infer ? dl_true : dl_false,
#endif
	                           bc, bl, (const dl_uint8_t *) source, length, (const dl_uint8_t *) "<p>", 3);
}

static void exec_internal(shim_t *s, dl_uint8_t *bc, size_t bl, int pop, shim_result *out) {
	size_t before = s->vm.stack.elements_length;
	dl_error_t e = duckVM_execute(&s->vm, bc, bl);
	sbuf m = {0};
	take_errors(&m, &s->vm.errors);
	out->stack = s->vm.stack.elements_length;
	if (e) {
		out->status = SHIM_RUNTIME_ERROR;
		out->error = e;
	}
	else if (s->vm.stack.elements_length <= before) {
		out->status = SHIM_NO_RESULT;
	}
	else {
		out->status = SHIM_OK;
		out->value = print_obj(&DL_ARRAY_GETADDRESS(s->vm.stack, duckVM_object_t, s->vm.stack.elements_length - 1));
		if (pop) (void) duckVM_popSeveral(&s->vm, s->vm.stack.elements_length - before);
	}
	out->message = sb_take(&m);
	out->log = sb_take(&s->log);
}

EXPORT void shim_eval(shim_t *s, const char *source, size_t length, int pop, shim_result *out) {
	memset(out, 0, sizeof *out);
	g_current = s;
	dl_uint8_t *bc = NULL;
	dl_size_t bl = 0;
	/* The compiler gets an exact-size heap copy, so that overreads are visible to the address sanitizer. */
	char *copy = malloc(length ? length : 1);
	memcpy(copy, source, length);
	dl_error_t e = compile(s, copy, length, &bc, &bl);
	free(copy);
	if (e) {
		sbuf m = {0};
		out->status = SHIM_COMPILE_ERROR;
		out->error = e;
		take_errors(&m, &s->dl.errors);
		out->message = sb_take(&m);
		out->log = sb_take(&s->log);
		return;
	}
	(void) dl_array_popElements(&s->dl.errors, dl_null, s->dl.errors.elements_length);
	out->bytecodeLength = bl;
	exec_internal(s, bc, bl, pop, out);
	(void) dl_free(&s->ma, (void **) &bc);
}

EXPORT int shim_compile(shim_t *s, const char *source, size_t length, unsigned char **bytecode, size_t *bl_out) {
	dl_uint8_t *bc = NULL;
	dl_size_t bl = 0;
	g_current = s;
	char *copy = malloc(length ? length : 1);
	memcpy(copy, source, length);
	dl_error_t e = compile(s, copy, length, &bc, &bl);
	free(copy);
	(void) dl_array_popElements(&s->dl.errors, dl_null, s->dl.errors.elements_length);
	*bytecode = NULL;
	*bl_out = 0;
	if (e) return e;
	*bytecode = malloc(bl ? bl : 1);
	memcpy(*bytecode, bc, bl);
	*bl_out = bl;
	(void) dl_free(&s->ma, (void **) &bc);
	return 0;
}

EXPORT void shim_exec(shim_t *s, const unsigned char *bytecode, size_t length, int pop, shim_result *out) {
	memset(out, 0, sizeof *out);
	g_current = s;
	out->bytecodeLength = length;
	exec_internal(s, (dl_uint8_t *) bytecode, length, pop, out);
}

EXPORT int shim_gc(shim_t *s, int poison) {
	g_current = s;
	dl_error_t e = duckVM_garbageCollect(&s->vm);
	if (!e && poison) poison_free(&s->vm);
	return e;
}

EXPORT int shim_softReset(shim_t *s) {
	dl_error_t e = duckVM_softReset(&s->vm);
	(void) dl_array_popElements(&s->vm.errors, dl_null, s->vm.errors.elements_length);
	return e;
}

EXPORT size_t shim_liveObjects(shim_t *s) {
	(void) duckVM_garbageCollect(&s->vm);
	return s->vm.gclist.objects_length - s->vm.gclist.freeObjects_length;
}

EXPORT void shim_resultFree(shim_result *r) {
	free(r->value);
	free(r->log);
	free(r->message);
	memset(r, 0, sizeof *r);
}

EXPORT char *shim_disassemble(shim_t *s, const unsigned char *bytecode, size_t length) {
	dl_array_t d;
	sbuf b = {0};
	if (duckLisp_disassemble(&d, &s->ma, bytecode, length)) return NULL;
	sb_n(&b, d.elements, d.elements_length);
	(void) dl_array_quit(&d);
	return sb_take(&b);
}

static void p_ast(sbuf *b, const duckLisp_ast_compoundExpression_t *a) {
	switch (a->type) {
	case duckLisp_ast_type_none: sb(b, "#none"); break;
	case duckLisp_ast_type_expression:
	case duckLisp_ast_type_literalExpression:
		sb(b, "%s(", a->type == duckLisp_ast_type_expression ? "" : "#");
		for (size_t i = 0; i < a->value.expression.compoundExpressions_length; i++) {
			if (i) sb(b, " ");
			p_ast(b, &a->value.expression.compoundExpressions[i]);
		}
		sb(b, ")");
		break;
	case duckLisp_ast_type_identifier:
	case duckLisp_ast_type_callback:
		sb(b, "%s|", a->type == duckLisp_ast_type_identifier ? "" : "#");
		p_bytes(b, a->value.identifier.value, a->value.identifier.value_length);
		sb(b, "|");
		break;
	case duckLisp_ast_type_string:
		sb(b, "\"");
		p_bytes(b, a->value.string.value, a->value.string.value_length);
		sb(b, "\"");
		break;
	case duckLisp_ast_type_float: p_float(b, a->value.floatingPoint.value); break;
	case duckLisp_ast_type_int: sb(b, "%ld", (long) a->value.integer.value); break;
	case duckLisp_ast_type_bool: sb(b, "%s", a->value.boolean.value ? "true" : "false"); break;
	default: sb(b, "<ast %d>", (int) a->type);
	}
}

EXPORT char *shim_parse(shim_t *s, int inference, const char *source, size_t length, int *error) {
	duckLisp_ast_compoundExpression_t ast;
	(void) inference;
	duckLisp_ast_compoundExpression_init(&ast);
	char *copy = malloc(length ? length : 1);
	memcpy(copy, source, length);
	dl_error_t e = duckLisp_read(&s->dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                             inference ? dl_true : dl_false,
	                             s->dl.maxInferenceVmObjects,
	                             &s->dl.parenthesisInferrerTypes_array,
#endif
	                             (const dl_uint8_t *) "<p>", 3, (const dl_uint8_t *) copy, length, &ast, 0, dl_true);
	free(copy);
	(void) dl_array_popElements(&s->dl.errors, dl_null, s->dl.errors.elements_length);
	char *r = NULL;
	if (!e) {
		sbuf b = {0};
		p_ast(&b, &ast);
		r = sb_take(&b);
	}
	*error = e;
	(void) duckLisp_ast_compoundExpression_quit(&s->ma, &ast);
	return r;
}

EXPORT void *shim_vm(shim_t *s) { return &s->vm; }
EXPORT void *shim_compiler(shim_t *s) { return &s->dl; }

EXPORT long shim_key(shim_t *s, const char *name) {
	return (long) duckLisp_symbol_nameToValue(&s->dl, (const dl_uint8_t *) name, strlen(name));
}

EXPORT char *shim_printStack(shim_t *s, long index) {
	if (index < 0) index += (long) s->vm.stack.elements_length;
	if (index < 0 || (size_t) index >= s->vm.stack.elements_length) return NULL;
	return print_obj(&DL_ARRAY_GETADDRESS(s->vm.stack, duckVM_object_t, index));
}

/* Bytes in use in the arenas (builds with DuckLib's allocator). */
EXPORT size_t shim_memoryUsed(shim_t *s) {
	dl_size_t n = 0, m = 0;
	(void) duckVM_garbageCollect(&s->dl.vm);
	(void) duckVM_garbageCollect(&s->vm);
#ifdef USE_PARENTHESIS_INFERENCE
	/* The host's to read and to empty, like the errors. */
	(void) dl_array_quit(&s->dl.inferrerLog);
	(void) dl_array_init(&s->dl.inferrerLog, &s->ma, sizeof(dl_uint8_t), dl_array_strategy_double);
#endif
	(void) dl_memory_usage(&n, s->ma);
	if (s->cfg.separateArenas) (void) dl_memory_usage(&m, s->ma2);
	return n + m;
}

EXPORT size_t shim_stackLength(shim_t *s) { return duckVM_stackLength(&s->vm); }
