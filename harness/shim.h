/* Uniform, configuration-independent interface to one build variant of duck-lisp.
   Each variant is a shared object exporting these functions. */
#ifndef SHIM_H
#define SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct shim_s shim_t;

typedef struct {
	size_t memory;       /* arena size (used by the DuckLib-allocator builds) */
	int fit;             /* dl_memoryFit_t */
	size_t vmObjects;    /* runtime heap limit */
	size_t ctObjects;    /* compile-time heap limit */
	size_t inferObjects; /* inference-time heap limit (inference builds) */
	int infer;           /* parenthesis inference enabled for loadString (inference builds) */
	int fill;            /* byte which the arenas hold at first */
	int separateArenas;  /* 1: compiler and VM get an arena each */
} shim_cfg;

enum { SHIM_OK = 0, SHIM_COMPILE_ERROR = 1, SHIM_RUNTIME_ERROR = 2, SHIM_INIT_ERROR = 3, SHIM_NO_RESULT = 4 };

typedef struct {
	int status;          /* SHIM_* */
	int error;           /* dl_error_t of the failing call */
	char *value;         /* canonical print of the top of the stack (status OK) */
	char *log;           /* what the program emitted */
	char *message;       /* error messages */
	size_t stack;        /* stack length after execution */
	size_t bytecodeLength;
} shim_result;

shim_t *shim_new(const shim_cfg *cfg);
/* NULL on success, else the stage which failed. */
const char *shim_initError(shim_t *s);
void shim_free(shim_t *s);
/* Compile and run. The stack is popped to its previous height when `pop` is set. */
void shim_eval(shim_t *s, const char *source, size_t length, int pop, shim_result *out);
/* Compile only; bytecode is returned as malloc'd copy. */
int shim_compile(shim_t *s, const char *source, size_t length, unsigned char **bytecode, size_t *bytecodeLength);
/* Run bytecode. */
void shim_exec(shim_t *s, const unsigned char *bytecode, size_t length, int pop, shim_result *out);
int shim_gc(shim_t *s, int poison);
int shim_softReset(shim_t *s);
size_t shim_liveObjects(shim_t *s); /* objects in use after a forced collection */
void shim_resultFree(shim_result *r);
char *shim_disassemble(shim_t *s, const unsigned char *bytecode, size_t length);
/* AST of the source as a canonical string (malloc'd), or NULL when rejected. */
char *shim_parse(shim_t *s, int inference, const char *source, size_t length, int *error);
void *shim_vm(shim_t *s);
void *shim_compiler(shim_t *s);
long shim_key(shim_t *s, const char *name);
/* Canonical print of a stack slot (negative: from the top). malloc'd */
char *shim_printStack(shim_t *s, long index);
size_t shim_stackLength(shim_t *s);
size_t shim_memoryUsed(shim_t *s);
const char *shim_features(void);
/* When collections happen, counted in heap allocations from this call on. 0: as the machine decides; 1: before every
   allocation; 2: before the listed allocations. */
void shim_schedule(int mode, const size_t *at, int n);
size_t shim_allocations(void);
/* Memory requests of the library ("faults" builds), counted from this call on. 0: none fails; 1: the n-th fails; 2: the
   n-th and all later ones fail. Returns the number of requests since the previous call. */
size_t shim_faults(int mode, size_t n);

#ifdef __cplusplus
}
#endif
#endif
