// Loads a build variant (shared object) and exposes its shim functions.
#pragma once
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include "shim.h"

struct Variant {
	std::string name;
	void *handle = nullptr;
#define V_FN(f) decltype(&::f) f = nullptr;
	V_FN(shim_new) V_FN(shim_initError) V_FN(shim_free) V_FN(shim_eval) V_FN(shim_compile) V_FN(shim_exec) V_FN(shim_gc)
	V_FN(shim_softReset) V_FN(shim_liveObjects) V_FN(shim_resultFree) V_FN(shim_disassemble) V_FN(shim_parse) V_FN(shim_vm)
	V_FN(shim_compiler) V_FN(shim_key) V_FN(shim_printStack) V_FN(shim_stackLength) V_FN(shim_features) V_FN(shim_schedule) V_FN(shim_allocations) V_FN(shim_memoryUsed) V_FN(shim_faults)
#undef V_FN
	template <class T> void sym(T &p, const char *n) {
		p = (T) dlsym(handle, n);
		if (!p) { fprintf(stderr, "missing symbol %s in %s\n", n, name.c_str()); exit(3); }
	}
	void load(const std::string &dir, const std::string &n) {
		name = n;
		handle = dlopen((dir + "/" + n + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
#define V_FN(f) sym(f, #f);
		V_FN(shim_new) V_FN(shim_initError) V_FN(shim_free) V_FN(shim_eval) V_FN(shim_compile) V_FN(shim_exec) V_FN(shim_gc)
		V_FN(shim_softReset) V_FN(shim_liveObjects) V_FN(shim_resultFree) V_FN(shim_disassemble) V_FN(shim_parse) V_FN(shim_vm)
		V_FN(shim_compiler) V_FN(shim_key) V_FN(shim_printStack) V_FN(shim_stackLength) V_FN(shim_features) V_FN(shim_schedule) V_FN(shim_allocations) V_FN(shim_memoryUsed) V_FN(shim_faults)
#undef V_FN
	}
};

inline shim_cfg defaultCfg() {
	shim_cfg c{};
	c.memory = 1 << 20;
	c.fit = 2;
	c.vmObjects = 256;
	c.ctObjects = 256;
	c.inferObjects = 256;
	c.infer = 0;
	c.fill = 0xA5;
	c.separateArenas = 0;
	return c;
}

struct Outcome {
	int status = -1, error = 0;
	std::string value, log, message;
	size_t stack = 0, bytecode = 0;
	// What a program's user can observe.
	std::string observable() const {
		switch (status) {
		case SHIM_OK: return "=> " + value + " log[" + log + "]";
		case SHIM_COMPILE_ERROR: return "compile error log[" + log + "]";
		case SHIM_RUNTIME_ERROR: return "runtime error log[" + log + "]";
		case SHIM_NO_RESULT: return "no result log[" + log + "]";
		default: return "init error";
		}
	}
};

inline Outcome takeResult(Variant &v, shim_result &r) {
	Outcome o;
	o.status = r.status;
	o.error = r.error;
	if (r.value) o.value = r.value;
	if (r.log) o.log = r.log;
	if (r.message) o.message = r.message;
	o.stack = r.stack;
	o.bytecode = r.bytecodeLength;
	v.shim_resultFree(&r);
	return o;
}

inline Outcome evalOnce(Variant &v, const shim_cfg &c, const std::string &src) {
	shim_t *s = v.shim_new(&c);
	Outcome o;
	if (v.shim_initError(s)) { o.status = SHIM_INIT_ERROR; v.shim_free(s); return o; }
	shim_result r;
	v.shim_eval(s, src.data(), src.size(), 1, &r);
	o = takeResult(v, r);
	v.shim_free(s);
	return o;
}
