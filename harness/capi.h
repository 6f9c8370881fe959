/* Operations of the host interface, as numbers. `a` and `b` are their parameters. */
#ifndef CAPI_H
#define CAPI_H
enum {
	C_NIL, C_BOOL, C_INT, C_FLOAT, C_STRING /*a: 0 "", 1 "a", 2 "ab"*/, C_SYMBOL, C_CSYMBOL, C_NEWTYPE, C_EXTYPE /*a*/,
	C_RETYPE /*push the type on top again, by number*/, C_COMPOSITE /*a: built-in type number, or -1: of the type on top*/,
	C_CONS, C_VECTOR /*a: length*/, C_PUSH /*a*/, C_POP, C_POPN /*a*/, C_POPALL, C_SOFTRESET, C_COPYTOP /*a*/,
	C_SETBOOL, C_SETINT /*a*/, C_SETFLOAT /*a*/, C_COMPVALUE, C_COMPFUNCTION, C_SETCOMPVALUE, C_SETCOMPFUNCTION /*a: index*/,
	C_CAR, C_FIRST, C_CDR, C_REST, C_SETCAR, C_SETFIRST, C_SETCDR, C_SETREST /*a: index*/, C_ELEMENT /*a: which*/,
	C_SETELEMENT /*a: which, b: index*/, C_SETGLOBAL, C_GETGLOBAL /*a: 0, 1: set at first, 2: never set*/,
	C_FUNCTION /*a: push function a*/, C_CALL /*a: index, b: number of arguments*/, C_ROUNDTRIP /*pop to C and push again*/,
	C_MAKE /*a: value built with duckVM_object_make: 0 bool 1 int 2 float 3 string 4 symbol 5 compressed symbol 6 list 7 type-less cons*/,
	C_GC, C_HOST /*make a host object*/, C_HOSTSET /*a: index; the host object there refers to the value on top*/,
	C_HOSTGET /*what the host object on top refers to*/, C_CHURN /*allocate more than the heap holds*/, C_LAST
};
#define C_FUNCTIONS 5
#define C_CALLBACKS 2 /* those which the model knows as values */
#define C_LINKED 6
#endif
