// dlrun DIR VARIANT [infer] [vmObjects]: one program per line of stdin; prints the outcome of each (forked).
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include <string.h>
#include "variant.hpp"
int main(int argc, char **argv) {
	Variant v;
	v.load(argv[1], argv[2]);
	shim_cfg c = defaultCfg();
	if (argc > 3) c.infer = atoi(argv[3]);
	if (argc > 4) c.vmObjects = atoi(argv[4]);
	bool verbose = getenv("V") != nullptr;
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line.empty()) continue;
		printf("%s\n", line.c_str());
		fflush(stdout);
		pid_t p = fork();
		if (!p) {
			alarm(100);
			std::string rest = line;
			if (verbose) {
				shim_t *s = v.shim_new(&c);
				unsigned char *bc; size_t bl;
				int e = v.shim_compile(s, line.data(), line.size(), &bc, &bl);
				if (!e) { char *d = v.shim_disassemble(s, bc, bl); printf("%s\n", d ? d : "?"); }
			}
			// "|||" separates evaluations in one session
			shim_t *s = v.shim_new(&c);
			if (v.shim_initError(s)) printf("  init error %s\n", v.shim_initError(s));
			else while (1) {
				size_t k = rest.find("|||");
				std::string src = rest.substr(0, k);
				shim_result r;
				v.shim_eval(s, src.data(), src.size(), 1, &r);
				Outcome o = takeResult(v, r);
				printf("  %s  {stack %zu, bc %zu%s%s}\n", o.observable().c_str(), o.stack, o.bytecode, o.message.empty() ? "" : ", ", o.message.c_str());
				fflush(stdout);
				if (o.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
				if (k == std::string::npos) break;
				rest = rest.substr(k + 3);
			}
			v.shim_free(s);
			fflush(stdout);
			_exit(0);
		}
		int st;
		waitpid(p, &st, 0);
		if (st) printf("  CRASH %d\n", st);
	}
}
