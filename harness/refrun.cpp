#include <iostream>
#include "ref.hpp"
int main() {
	std::string l;
	while (std::getline(std::cin, l)) {
		std::cout << l << "\n";
		ref::Interp in;
		while (1) {
			size_t k = l.find("|||");
			auto r = in.run(l.substr(0, k));
			std::cout << "  " << (r.diverged ? "diverges" : r.unsupported ? "unsupported: " + r.why : r.observable) << "\n";
			if (k == std::string::npos) break;
			l = l.substr(k + 3);
		}
	}
}
