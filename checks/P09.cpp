#include "../harness/refmain.hpp"
typedef std::vector<std::string> SV;
// One operand in one of the positions an operand can have.
static const char *POS[] = {"constant", "local", "upvalue", "global", "computed", "deep local"};
static std::string prog(const std::string &op, const std::string &x, int px, const std::string &y, int py) {
	auto ref = [](int p, const char *n, const std::string &v) -> std::string {
		switch (p) {
		case 0: return v;
		case 1: return std::string("l") + n;
		case 2: return std::string("u") + n;
		case 3: return std::string("g") + n;
		case 4: return "(car (list " + v + "))";
		default: return std::string("l") + n;
		}
	};
	std::string body = "(" + op + " " + ref(px, "x", x) + " " + ref(py, "y", y) + ")";
	std::string pre;
	auto def = [&](int p, const char *n, const std::string &v) {
		if (p == 1) pre += "(var l" + std::string(n) + " " + v + ") ";
		if (p == 5) pre += "(var l" + std::string(n) + " " + v + ") (var z 0) (var z2 0) ";
	};
	std::string out = "(() ";
	auto outer = [&](int p, const char *n, const std::string &v) {
		if (p == 2) out += "(var u" + std::string(n) + " " + v + ") ";
		if (p == 3) out += "(global g" + std::string(n) + " " + v + ") ";
	};
	outer(px, "x", x);
	outer(py, "y", y);
	def(px, "x", x);
	def(py, "y", y);
	return out + "(funcall (lambda () " + pre + "(emit " + body + ") " + body + ")))";
}
int main(int argc, char **argv) {
	return refMain(argc, argv, "P09",
		[](bool th) {
			Family f = corpus::arithmetic();
			f.bound(th ? 4000000 : 120000);
			return std::vector<Family>{f};
		},
		[](bool th) {
			SV big = {"0", "1", "-1", "2", "-3", "7", "10", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
				"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775807",
				"4611686018427387904", "-9223372036854775808", "9007199254740993",
				"0.0", "-0.0", "1.0", "-1.0", "2.0", "0.5", "-2.5", "127.0", "9007199254740992.0", "(* 4294967296.0 2147483648.0)", "(/ 1.0 0.0)", "(/ -1.0 0.0)", "(/ 0.0 0.0)", "(/ 1.0 3.0)",
				"true", "false"};
			SV small = {"0", "1", "-1", "5", "200", "-300", "70000", "0.0", "-1.5", "2.0", "true", "false"};
			SV ops = {"+", "-", "*", "/", "=", "<", ">"};
			std::vector<RefLists> r;
			RefLists a{"operand pairs", "every operator x every ordered pair of " + std::to_string(big.size()) + " boundary values x operand positions", {}};
			for (auto &op : ops) for (auto &x : big) for (auto &y : big)
				for (int px = 0; px < 6; px++) for (int py = 0; py < 6; py++) {
					if (!th && !((px == 0 && py == 1) || (px == 1 && py == 0) || (px == 2 && py == 3) || (px == 0 && py == 0))) continue;
					a.cases.push_back(prog(op, x, px, y, py));
				}
			r.push_back(a);
			RefLists b{"operand positions", "every operator x every ordered pair of 12 values x every pair of operand positions", {}};
			for (auto &op : ops) for (auto &x : small) for (auto &y : small)
				for (int px = 0; px < 6; px++) for (int py = 0; py < 6; py++) b.cases.push_back(prog(op, x, px, y, py));
			r.push_back(b);
			// The same variable on both sides, and the same operand in every arrangement.
			RefLists c{"shared operands", "every operator x every value, both operands the same variable; not of every value", {}};
			for (auto &x : big) {
				for (auto &op : ops) {
					c.cases.push_back("(() (var x " + x + ") (" + op + " x x))");
					c.cases.push_back("(() (var x " + x + ") ((lambda () (" + op + " x x))))");
					c.cases.push_back("(() (global x " + x + ") (" + op + " x x))");
					c.cases.push_back("(() (var x " + x + ") (funcall (lambda () (list (" + op + " x x) x))))");
					c.cases.push_back("(() (var x " + x + ") (setq x (" + op + " x 3)) (list x x))");
				}
				for (auto &y : {x, std::string("(car (list " + x + "))")}) {
					c.cases.push_back("(not " + y + ")");
					c.cases.push_back("(() (var x " + y + ") (list (not x) (not (not x)) x))");
					c.cases.push_back("(() (var x " + y + ") (funcall (lambda () (list (not x) (not (not x)) x))))");
					c.cases.push_back("(() (global x " + y + ") (list (not x) (not (not x)) x))");
				}
				c.cases.push_back(x);
				c.cases.push_back("(list " + x + " '" + x + " (quote (" + x + ")))");
			}
			r.push_back(c);
			return r;
		});
}
