#include "../harness/refcheck.hpp"
static Variant v;
int main(int argc, char **argv) {
	CheckInfo c;
	c.property = "P06";
	c.level = "exploration";
	c.rule = "distinct observable outcomes (result + emitted log, or the reported error); programs outside of the reference's domain or step bound are counted separately";
	c.setup = [](const std::string &lib) { v.load(lib, "default"); };
	c.spaces = [](bool th) {
		std::vector<Space> s;
		for (Family f : {corpus::scopes(), corpus::closures(), corpus::upvalues(), corpus::loops()}) {
			f.bound(th ? 3000000 : 60000);
			s.push_back(famSpace(f, [](const std::string &t) { return againstRef(v, defaultCfg(), t); }));
		}
		return s;
	};
	return runCheck(argc, argv, c);
}
