// The allocator: explicit-state search through the reachable states of the real allocator (its memory is saved and
// restored for each transition), against a model which knows the live blocks and their contents.
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include "../harness/engine.hpp"
static Variant g_v;
static std::string g_where;
extern "C" void __asan_on_error() { fprintf(stderr, "ERROR: AddressSanitizer (while exploring) %s\n", g_where.c_str()); }

struct lm_t;
static lm_t *(*lm_new)(size_t, int, int *);
static void (*lm_delete)(lm_t *);
static char *(*lm_arena)(lm_t *);
static int (*lm_malloc)(lm_t *, size_t, long *);
static int (*lm_free)(lm_t *, long);
static int (*lm_realloc)(lm_t *, long *, size_t);
static size_t (*lm_usage)(lm_t *);
static size_t (*lm_saveSize)(lm_t *);
static void (*lm_save)(lm_t *, char *);
static void (*lm_restore)(lm_t *, const char *);
static size_t (*lm_identity)(lm_t *, char *, size_t);
static void (*lm_table)(lm_t *, long *, size_t *);
static size_t (*lm_entrySize)();

struct Block { long off; size_t size; bool operator<(const Block &b) const { return off < b.off; } };
typedef std::vector<Block> Live;
static unsigned char pat(const Block &b, size_t i) { return (unsigned char) ((b.off * 7 + b.size * 31 + i * 13) ^ (i >> 8) ^ 0x3c); }
struct Op { char kind; int which; size_t size; };
struct Node { std::string image; Live live; int64_t parent; Op op; int depth; };

static std::string show(const Op &o) {
	char b[80];
	if (o.kind == 'm' || o.kind == 'M') snprintf(b, sizeof b, "malloc(%zu)", o.size);
	else if (o.kind == 'f') snprintf(b, sizeof b, "free(block %d)", o.which);
	else if (o.kind == 'r' || o.kind == 'R') snprintf(b, sizeof b, "realloc(block %d, %zu)", o.which, o.size);
	else if (o.kind == 'n') snprintf(b, sizeof b, "realloc(null, %zu)", o.size);
	else if (o.kind == 'i') snprintf(b, sizeof b, "free(inside of block %d)", o.which);
	else if (o.kind == 'j') snprintf(b, sizeof b, "realloc(inside of block %d, %zu)", o.which, o.size);
	else snprintf(b, sizeof b, "release everything");
	return b;
}
struct Search {
	lm_t *m = nullptr;
	int fit = 0;
	size_t arena = 0, maxLive = 0, maxStates = 0;
	std::vector<size_t> sizes;
	std::vector<Node> nodes;
	std::unordered_set<std::string> seen;
	uint64_t transitions = 0;
	int maxDepth = 0;
	bool truncated = false;
	std::string error;

	std::string path(int64_t n, const Op *last) {
		std::vector<std::string> s;
		for (; n > 0; n = nodes[n].parent) s.push_back(show(nodes[n].op));
		std::reverse(s.begin(), s.end());
		if (last) s.push_back(show(*last));
		std::string r;
		for (auto &x : s) r += (r.empty() ? "" : "; ") + x;
		return r;
	}
	void fill(const Block &b) { for (size_t i = 0; i < b.size; i++) lm_arena(m)[b.off + i] = (char) pat(b, i); }
	bool intact(const Block &b, const Block &as, size_t n) {
		for (size_t i = 0; i < n; i++) if ((unsigned char) lm_arena(m)[b.off + i] != pat(as, i)) return false;
		return true;
	}
	bool fail(const std::string &what) { error = what; return false; }
	// Is `b` a fit place for a block beside the live ones?
	bool place(const Live &l, const Block &b, int except) {
		if (b.off < 0 || b.off + b.size > arena) return fail("the block lies outside of the memory");
		if (b.off % 8) return fail("the block is not aligned");
		for (size_t i = 0; i < l.size(); i++) if ((int) i != except && b.off < (long) (l[i].off + l[i].size) && l[i].off < (long) (b.off + b.size)) return fail("the block overlaps block " + std::to_string(i));
		return true;
	}
	bool allIntact(const Live &l, int except) {
		for (size_t i = 0; i < l.size(); i++) if ((int) i != except && !intact(l[i], l[i], l[i].size)) return fail("the contents of block " + std::to_string(i) + " changed");
		return true;
	}
	// Free places as the fit policy sees them: the gaps between live blocks and the allocator's own table.
	std::vector<Block> gaps(const Live &l) {
		long t; size_t n;
		lm_table(m, &t, &n);
		Live all = l;
		for (auto &b : all) b.size += 8 - (b.size & 7);
		all.push_back({t, n});
		std::sort(all.begin(), all.end());
		std::vector<Block> r;
		long p = 0;
		for (auto &b : all) { if (b.off > p) r.push_back({p, (size_t) (b.off - p)}); p = b.off + b.size; }
		if (p < (long) arena) r.push_back({p, arena - p});
		return r;
	}
	bool policy(const Live &before, const Block &b, long table, size_t tableLength) {
		long t; size_t n;
		lm_table(m, &t, &n);
		if (t != table || n != tableLength) return true; // the table moved or grew: the gaps were others
		size_t need = b.size + 8 - (b.size & 7);
		const Block *chosen = nullptr;
		std::vector<Block> g = gaps(before), ok;
		for (auto &x : g) if (x.size >= need) ok.push_back(x);
		for (auto &x : ok) if (x.off == b.off) chosen = &x;
		if (!chosen) return fit == 1 ? true : fail("the block does not start at the beginning of a gap");
		for (auto &x : ok) {
			if (fit == 0 && x.off < chosen->off) return fail("first fit took a later gap");
			if (fit == 2 && x.size < chosen->size) return fail("best fit took a larger gap");
			if (fit == 3 && x.size > chosen->size) return fail("worst fit took a smaller gap");
		}
		return true;
	}
	// Has a request of `size` bytes an excuse to fail? The table may have to be moved first.
	bool tight(const Live &live, size_t size, size_t tableLength) {
		size_t need = size + 8 - (size & 7), most = 0;
		for (auto &g : gaps(live)) most = std::max(most, g.size);
		if (most >= need + tableLength + 2 * lm_entrySize()) return fail("the request failed although there is a gap of " + std::to_string(most) + " bytes");
		return true;
	}
	// Executes one transition on the real allocator; false on a violation.
	bool step(const Live &live, const Op &o, Live &next) {
		next = live;
		long table; size_t tableLength;
		lm_table(m, &table, &tableLength);
		switch (o.kind) {
		case 'm': case 'n': {
			Block b{-1, o.size};
			int e = o.kind == 'm' ? lm_malloc(m, o.size, &b.off) : lm_realloc(m, &b.off, o.size);
			if (e) {
				// Without growing its table the allocator must use any gap which is large enough.
				if (!tight(live, o.size, tableLength)) return false;
				return allIntact(live, -1);
			}
			if (!place(live, b, -1)) return false;
			fill(b);
			if (!allIntact(live, -1)) return false;
			if (!policy(live, b, table, tableLength)) return false;
			next.push_back(b);
			break;
		}
		case 'f': {
			int e = lm_free(m, live[o.which].off);
			if (e) return fail("the release of a live block failed");
			if (!allIntact(live, o.which)) return false;
			next.erase(next.begin() + o.which);
			break;
		}
		case 'r': {
			Block b = live[o.which], old = b;
			b.size = o.size;
			int e = lm_realloc(m, &b.off, o.size);
			if (e) {
				if (!tight(live, o.size <= old.size ? 0 : o.size, tableLength)) return false;
				return allIntact(live, -1); // the old block stays as it was
			}
			if (!place(live, b, o.which)) return false;
			if (!intact(b, old, std::min(b.size, old.size))) return fail("the contents of the block were not preserved");
			fill(b);
			if (!allIntact(live, o.which)) return false;
			next[o.which] = b;
			break;
		}
		case 'M': case 'R': {
			long p = o.kind == 'M' ? -1 : live[o.which].off;
			if (!(o.kind == 'M' ? lm_malloc(m, o.size, &p) : lm_realloc(m, &p, o.size))) return fail("a request larger than the memory succeeded");
			return allIntact(live, -1);
		}
		case 'i': {
			if (!lm_free(m, live[o.which].off + 8)) return fail("the release of a pointer which was never handed out succeeded");
			return allIntact(live, -1);
		}
		case 'j': {
			long p = live[o.which].off + 8;
			if (!lm_realloc(m, &p, o.size)) return fail("the reallocation of a pointer which was never handed out succeeded");
			return allIntact(live, -1);
		}
		}
		std::sort(next.begin(), next.end());
		size_t sum = 0;
		for (auto &b : next) sum += b.size;
		if (lm_usage(m) < sum || lm_usage(m) > arena) return fail("the reported usage is " + std::to_string(lm_usage(m)));
		return true;
	}
	// After every block is released the memory is usable again.
	bool drain(Live live, bool reverse) {
		while (!live.empty()) {
			int k = reverse ? (int) live.size() - 1 : 0;
			Live next;
			if (!step(live, {'f', k, 0}, next)) return false;
			live = next;
		}
		size_t u = lm_usage(m);
		long half = ((long) (arena - u) / 2) - 2 * (long) lm_entrySize() - 16;
		if (half > 0) {
			long p;
			if (lm_malloc(m, (size_t) half, &p)) return fail("after everything was released (usage " + std::to_string(u) + "), " + std::to_string(half) + " bytes could not be allocated");
			if (lm_free(m, p)) return fail("the release after draining failed");
			if (lm_malloc(m, (size_t) half, &p)) return fail("a released block could not be allocated again");
			if (!place({}, {p, (size_t) half}, -1)) return false;
		}
		return true;
	}
	std::string identity() {
		static char b[1 << 16];
		size_t n = lm_identity(m, b, sizeof b);
		return std::string(b, n);
	}
	bool run() {
		int e;
		m = lm_new(arena, fit, &e);
		if (e) { lm_delete(m); m = nullptr; return arena < 2 * lm_entrySize() + 8 ? true : fail("starting up failed"); }
		std::string image(lm_saveSize(m), 0);
		auto add = [&](const Live &l, int64_t parent, const Op &o, int depth) {
			std::string id = identity();
			for (auto &b : l) id += std::to_string(b.off) + ":" + std::to_string(b.size) + ",";
			if (!seen.insert(id).second) return;
			if (nodes.size() >= maxStates) { truncated = true; return; }
			lm_save(m, &image[0]);
			nodes.push_back({image, l, parent, o, depth});
			maxDepth = std::max(maxDepth, depth);
		};
		add({}, -1, {}, 0);
		bool ok = true;
		for (size_t n = 0; ok && n < nodes.size(); n++) {
			std::vector<Op> ops;
			Live live = nodes[n].live;
			if (live.size() < maxLive) for (auto s : sizes) ops.push_back({'m', 0, s});
			if (live.size() < maxLive) ops.push_back({'n', 0, sizes[sizes.size() / 2]});
			for (size_t huge : {(size_t) -1, (size_t) -4, (size_t) -8, (size_t) -17, arena}) {
				ops.push_back({'M', 0, huge});
				if (live.size()) ops.push_back({'R', (int) live.size() - 1, huge});
			}
			for (int k = 0; k < (int) live.size(); k++) {
				ops.push_back({'f', k, 0});
				for (auto s : sizes) if (s != live[k].size) ops.push_back({'r', k, s});
				if (live[k].size > 8) { ops.push_back({'i', k, 0}); ops.push_back({'j', k, sizes.back()}); }
			}
			for (auto &o : ops) {
				g_where = path(n, &o);
				lm_restore(m, nodes[n].image.data());
				for (auto &b : live) fill(b);
				Live next;
				transitions++;
				if (!step(live, o, next)) { error += "\n" + g_where; ok = false; break; }
				add(next, n, o, nodes[n].depth + 1);
			}
			for (int rev = 0; ok && rev < 2; rev++) {
				Op o{'d', 0, 0};
				g_where = path(n, &o);
				lm_restore(m, nodes[n].image.data());
				for (auto &b : live) fill(b);
				transitions++;
				if (!drain(live, rev)) { error += "\n" + g_where; ok = false; }
			}
		}
		lm_delete(m);
		return ok;
	}
};
static const char *fits[] = {"first", "next", "best", "worst"};
static Verdict explore(const std::string &text) {
	Search s;
	std::istringstream is(text);
	std::string w;
	while (is >> w) {
		size_t k = w.find('=');
		std::string a = w.substr(0, k), b = w.substr(k + 1);
		if (a == "fit") { for (int i = 0; i < 4; i++) if (b == fits[i]) s.fit = i; }
		else if (a == "memory") s.arena = std::stoul(b);
		else if (a == "live") s.maxLive = std::stoul(b);
		else if (a == "states") s.maxStates = std::stoul(b);
		else if (a == "sizes") { std::istringstream l(b); std::string x; while (std::getline(l, x, ',')) s.sizes.push_back(std::stoul(x)); }
	}
	if (!s.run()) return bad(s.error);
	if (getenv("P17_STATS")) fprintf(stderr, "%s: %zu states, %llu transitions, depth %d%s\n", text.c_str(), s.nodes.size(), (unsigned long long) s.transitions, s.maxDepth, s.truncated ? ", truncated" : "");
	Verdict v = good(text + std::to_string(s.nodes.size()), (uint32_t) s.transitions);
	v.states = s.nodes.size();
	return v;
}

int main(int argc, char **argv) {
	CheckInfo ci;
	ci.property = "P17";
	ci.level = "model_checking";
	ci.rule = "a case is one allocator (policy, memory size, request sizes, number of live blocks); all of its reachable states are explored, and every transition is executed on the real allocator and compared with the model";
	ci.assumptions = {"single-threaded use", "the request sizes listed per case"};
	ci.setup = [](const std::string &lib) {
		g_v.load(lib, "portable");
#define F(f) f = (decltype(f)) dlsym(g_v.handle, #f); if (!f) { fprintf(stderr, "no " #f "\n"); exit(3); }
		F(lm_new) F(lm_delete) F(lm_arena) F(lm_malloc) F(lm_free) F(lm_realloc) F(lm_usage) F(lm_saveSize) F(lm_save) F(lm_restore) F(lm_identity) F(lm_table) F(lm_entrySize)
	};
	ci.spaces = [](bool th) {
		std::vector<std::string> cases;
		size_t e = lm_entrySize();
		for (int f = 0; f < 4; f++) {
			for (size_t memory : {2 * e + 8, 3 * e, 4 * e + 16, 6 * e, 8 * e, 10 * e + 8, 12 * e, 16 * e, 24 * e})
				for (auto sizes : {"1,20,60", "7,8,100", "16,17,40,150"})
					for (int live : th ? std::vector<int>{3, 4, 6} : std::vector<int>{3, 6})
						cases.push_back(std::string("fit=") + fits[f] + " memory=" + std::to_string(memory) + " live=" + std::to_string(live) + " states=" + (th ? "400000" : "12000") + " sizes=" + sizes);
		}
		Space s = listSpace("reachable states of the allocator", "every sequence of allocations, reallocations and releases (valid and not) of the listed sizes, to the fixpoint or the listed number of states, breadth first", cases, explore);
		s.timeout = th ? 3000 : 120;
		return std::vector<Space>{s};
	};
	eng::Engine en;
	en.info = ci;
	return en.main(argc, argv);
}
