// Exhaustive exploration engine: enumerates every case of a set of bounded spaces, runs each one against the real
// code in forked workers (crashes and hangs are verdicts, not accidents), replays every violation alone before
// reporting it, and writes the evidence file.
#pragma once
#include <algorithm>
#include <atomic>
#include <memory>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "variant.hpp"

struct Verdict {
	bool ok = true;
	std::string detail;   // what went wrong
	uint64_t sig = 0;     // hash of the observed outcome
	uint32_t steps = 1;   // transitions/executions made on the implementation
	bool nontrivial = true;
	uint64_t states = 0;  // model states explored by the case
	bool skipped = false; // outside of the bound (e.g. the reference diverges)
};

inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return h ? h : 1;
}
inline Verdict good(const std::string &observed, uint32_t steps = 1) {
	Verdict v;
	v.sig = fnv(observed);
	v.steps = steps;
	return v;
}
inline Verdict bad(const std::string &detail) {
	Verdict v;
	v.ok = false;
	v.detail = detail;
	return v;
}
inline Verdict skip() {
	Verdict v;
	v.skipped = true;
	v.nontrivial = false;
	return v;
}

struct Space {
	std::string name;
	std::string bounds;
	uint64_t count = 0;
	std::function<std::string(uint64_t)> make;
	std::function<Verdict(const std::string &)> run;
	int timeout = 10;
	uint64_t states = 0; // model states behind the cases, when the space is a state graph
};

// A list of texts as a space.
inline Space listSpace(const std::string &name, const std::string &bounds, std::vector<std::string> cases,
                       std::function<Verdict(const std::string &)> run) {
	Space s;
	s.name = name;
	s.bounds = bounds;
	auto p = std::make_shared<std::vector<std::string>>(std::move(cases));
	s.count = p->size();
	s.make = [p](uint64_t i) { return (*p)[i]; };
	s.run = run;
	return s;
}

struct CheckInfo {
	std::string property;
	std::string level;     // exploration | fault_enumeration | model_checking
	std::string rule;      // what makes a case nontrivial/distinct
	std::vector<std::string> assumptions;
	std::function<void(const std::string &libdir)> setup;
	std::function<std::vector<Space>(bool thorough)> spaces;
};

namespace eng {
inline std::string esc(const std::string &s) {
	std::string r;
	char b[8];
	for (unsigned char c : s) {
		if (c == '\\') r += "\\\\";
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char) c;
	}
	return r;
}
inline std::string unesc(const std::string &s) {
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\') { r += s[i]; continue; }
		i++;
		if (i >= s.size()) break;
		if (s[i] == 'n') r += '\n';
		else if (s[i] == 'x' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
		else r += s[i];
	}
	return r;
}
inline std::string json(const std::string &s) {
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char) c;
	}
	return r + "\"";
}
inline double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

constexpr int MAXW = 16;
constexpr uint64_t SIGS = 1 << 22;
struct Slot {
	std::atomic<uint64_t> pos, end;
	std::atomic<double> started;
	std::atomic<int> busy;
};
struct Shared {
	std::atomic<uint64_t> states, next, evaluated, nontrivial, skipped, steps, distinct, sigfull;
	Slot slots[MAXW];
	std::atomic<uint64_t> sigs[SIGS];
};

struct Violation {
	std::string space, text, detail;
	uint64_t index;
	bool timeout = false;
};

struct Engine {
	CheckInfo info;
	Shared *sh = nullptr;
	std::string tmp;
	int workers = 8;
	double budget = 1e9, t0 = 0, slow = 0;

	void addSig(uint64_t s) {
		uint64_t i = (s * 0x9E3779B97F4A7C15ull) >> 42;
		for (int k = 0; k < 64; k++, i = (i + 1) & (SIGS - 1)) {
			uint64_t cur = sh->sigs[i].load(std::memory_order_relaxed);
			if (cur == s) return;
			if (cur == 0) {
				uint64_t z = 0;
				if (sh->sigs[i].compare_exchange_strong(z, s)) { sh->distinct++; return; }
				if (z == s) return;
			}
		}
		sh->sigfull++;
	}

	void record(int w, uint64_t index, const std::string &detail) {
		std::string f = tmp + "/v" + std::to_string(w);
		std::ofstream o(f, std::ios::app);
		o << index << " " << esc(detail) << "\n";
	}

	void worker(int w, Space &sp, bool resume) {
		int fd = open((tmp + "/err" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 2);
		dup2(fd, 1);
		close(fd);
		Slot &sl = sh->slots[w];
		const uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, sp.count / 256));
		long done = 0;
		while (1) {
			if (!resume) {
				uint64_t b = sh->next.fetch_add(chunk);
				if (b >= sp.count) break;
				sl.pos = b;
				sl.end = std::min(b + chunk, sp.count);
			}
			resume = false;
			while (sl.pos < sl.end) {
				uint64_t i = sl.pos;
				std::string text = sp.make(i);
				sl.started = now();
				sl.busy = 1;
				Verdict v = sp.run(text);
				sl.busy = 0;
				if (slow > 0 && now() - sl.started > slow) {
					std::ofstream o(tmp + "/slow", std::ios::app);
					o << now() - sl.started << "s " << esc(text.size() < 300 ? text : text.substr(0, 150) + "..." + text.substr(text.size() - 150)) << "\n";
				}
				sh->evaluated++;
				if (v.skipped) sh->skipped++;
				else {
					sh->steps += v.steps;
					sh->states += v.states;
					if (v.nontrivial) sh->nontrivial++;
					if (v.ok) addSig(v.sig);
				}
				if (!v.ok) record(w, i, v.detail);
				sl.pos++;
				if (++done % 256 == 0) {
					struct rusage ru;
					getrusage(RUSAGE_SELF, &ru);
					if (ru.ru_maxrss > 1500000) _exit(sl.pos < sl.end ? 41 : 40); // fresh process, resume
				}
			}
		}
		_exit(0);
	}

	std::string tail(int w) {
		std::ifstream f(tmp + "/err" + std::to_string(w), std::ios::binary);
		std::stringstream ss;
		ss << f.rdbuf();
		std::string s = ss.str();
		// Keep the informative part of a sanitizer report.
		std::string r;
		std::istringstream is(s);
		std::string l;
		int frames = 0;
		while (std::getline(is, l)) {
			if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos) r += l + "\n";
			else if (l.find("    #") != std::string::npos && frames++ < 8) r += l + "\n";
		}
		if (r.empty()) r = s.substr(0, 400);
		return r;
	}

	// Run one case alone; true when it violates.
	bool runAlone(Space &sp, const std::string &text, int timeout, std::string &detail, bool verbose = false) {
		std::string f = tmp + "/alone";
		unlink(f.c_str());
		fflush(stdout);
		pid_t p = fork();
		if (!p) {
			if (!verbose) {
				int fd = open((tmp + "/err99").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
				dup2(fd, 2);
				dup2(fd, 1);
			}
			alarm(timeout);
			Verdict v = sp.run(text);
			std::ofstream o(f);
			o << (v.ok ? "ok" : "bad") << "\n" << v.detail;
			o.close();
			_exit(v.ok ? 0 : 3);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
			std::ifstream i(f);
			std::string l;
			std::getline(i, l);
			std::stringstream ss;
			ss << i.rdbuf();
			detail = ss.str();
			return true;
		}
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) detail = "does not terminate (limit " + std::to_string(timeout) + " s)";
		else {
			detail = "crash (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")\n";
			if (!verbose) detail += tail(99);
		}
		return true;
	}

	// true when the space was explored completely
	bool explore(Space &sp, std::vector<Violation> &out, size_t maxViolations) {
		sh->next = 0;
		std::vector<pid_t> pids(workers, 0);
		for (int w = 0; w < workers; w++) {
			unlink((tmp + "/v" + std::to_string(w)).c_str());
			sh->slots[w].busy = 0;
			sh->slots[w].pos = sh->slots[w].end = 0;
		}
		auto spawn = [&](int w, bool resume) {
			fflush(stdout);
			pid_t p = fork();
			if (!p) worker(w, sp, resume);
			pids[w] = p;
		};
		size_t crashes = 0;
		for (int w = 0; w < workers; w++) spawn(w, false);
		int alive = workers;
		bool stop = false, complete = true;
		while (alive) {
			int st;
			pid_t p = waitpid(-1, &st, WNOHANG);
			if (p <= 0) {
				usleep(3000);
				double t = now();
				for (int w = 0; w < workers; w++) {
					Slot &sl = sh->slots[w];
					if (pids[w] && sl.busy && t - sl.started > sp.timeout) {
						uint64_t i = sl.pos;
						kill(pids[w], SIGKILL);
						waitpid(pids[w], &st, 0);
						if (!sl.busy || sl.pos != i) { spawn(w, sl.pos < sl.end); continue; } // it just finished
						sl.busy = 0;
						record(w, i, "timeout");
						crashes++;
						sh->evaluated++;
						sl.pos++;
						spawn(w, sl.pos < sl.end);
					}
				}
				if (!stop && (t - t0 > budget || crashes > maxViolations)) {
					stop = true;
					complete = false;
					sh->next = sp.count;
					for (int w = 0; w < workers; w++) if (pids[w]) kill(pids[w], SIGKILL);
				}
				if (!stop) { // enough violations recorded?
					static double last = 0;
					if (t - last > 0.5) {
						last = t;
						size_t n = 0;
						for (int w = 0; w < workers; w++) {
							std::ifstream i(tmp + "/v" + std::to_string(w));
							std::string l;
							while (std::getline(i, l)) n++;
						}
						if (n > maxViolations) crashes = maxViolations + 1;
					}
				}
				continue;
			}
			int w = -1;
			for (int k = 0; k < workers; k++) if (pids[k] == p) w = k;
			if (w < 0) continue;
			pids[w] = 0;
			Slot &sl = sh->slots[w];
			if (stop) { alive--; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
			if (WIFEXITED(st) && (WEXITSTATUS(st) == 40 || WEXITSTATUS(st) == 41)) { spawn(w, WEXITSTATUS(st) == 41); continue; }
			// crash
			if (!sl.busy) {
				// Died outside of a case: an error of the machinery.
				fprintf(stderr, "worker died outside of a case (status %d)\n%s\n", st, tail(w).c_str());
				for (int k = 0; k < workers; k++) if (pids[k]) kill(pids[k], SIGKILL);
				exit(4);
			}
			uint64_t i = sl.pos;
			sl.busy = 0;
			record(w, i, "crash");
			crashes++;
			sh->evaluated++;
			sl.pos++;
			spawn(w, sl.pos < sl.end);
		}
		std::vector<Violation> raw;
		for (int w = 0; w < workers; w++) {
			std::ifstream i(tmp + "/v" + std::to_string(w));
			std::string l;
			while (std::getline(i, l)) {
				size_t k = l.find(' ');
				Violation v;
				v.space = sp.name;
				v.index = std::stoull(l.substr(0, k));
				v.detail = unesc(l.substr(k + 1));
				v.timeout = v.detail == "timeout";
				v.text = sp.make(v.index);
				raw.push_back(v);
			}
		}
		std::sort(raw.begin(), raw.end(), [](const Violation &a, const Violation &b) { return a.index < b.index; });
		for (auto &v : raw) {
			// Replay before report.
			if (out.size() >= 400) break;
			std::string d;
			if (runAlone(sp, v.text, v.timeout ? sp.timeout * 4 : sp.timeout * 2, d)) {
				v.detail = d;
				out.push_back(v);
				if (v.timeout && out.size() > 3) break;
			}
			else {
				fprintf(stdout, "NOTE: case %llu of %s did not repeat alone (%s)\n", (unsigned long long) v.index,
				        sp.name.c_str(), v.detail.substr(0, 60).c_str());
				if (!v.timeout) unstable.push_back(v);
			}
		}
		return complete;
	}
	std::vector<Violation> unstable;

	int main(int argc, char **argv) {
		std::string tier = "quick", out, lib, replay, known, replayDir;
		std::string only;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") tier = next();
			else if (a == "--evidence") out = next();
			else if (a == "--lib") lib = next();
			else if (a == "--replay") replay = next();
			else if (a == "--known") known = next();
			else if (a == "--replay-dir") replayDir = next();
			else if (a == "--only") only = next();
			else if (a == "--workers") workers = std::stoi(next());
			else if (a == "--budget") budget = std::stod(next());
			else if (a == "--slow") slow = std::stod(next()); // list the cases which take longer
		}
		t0 = now();
		long n = sysconf(_SC_NPROCESSORS_ONLN);
		workers = std::min<long>(workers, std::min<long>(n > 0 ? n : 1, MAXW));
		signal(SIGPIPE, SIG_IGN);
		char t[] = "/tmp/dlmcXXXXXX";
		tmp = mkdtemp(t);
		sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (info.setup) info.setup(lib);
		auto spaces = info.spaces(tier == "thorough");
		int rc;
		if (!replay.empty()) rc = doReplay(spaces, replay);
		else rc = doRun(spaces, tier, out, known, replayDir, only);
		if (slow > 0) {
			std::ifstream i(tmp + "/slow");
			std::string l;
			while (std::getline(i, l)) printf("%s\n", l.c_str());
		}
		std::string rm = "rm -rf " + tmp;
		if (tmp.rfind("/tmp/dlmc", 0) == 0) (void) !system(rm.c_str());
		return rc;
	}

	int doReplay(std::vector<Space> &spaces, const std::string &file) {
		std::ifstream f(file);
		std::string l, space, text;
		while (std::getline(f, l)) {
			if (l.rfind("space: ", 0) == 0) space = l.substr(7);
			if (l.rfind("case: ", 0) == 0) text = unesc(l.substr(6));
		}
		for (auto &s : spaces) if (s.name == space) {
			std::string d;
			bool v = runAlone(s, text, s.timeout * 4, d, true);
			printf("property %s, space %s\ncase:\n%s\n%s\n%s\n", info.property.c_str(), space.c_str(), text.c_str(), v ? "VIOLATED" : "held", d.c_str());
			return v ? 1 : 0;
		}
		fprintf(stderr, "no such space: %s\n", space.c_str());
		return 4;
	}

	int doRun(std::vector<Space> &spaces, const std::string &tier, const std::string &out, const std::string &known,
	          const std::string &replayDir, const std::string &only) {
		std::map<std::string, std::string> knownCases;
		{
			// finding: property=P case=<escaped> :: what
			std::ifstream f(known);
			std::string l, pre = "finding: property=" + info.property + " case=";
			while (std::getline(f, l)) {
				if (l.rfind(pre, 0) != 0) continue;
				size_t k = l.find(" :: ");
				knownCases[l.substr(pre.size(), k - pre.size())] = k == std::string::npos ? "" : l.substr(k + 4);
			}
		}
		std::vector<Violation> all;
		std::string per, samples;
		uint64_t states = 0;
		bool exhaustive = true;
		std::string capped;
		for (auto &sp : spaces) {
			if (!only.empty() && sp.name.find(only) == std::string::npos) continue;
			double s0 = now();
			uint64_t e0 = sh->evaluated, n0 = sh->nontrivial, k0 = sh->skipped, t00 = sh->steps, d0 = sh->distinct;
			bool c = explore(sp, all, 60 + knownCases.size());
			if (!c) { exhaustive = false; capped += sp.name + "; "; }
			states += sp.states;
			printf("%-8s %-34s cases %10llu skipped %8llu steps %10llu new outcomes %8llu  %.1fs%s\n", info.property.c_str(), sp.name.c_str(),
			       (unsigned long long) (sh->evaluated - e0), (unsigned long long) (sh->skipped - k0),
			       (unsigned long long) (sh->steps - t00), (unsigned long long) (sh->distinct - d0), now() - s0, c ? "" : "  CAPPED");
			fflush(stdout);
			per += (per.empty() ? "" : ", ");
			per += "{\"space\": " + json(sp.name) + ", \"bounds\": " + json(sp.bounds) + ", \"cases\": " + std::to_string(sh->evaluated - e0)
				+ ", \"outside_bound\": " + std::to_string(sh->skipped - k0) + ", \"executions\": " + std::to_string(sh->steps - t00)
				+ ", \"distinct_outcomes_added\": " + std::to_string(sh->distinct - d0) + ", \"complete\": " + (c ? "true" : "false")
				+ (sp.states ? ", \"model_states\": " + std::to_string(sp.states) : "") + "}";
			for (int k = 0; k < 3 && sp.count; k++) {
				uint64_t i = k == 0 ? 0 : k == 1 ? sp.count / 2 : sp.count - 1;
				std::string tx = sp.make(i);
				if (tx.size() > 300) tx = tx.substr(0, 300) + "...";
				samples += (samples.empty() ? "" : ", ") + json(sp.name + ": " + tx);
			}
			(void) n0;
		}
		int rc = 0;
		size_t reported = 0;
		std::set<std::string> seenKnown, replayFiles;
		std::string vio;
		std::set<std::string> seenText;
		for (auto &v : all) {
			std::string key = esc(v.text);
			auto k = knownCases.find(key);
			if (k != knownCases.end()) {
				if (seenKnown.insert(key).second)
					printf("KNOWN-FINDING: property=%s %s\n", info.property.c_str(), k->second.c_str());
				continue;
			}
			rc = 1;
			if (reported >= 12) continue;
			if (!seenText.insert(key).second) continue;
			mkdir(replayDir.c_str(), 0755);
			char nm[64];
			snprintf(nm, sizeof nm, "%s-%016llx.txt", info.property.c_str(), (unsigned long long) fnv(v.space + v.text));
			std::string path = replayDir + "/" + nm;
			std::ofstream o(path);
			o << "property: " << info.property << "\nspace: " << v.space << "\ncase: " << key << "\n\n--- case ---\n" << v.text << "\n--- what was observed ---\n" << v.detail << "\n";
			o.close();
			printf("VIOLATION property=%s replay=%s\n", info.property.c_str(), path.c_str());
			printf("  [%s] %s\n", v.space.c_str(), esc(v.text).substr(0, 400).c_str());
			std::istringstream is(v.detail);
			std::string l;
			int c = 0;
			while (std::getline(is, l) && c++ < 6) printf("    %s\n", l.substr(0, 400).c_str());
			vio += (vio.empty() ? "" : ", ") + json(v.space + ": " + v.text.substr(0, 300) + " -- " + v.detail.substr(0, 300));
			reported++;
		}
		for (auto &v : unstable) {
			// A deterministic single-threaded case which failed once has to fail again.
			printf("UNSTABLE property=%s [%s] %s -- %s\n", info.property.c_str(), v.space.c_str(), esc(v.text).substr(0, 200).c_str(), v.detail.substr(0, 200).c_str());
		}
		double wall = now() - t0;
		if (!out.empty()) {
			std::ofstream o(out);
			o << "{\n \"property\": " << json(info.property) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": "
			  << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0) << ",\n \"level\": " << json(info.level) << ",\n \"coverage\": {\n";
			if (info.level == "model_checking") {
				o << "  \"states\": " << states + sh->states << ",\n  \"transitions\": " << sh->steps << ",\n";
				o << "  \"traces_validated_against_impl\": " << (sh->evaluated - sh->skipped) << ",\n";
				o << "  \"distinct_outcomes\": " << sh->distinct << ",\n";
			}
			else {
				o << "  \"evaluations\": " << sh->evaluated << ",\n  \"distinct_nontrivial\": " << sh->distinct << ",\n";
				o << "  \"outside_bound\": " << sh->skipped << ",\n  \"executions\": " << sh->steps << ",\n";
			}
			o << "  \"rule\": " << json(info.rule) << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n";
			if (!capped.empty()) o << "  \"capped\": " << json(capped) << ",\n";
			o << "  \"spaces\": [" << per << "],\n  \"samples\": [" << samples << "]\n },\n";
			o << " \"wall_s\": " << wall << ",\n \"assumptions\": [";
			for (size_t i = 0; i < info.assumptions.size(); i++) o << (i ? ", " : "") << json(info.assumptions[i]);
			o << "],\n \"violations\": " << reported << (vio.empty() ? "" : ",\n \"violation_details\": [" + vio + "]") << "\n}\n";
		}
		printf("%s %s: %llu cases, %llu executions, %llu distinct outcomes, %zu violations, %.1f s\n", info.property.c_str(), tier.c_str(),
		       (unsigned long long) sh->evaluated, (unsigned long long) sh->steps, (unsigned long long) sh->distinct, all.size(), wall);
		return rc;
	}
};
} // namespace eng

inline int runCheck(int argc, char **argv, CheckInfo info) {
	auto *e = new eng::Engine;
	e->info = std::move(info);
	return e->main(argc, argv);
}
