// Oracle: one session ("|||" separates its texts) on the real compiler and VM against the reference evaluator.
#pragma once
#include "corpus.hpp"
#include "ref.hpp"

inline std::vector<std::string> splitSession(const std::string &text) {
	std::vector<std::string> r;
	size_t p = 0;
	while (1) {
		size_t k = text.find("|||", p);
		r.push_back(text.substr(p, k == std::string::npos ? k : k - p));
		if (k == std::string::npos) return r;
		p = k + 3;
	}
}
// User-made types are numbered in the order of their first appearance: which number a type has is not observable.
inline std::string canonTypes(const std::string &t) {
	std::string r;
	std::map<std::string, size_t> names, gensyms;
	for (size_t i = 0; i < t.size();) {
		if (!t.compare(i, 4, "\\x00") && i + 20 <= t.size() && t.find_first_not_of("0123456789abcdef", i + 4) >= i + 20) {
			// Generated symbols too.
			r += "\\x00g" + std::to_string(gensyms.emplace(t.substr(i + 4, 16), gensyms.size()).first->second);
			i += 20;
			continue;
		}
		if (t.compare(i, 3, "::u")) { r += t[i++]; continue; }
		size_t k = i + 3;
		while (k < t.size() && (isdigit((unsigned char) t[k]) || t[k] == '-')) k++;
		r += "::u" + std::to_string(names.emplace(t.substr(i, k - i), names.size()).first->second);
		i = k;
	}
	return r;
}
struct SessionOutcome {
	std::string observable, messages;
	bool init = true, outOfMemory = false;
	size_t live = 0; // objects in use at the end, after a collection
};
// Runs the texts one after the other in one compiler and VM. The host resets the VM after a runtime error.
inline SessionOutcome evalSession(Variant &v, const shim_cfg &c, const std::string &text, bool live = false) {
	SessionOutcome r;
	shim_t *s = v.shim_new(&c);
	if (v.shim_initError(s)) {
		r.init = false;
		r.outOfMemory = true;
		r.observable = "init error";
		v.shim_free(s);
		return r;
	}
	bool first = true;
	for (auto &t : splitSession(text)) {
		shim_result sr;
		v.shim_eval(s, t.data(), t.size(), 1, &sr);
		Outcome o = takeResult(v, sr);
		if (!first) r.observable += " ||| ", r.messages += "\n";
		first = false;
		if (o.error == 6) r.outOfMemory = true; // dl_error_outOfMemory
		r.observable += o.observable();
		r.messages += o.message;
		if (o.status == SHIM_RUNTIME_ERROR) v.shim_softReset(s);
	}
	r.observable = canonTypes(r.observable);
	if (live) r.live = v.shim_liveObjects(s);
	v.shim_free(s);
	return r;
}
struct RefSession {
	std::string observable, why;
	bool inDomain = true;
};
inline RefSession refSession(const std::string &text, uint64_t limit = 0) {
	RefSession q;
	ref::Interp in;
	if (limit) in.limit = limit;
	bool first = true;
	for (auto &t : splitSession(text)) {
		ref::Result r = in.run(t);
		if (r.diverged || r.unsupported) { q.inDomain = false; q.why = r.why; return q; }
		if (!first) q.observable += " ||| ", q.why += " ";
		first = false;
		q.observable += r.observable;
		q.why += r.why;
	}
	q.observable = canonTypes(q.observable);
	return q;
}
inline Verdict againstRef(Variant &v, const shim_cfg &c, const std::string &text, uint64_t limit = 0) {
	RefSession r = refSession(text, limit);
	if (!r.inDomain) return skip();
	SessionOutcome o = evalSession(v, c, text);
	if (o.observable != r.observable) return bad("reference: " + r.observable + (r.why.empty() ? "" : " (" + r.why + ")") + "\nobserved:  " + o.observable + "\n" + o.messages);
	return good(o.observable);
}
inline Space famSpace(Family f, std::function<Verdict(const std::string &)> run) {
	Space s;
	s.name = f.name;
	s.bounds = f.bounds();
	s.count = f.count;
	auto p = std::make_shared<Family>(f);
	s.make = [p](uint64_t i) { return p->at(i); };
	s.run = run;
	return s;
}
