// Linear integer arithmetic over bounded variables: Fourier-Motzkin elimination with integer tightening.
// Decides conjunctions of (in)equalities between non-wrapping linear forms; case-splits small disjunctions.
#pragma once
#include "expr.h"
#include <map>
struct LinFM {
	typedef __int128 I;
	struct Form { std::map<int, I> k; I c = 0; };
	struct Ineq { std::vector<std::pair<int, I>> k; I c; }; // sum k*x + c >= 0
	std::map<int, unsigned> vw; bool partial = false; int budget = 0;
	bool range(const Form &f, I &lo, I &hi) { lo = hi = f.c; for (auto &p : f.k) { I m = ((I)1 << vw[p.first]) - 1; if (p.second > 0) hi += p.second * m; else lo += p.second * m; } return true; }
	// linear form whose value lies in [0, 2^w) (or, sgn, in [-2^(w-1), 2^(w-1))) and equals e modulo 2^w
	bool form(E e, bool sgn, Form &f) {
		if (!raw(e, f)) return false;
		I lo, hi; range(f, lo, hi); I M = (I)1 << e->w, a = sgn ? -(M >> 1) : 0, b = a + M - 1;
		I sh = 0; if (lo < a) { I d = a - lo; sh = (d + M - 1) / M; } else if (lo > b) { I d = lo - b; sh = -((d + M - 1) / M); }
		f.c += sh * M; lo += sh * M; hi += sh * M;
		return lo >= a && hi <= b;
	}
	bool raw(E e, Form &f) { // congruent modulo 2^w
		unsigned w = e->w; if (w > 64) return false;
		switch (e->op) {
		case X_CONST: f.c += (I)sx(e->c, w); return true;
		case X_VAR: vw[e->c] = std::max(vw.count(e->c) ? vw[e->c] : 0u, w); f.k[e->c] += 1; return w < 60;
		case X_ADD: return raw(e->a, f) && raw(e->b, f);
		case X_MUL: { if (!isC(e->b)) return false; Form g; if (!raw(e->a, g)) return false; I m = (I)sx(e->b->c, w); if (m > 1000000 || m < -1000000) return false;
			for (auto &p : g.k) { f.k[p.first] += p.second * m; if (f.k[p.first] > ((I)1 << 40) || f.k[p.first] < -((I)1 << 40)) return false; } f.c += g.c * m; return true; }
		case X_ZEXT: case X_SEXT: { Form g; if (!form(e->a, e->op == X_SEXT, g)) return false; for (auto &p : g.k) f.k[p.first] += p.second; f.c += g.c; return true; }
		default: return false;
		}
	}
	static Ineq mk(const Form &hi, const Form &lo, I extra) { // hi - lo + extra >= 0
		std::map<int, I> k = hi.k; for (auto &p : lo.k) k[p.first] -= p.second;
		Ineq q; q.c = hi.c - lo.c + extra; for (auto &p : k) if (p.second != 0) q.k.push_back(p);
		return q;
	}
	std::vector<Ineq> base; struct Alt { std::vector<std::vector<std::pair<E, bool>>> opt; }; std::vector<Alt> alts;
	// adds literal (e == val); returns false if it cannot be expressed
	bool add(E e, bool val, std::vector<Ineq> &out, std::vector<std::pair<E, bool>> *nested) {
		if (e->op == X_CONST) { if ((e->c & 1) != (u64)val) { Ineq q; q.c = -1; out.push_back(q); } return true; }
		if (e->w != 1) return false;
		if (e->op == X_XOR && isC(e->b)) return add(e->a, val ^ (e->b->c & 1), out, nested);
		if (e->op == X_AND && val) { bool a = add(e->a, true, out, nested), b = add(e->b, true, out, nested); return a && b; }
		if (e->op == X_OR && !val) { bool a = add(e->a, false, out, nested), b = add(e->b, false, out, nested); return a && b; }
		if (e->op == X_AND || e->op == X_OR) { if (nested) { nested->push_back({e, val}); return true; } return false; }
		if (e->op == X_ULT || e->op == X_SLT) {
			Form a, b; bool s = e->op == X_SLT; if (!form(e->a, s, a) || !form(e->b, s, b)) return false;
			out.push_back(val ? mk(b, a, -1) : mk(a, b, 0)); return true;
		}
		if (e->op == X_EQ) {
			Form a, b; if (!form(e->a, false, a) || !form(e->b, false, b)) { a = Form(); b = Form(); if (!form(e->a, true, a) || !form(e->b, true, b)) return false; }
			if (val) { out.push_back(mk(a, b, 0)); out.push_back(mk(b, a, 0)); return true; }
			if (nested) { nested->push_back({e, false}); return true; } return false;
		}
		if (e->op == X_VAR) { vw[e->c] = std::max(vw.count(e->c) ? vw[e->c] : 0u, 1u); Form x, z; x.k[e->c] = 1; if (val) { Form o; o.c = 1; out.push_back(mk(x, o, 0)); } else out.push_back(mk(z, x, 0)); return true; }
		return false;
	}
	// 0 unsat, 1 candidate model in val, 2 unknown
	int fm(std::vector<Ineq> in, std::map<int, I> &val, const std::vector<u64> &pref) {
		for (auto &p : vw) { Ineq a, b; a.k = {{p.first, 1}}; a.c = 0; b.k = {{p.first, -1}}; b.c = ((I)1 << p.second) - 1; in.push_back(a); in.push_back(b); }
		std::vector<std::pair<int, std::vector<Ineq>>> stack; std::vector<Ineq> cur; std::map<std::vector<std::pair<int, I>>, I> best;
		auto put = [&](Ineq q) -> int {
			if (q.k.empty()) return q.c >= 0 ? 1 : 0;
			I g = 0; for (auto &p : q.k) { I a = g, b = p.second < 0 ? -p.second : p.second; while (b) { I t = a % b; a = b; b = t; } g = a; }
			if (g > 1) { for (auto &p : q.k) p.second /= g; I c = q.c; q.c = c >= 0 ? c / g : -((-c + g - 1) / g); }
			for (auto &p : q.k) if (p.second > ((I)1 << 60) || p.second < -((I)1 << 60)) return 2;
			auto it = best.find(q.k); if (it == best.end()) best[q.k] = q.c; else if (q.c < it->second) it->second = q.c;
			return 1;
		};
		for (auto &q : in) { int r = put(q); if (r != 1) return r; }
		std::map<int, unsigned> left = vw;
		while (!left.empty()) {
			// opposite pairs give quick contradictions
			for (auto &p : best) { auto n = p.first; for (auto &t : n) t.second = -t.second; auto it = best.find(n); if (it != best.end() && p.second + it->second < 0) return 0; }
			int bv = -1; long bc = -1; for (auto &p : left) { long np = 0, nn = 0; for (auto &q : best) for (auto &t : q.first) if (t.first == p.first) { if (t.second > 0) np++; else nn++; } long c = np * nn - np - nn; if (bv < 0 || c < bc) { bv = p.first; bc = c; } }
			std::vector<Ineq> pos, neg, rest; for (auto &q : best) { I k = 0; for (auto &t : q.first) if (t.first == bv) k = t.second; Ineq x{q.first, q.second}; (k > 0 ? pos : k < 0 ? neg : rest).push_back(x); }
			std::vector<Ineq> both = pos; both.insert(both.end(), neg.begin(), neg.end()); stack.push_back({bv, both}); left.erase(bv);
			if (pos.size() * neg.size() > 600 || (budget -= pos.size() * neg.size()) < 0) return 2;
			best.clear(); for (auto &q : rest) best[q.k] = q.c;
			for (auto &a : pos) for (auto &b : neg) {
				I ka = 0, kb = 0; for (auto &t : a.k) if (t.first == bv) ka = t.second; for (auto &t : b.k) if (t.first == bv) kb = -t.second;
				std::map<int, I> m; for (auto &t : a.k) m[t.first] += t.second * kb; for (auto &t : b.k) m[t.first] += t.second * ka;
				Ineq q; q.c = a.c * kb + b.c * ka; for (auto &t : m) if (t.second != 0) q.k.push_back(t);
				int r = put(q); if (r != 1) return r;
			}
		}
		for (auto it = stack.rbegin(); it != stack.rend(); ++it) {
			int v = it->first; I lo = 0, hi = ((I)1 << vw[v]) - 1;
			for (auto &q : it->second) { I k = 0, s = q.c; for (auto &t : q.k) if (t.first == v) k = t.second; else s += t.second * val[t.first];
				if (k > 0) { I b = -s; I l = b >= 0 ? (b + k - 1) / k : -((-b) / k); if (l > lo) lo = l; } else { I kk = -k; I h = s >= 0 ? s / kk : -((-s + kk - 1) / kk); if (h < hi) hi = h; } }
			if (lo > hi) return 2;
			I p = v < (int)pref.size() ? (I)pref[v] : lo; val[v] = p < lo ? lo : p > hi ? hi : p;
		}
		return 1;
	}
	int split(std::vector<Ineq> cur, std::vector<std::pair<E, bool>> nested, size_t i, std::vector<u64> &model, const std::vector<E> &cs, bool &cand) {
		if (budget < 0) return 2;
		if (i == nested.size()) {
			std::map<int, I> val; int r = fm(cur, val, model); if (r != 1) return r;
			std::vector<u64> m = model; for (auto &p : val) { if ((int)m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = (u64)p.second; }
			g_evEpoch++; for (E c : cs) if (!evalRec(c, m.data())) return 2;
			model = m; return 1;
		}
		E e = nested[i].first; bool v = nested[i].second; int res = 0;
		for (int side = 0; side < 2; side++) {
			std::vector<Ineq> c2 = cur; std::vector<std::pair<E, bool>> n2 = nested; bool ok = true;
			if (e->op == X_EQ) { Form a, b; bool s = false; if (!form(e->a, false, a) || !form(e->b, false, b)) { a = Form(); b = Form(); s = true; if (!form(e->a, true, a) || !form(e->b, true, b)) ok = false; } (void)s; if (ok) c2.push_back(side ? mk(a, b, -1) : mk(b, a, -1)); }
			else ok = add(side ? e->b : e->a, v, c2, &n2); // the other side unconstrained
			(void)ok; // a literal which cannot be expressed is dropped (relaxation)
			int r = split(c2, n2, i + 1, model, cs, cand);
			if (r == 1) return 1; if (r == 2) res = 2;
		}
		return res;
	}
	int solve(const std::vector<E> &cs, std::vector<u64> &model) {
		vw.clear(); base.clear(); budget = 60000; std::vector<std::pair<E, bool>> nested; int nl = 0;
		// widths first (form() depends on them being complete)
		for (E c : cs) if (add(c, true, base, &nested)) nl++;
		if (!nl) return 2;
		base.clear(); nested.clear(); for (E c : cs) add(c, true, base, &nested);
		if (nested.size() > 7) nested.resize(7);
		bool cand = false; int mx = 0; for (E c : cs) for (int v = 0; v < MAXVARS; v++) if (c->vars >> v & 1) mx = v; if ((int)model.size() <= mx) model.resize(mx + 1, 0);
		return split(base, nested, 0, model, cs, cand);
	}
};
