// Decision procedures: (1) incremental bit-blasting + CDCL (MiniSat) for every query,
// (2) Z3 (QF_BV) as fallback for "unknown" and as a cross-check on a sample of the queries.
#pragma once
#include "expr.h"
#include "lin.h"
#include <minisat/core/Solver.h>
#include <z3.h>
#include <time.h>

typedef Minisat::Lit L;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum SRes { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };

struct SolverStats {
	u64 queries = 0, linear = 0, sat = 0, unsat = 0, unknown = 0, domain = 0, cached = 0, modelhit = 0, z3checks = 0, z3mismatch = 0, z3unknown = 0;
	double time = 0, z3time = 0;
};
extern SolverStats SS;

struct Blaster {
	Minisat::Solver *s = nullptr;
	L T;
	u32 epoch = 0, coneEpoch = 0;
	std::vector<int> lits;                       // literal pool for expressions
	std::vector<std::array<int, 3>> gin;         // gate fan-in per var (literal ints, -1 none)
	std::vector<int> decided;                    // vars currently enabled as decisions
	std::unordered_map<u64, int> gates;
	std::vector<char> seenv;
	std::vector<int> varLits[MAXVARS];
	std::vector<u8> varW;
	static int toI(L l) { return Minisat::toInt(l); }
	static L fromI(int i) { return Minisat::toLit(i); }
	int newv(int a, int b, int c) {
		int v = s->newVar(Minisat::lbool((uint8_t)1), false);
		if ((int)gin.size() <= v) gin.resize(v + 1);
		gin[v] = {a, b, c}; return v;
	}
	void reset() {
		delete s; s = new Minisat::Solver(); s->verbosity = 0;
		epoch++; lits.clear(); gin.clear(); gates.clear(); decided.clear();
		for (auto &v : varLits) v.clear();
		int t = newv(-1, -1, -1); T = Minisat::mkLit(t); s->addClause(T);
	}
	void init() { if (!s || s->nVars() > 150000) reset(); }
	L And(L a, L b) {
		if (a == ~T || b == ~T) return ~T; if (a == T) return b; if (b == T) return a;
		if (a == b) return a; if (a == ~b) return ~T;
		if (toI(a) > toI(b)) std::swap(a, b);
		u64 k = (u64)toI(a) << 32 | toI(b) << 1 | 0;
		auto it = gates.find(k); if (it != gates.end()) return fromI(it->second);
		L g = Minisat::mkLit(newv(toI(a), toI(b), -1));
		s->addClause(~g, a); s->addClause(~g, b); s->addClause(g, ~a, ~b);
		gates[k] = toI(g); return g;
	}
	L Or(L a, L b) { return ~And(~a, ~b); }
	L Xor(L a, L b) {
		if (a == ~T) return b; if (b == ~T) return a; if (a == T) return ~b; if (b == T) return ~a;
		if (a == b) return ~T; if (a == ~b) return T;
		bool neg = sign(a) ^ sign(b); if (sign(a)) a = ~a; if (sign(b)) b = ~b;
		if (toI(a) > toI(b)) std::swap(a, b);
		u64 k = (u64)toI(a) << 32 | toI(b) << 1 | 1;
		auto it = gates.find(k); L g;
		if (it != gates.end()) g = fromI(it->second);
		else {
			g = Minisat::mkLit(newv(toI(a), toI(b), -1));
			s->addClause(~g, a, b); s->addClause(~g, ~a, ~b); s->addClause(g, ~a, b); s->addClause(g, a, ~b);
			gates[k] = toI(g);
		}
		return neg ? ~g : g;
	}
	L Mux(L c, L a, L b) {
		if (c == T) return a; if (c == ~T) return b; if (a == b) return a;
		if (a == ~b) return Xor(c, b);
		if (a == T) return Or(c, b); if (a == ~T) return And(~c, b); if (b == T) return Or(~c, a); if (b == ~T) return And(c, a);
		return Or(And(c, a), And(~c, b));
	}
	typedef std::vector<L> V;
	V constv(u64 c, unsigned w) { V r(w); for (unsigned i = 0; i < w; i++) r[i] = (c >> i & 1) ? T : ~T; return r; }
	V add(const V &a, const V &b, L c) {
		V r(a.size());
		for (size_t i = 0; i < a.size(); i++) { L x = Xor(a[i], b[i]); r[i] = Xor(x, c); c = Or(And(a[i], b[i]), And(x, c)); }
		return r;
	}
	V neg(const V &a) { V n(a.size()); for (size_t i = 0; i < a.size(); i++) n[i] = ~a[i]; return add(n, constv(0, a.size()), T); }
	L ult(const V &a, const V &b) { L r = ~T; for (size_t i = 0; i < a.size(); i++) r = Mux(Xor(a[i], b[i]), b[i], r); return r; }
	L eq(const V &a, const V &b) { L r = T; for (size_t i = 0; i < a.size(); i++) r = And(r, ~Xor(a[i], b[i])); return r; }
	V muxv(L c, const V &a, const V &b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = Mux(c, a[i], b[i]); return r; }
	V mul(const V &a, const V &b) {
		size_t w = a.size(); V acc = constv(0, w);
		for (size_t i = 0; i < w; i++) {
			if (b[i] == ~T) continue;
			V p(w, ~T); for (size_t j = i; j < w; j++) p[j] = And(a[j - i], b[i]);
			acc = add(acc, p, ~T);
		}
		return acc;
	}
	void udivrem(const V &a, const V &b, V &q, V &r) {
		size_t w = a.size(); q = constv(0, w); V rem = constv(0, w + 1); V bx = b; bx.push_back(~T);
		for (int i = (int)w - 1; i >= 0; i--) {
			for (size_t j = w; j > 0; j--) rem[j] = rem[j - 1];
			rem[0] = a[i];
			L ge = ~ult(rem, bx);
			V nb(w + 1); for (size_t j = 0; j <= w; j++) nb[j] = ~bx[j];
			V d = add(rem, nb, T);
			rem = muxv(ge, d, rem); q[i] = ge;
		}
		r.assign(rem.begin(), rem.begin() + w);
	}
	V get(E e) {
		if (e->op == X_CONST) return constv(e->c, e->w);
		if (e->litEpoch == epoch) { V r(e->w); for (unsigned i = 0; i < e->w; i++) r[i] = fromI(lits[e->litBase + i]); return r; }
		V r; unsigned w = e->w;
		switch (e->op) {
		case X_VAR: {
			auto &vl = varLits[e->c];
			while (vl.size() < w) { int v = newv(-1, -1, -1); vl.push_back(v); }
			r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = Minisat::mkLit(vl[i]); break; }
		case X_ADD: r = add(get(e->a), get(e->b), ~T); break;
		case X_MUL: {
			V a = get(e->a); 
			if (isC(e->b) && sx(e->b->c, w) < 0) { V p = mul(a, constv(0 - e->b->c, w)); r = neg(p); }
			else r = mul(a, get(e->b));
			break; }
		case X_UDIV: case X_UREM: { V a = get(e->a), b = get(e->b), q, m; udivrem(a, b, q, m); r = e->op == X_UDIV ? q : m; break; }
		case X_SDIV: case X_SREM: {
			V a = get(e->a), b = get(e->b), q, m; L sa = a[w - 1], sb = b[w - 1];
			V ua = muxv(sa, neg(a), a), ub = muxv(sb, neg(b), b); udivrem(ua, ub, q, m);
			if (e->op == X_SDIV) r = muxv(Xor(sa, sb), neg(q), q); else r = muxv(sa, neg(m), m);
			break; }
		case X_AND: case X_OR: case X_XOR: {
			V a = get(e->a), b = get(e->b); r.resize(w);
			for (unsigned i = 0; i < w; i++) r[i] = e->op == X_AND ? And(a[i], b[i]) : e->op == X_OR ? Or(a[i], b[i]) : Xor(a[i], b[i]);
			break; }
		case X_SHL: case X_LSHR: case X_ASHR: {
			V a = get(e->a), b = get(e->b); L fill = e->op == X_ASHR ? a[w - 1] : ~T; r = a; L big = ~T;
			for (unsigned k = 0; k < b.size(); k++) {
				if (k < 7 && (1u << k) < w) {
					unsigned sft = 1u << k; V n(w);
					for (unsigned i = 0; i < w; i++) n[i] = e->op == X_SHL ? (i >= sft ? r[i - sft] : ~T) : (i + sft < w ? r[i + sft] : fill);
					r = muxv(b[k], n, r);
				} else big = Or(big, b[k]);
			}
			if (w & (w - 1)) { // amounts in [w, 2^ceil) already shift everything out by composition
			}
			r = muxv(big, V(w, fill), r); break; }
		case X_EQ: r = {eq(get(e->a), get(e->b))}; break;
		case X_ULT: r = {ult(get(e->a), get(e->b))}; break;
		case X_SLT: { V a = get(e->a), b = get(e->b); unsigned n = a.size() - 1; a[n] = ~a[n]; b[n] = ~b[n]; r = {ult(a, b)}; break; }
		case X_ITE: { L c = get(e->a)[0]; r = muxv(c, get(e->b), get(e->d)); break; }
		case X_CONCAT: { r = get(e->b); V h = get(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
		case X_EXTRACT: { V a = get(e->a); r.assign(a.begin() + e->c, a.begin() + e->c + w); break; }
		case X_ZEXT: r = get(e->a); r.resize(w, ~T); break;
		case X_SEXT: r = get(e->a); { L sgn = r.back(); r.resize(w, sgn); } break;
		default: abort();
		}
		Expr *m = const_cast<Expr *>(e);
		m->litBase = lits.size(); m->litEpoch = epoch;
		for (L l : r) lits.push_back(toI(l));
		return r;
	}
	void cone(int root) {
		std::vector<int> st{root};
		while (!st.empty()) {
			int v = st.back(); st.pop_back();
			if (seenv[v]) continue; seenv[v] = 1; decided.push_back(v); s->setDecisionVar(v, true);
			for (int g : gin[v]) if (g >= 0 && !seenv[g >> 1]) st.push_back(g >> 1);
		}
	}
	// conjunction of cs; on SAT model[] updated for all variables in `vars`
	SRes solve(const std::vector<E> &cs, std::vector<u64> &model) {
		init();
		Minisat::vec<L> as; u128 vars = 0; std::vector<L> ls;
		for (E c : cs) { L l = get(c)[0]; vars |= c->vars; if (l == ~T) return S_UNSAT; if (l != T) ls.push_back(l); }
		seenv.assign(s->nVars(), 0);
		for (int v : decided) s->setDecisionVar(v, false);
		decided.clear();
		for (L l : ls) { as.push(l); cone(Minisat::var(l)); }
		if (!s->okay()) { fprintf(stderr, "kse: internal: SAT solver inconsistent\n"); abort(); }
		s->setConfBudget(300000);
		Minisat::lbool r = s->solveLimited(as);
		s->budgetOff();
		if (r == Minisat::lbool((uint8_t)1)) return S_UNSAT;
		if (r != Minisat::lbool((uint8_t)0)) return S_UNKNOWN;
		for (int v = 0; v < MAXVARS; v++) if (vars >> v & 1) {
			u64 x = 0; auto &vl = varLits[v];
			for (size_t i = 0; i < vl.size(); i++) if (s->model[vl[i]] == Minisat::lbool((uint8_t)0)) x |= 1ull << i;
			if ((int)model.size() <= v) model.resize(v + 1, 0);
			model[v] = x;
		}
		return S_SAT;
	}
};

// ---- Z3 ----------------------------------------------------------------
struct Z3 {
	Z3_context ctx = nullptr; unsigned uses = 0;
	std::unordered_map<E, Z3_ast> memo;
	void init() {
		if (ctx && uses++ < 500) return;
		if (ctx) Z3_del_context(ctx);
		memo.clear(); uses = 0;
		Z3_config c = Z3_mk_config(); ctx = Z3_mk_context(c); Z3_del_config(c);
	}
	Z3_ast b2v(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
	Z3_ast bl(E e) { return Z3_mk_eq(ctx, get(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
	Z3_ast get(E e) {
		auto it = memo.find(e); if (it != memo.end()) return it->second;
		Z3_ast r; Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
		switch (e->op) {
		case X_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, s); break;
		case X_VAR: { char n[32]; snprintf(n, sizeof n, "v%u_%u", (unsigned)e->c, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), s); break; }
		case X_ITE: r = Z3_mk_ite(ctx, bl(e->a), get(e->b), get(e->d)); break;
		case X_CONCAT: r = Z3_mk_concat(ctx, get(e->a), get(e->b)); break;
		case X_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, get(e->a)); break;
		case X_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, get(e->a)); break;
		case X_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, get(e->a)); break;
		case X_EQ: r = b2v(Z3_mk_eq(ctx, get(e->a), get(e->b))); break;
		case X_ULT: r = b2v(Z3_mk_bvult(ctx, get(e->a), get(e->b))); break;
		case X_SLT: r = b2v(Z3_mk_bvslt(ctx, get(e->a), get(e->b))); break;
		default: {
			Z3_ast a = get(e->a), b = get(e->b);
			switch (e->op) {
			case X_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
			case X_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
			case X_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
			case X_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
			case X_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
			case X_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
			case X_AND: r = Z3_mk_bvand(ctx, a, b); break;
			case X_OR: r = Z3_mk_bvor(ctx, a, b); break;
			case X_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
			case X_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
			case X_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
			case X_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
			default: abort();
			} }
		}
		memo[e] = r; return r;
	}
	SRes solve(const std::vector<E> &cs, unsigned ms, std::vector<u64> *model) {
		init();
		Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
		Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, s, p);
		u128 vars = 0; for (E c : cs) { vars |= c->vars; Z3_solver_assert(ctx, s, bl(c)); }
		Z3_lbool r = Z3_solver_check(ctx, s); SRes res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
		if (res == S_SAT && model) {
			Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
			std::vector<E> st(cs.begin(), cs.end()); std::unordered_map<E, int> seen;
			while (!st.empty()) {
				E e = st.back(); st.pop_back(); if (seen[e]++) continue;
				if (e->op == X_VAR) {
					Z3_ast o; uint64_t v = 0; if (Z3_model_eval(ctx, m, get(e), true, &o)) Z3_get_numeral_uint64(ctx, o, &v);
					if (model->size() <= e->c) model->resize(e->c + 1, 0);
					(*model)[e->c] = v;
				}
				if (e->a) st.push_back(e->a); if (e->b) st.push_back(e->b); if (e->d) st.push_back(e->d);
			}
			Z3_model_dec_ref(ctx, m);
		}
		Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
		return res;
	}
};

// Blaster: one SAT variable block per *path variable index*; different paths may give the
// same index different widths, so an index owns up to 64 SAT variables of which a prefix is used.
struct Decider {
	Blaster bb; Z3 z3; LinFM lin; u64 sampleEvery = 2000, ctr = 0;
	std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, std::pair<SRes, std::vector<std::pair<int, u64>>>>>> cache; size_t cacheN = 0;
	SRes solve(std::vector<E> &cs, std::vector<u64> &model) {
		double t0 = now();
		std::vector<u32> key; for (E c : cs) key.push_back(c->id);
		std::sort(key.begin(), key.end());
		u64 h = 1469598103934665603ull; for (u32 k : key) h = (h ^ k) * 1099511628211ull;
		auto &bucket = cache[h];
		for (auto &b : bucket) if (b.first == key) {
			SS.cached++;
			for (auto &m : b.second.second) { if ((int)model.size() <= m.first) model.resize(m.first + 1, 0); model[m.first] = m.second; }
			return b.second.first;
		}
		SS.queries++;
		SRes r; int lr = lin.solve(cs, model);
		if (lr == 2) r = bb.solve(cs, model); else { SS.linear++; r = lr ? S_SAT : S_UNSAT; }
		if (r == S_UNKNOWN) { r = z3.solve(cs, 20000, &model); }
		else if (ctr++ % sampleEvery == sampleEvery / 2 || ctr <= 5) {
			double z0 = now(); SRes q = z3.solve(cs, 5000, nullptr); SS.z3time += now() - z0; SS.z3checks++;
			if (q == S_UNKNOWN) SS.z3unknown++;
			else if (q != r) { SS.z3mismatch++; fprintf(stderr, "kse: SOLVER MISMATCH minisat=%d z3=%d\n", r, q); }
		}
		u128 vars = 0; for (E c : cs) vars |= c->vars;
		if (r == S_SAT) {
			g_evEpoch++;
			for (E c : cs) if (!evalRec(c, model.data())) { fprintf(stderr, "kse: internal: bad model for %s\n", xstr(c).c_str()); abort(); }
			SS.sat++;
		} else if (r == S_UNSAT) SS.unsat++; else SS.unknown++;
		std::vector<std::pair<int, u64>> mv;
		if (r == S_SAT) for (int v = 0; v < MAXVARS; v++) if (vars >> v & 1) mv.push_back({v, model[v]});
		if (r != S_UNKNOWN) { bucket.push_back({key, {r, mv}}); if (++cacheN > 300000) { cache.clear(); cacheN = 0; } }
		{ double dt = now() - t0; SS.time += dt; static const char *dbgq = getenv("KSE_SLOW"); if (dbgq && dt > atof(dbgq)) { fprintf(stderr, "SLOW %.3f res=%d vars=%d\n", dt, r, bb.s->nVars()); for (E c : cs) fprintf(stderr, "   %s\n", xstr(c, 12).c_str()); } }
		return r;
	}
};
