// Hash-consed bit-vector expressions (width 1..64) with an eager simplifier.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <bitset>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128;

enum EOp : u8 { X_CONST, X_VAR, X_ADD, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM, X_AND, X_OR, X_XOR,
	X_SHL, X_LSHR, X_ASHR, X_EQ, X_ULT, X_SLT, X_ITE, X_CONCAT, X_EXTRACT, X_ZEXT, X_SEXT };

struct Expr {
	EOp op; u8 w; u8 flags; u8 pad;
	u32 id;
	u64 c;                 // const value / var index / extract low bit
	const Expr *a, *b, *d;
	u128 vars;             // support
	u64 lo, hi;            // unsigned range
	mutable u64 ev; mutable u32 evEpoch;
	mutable std::bitset<256> *tt; // truth table over a single <=8-bit variable
	mutable u32 litBase; mutable u32 litEpoch; // bitblast cache
	mutable u32 coneEpoch;
};
typedef const Expr *E;
enum { XF_CTREE = 1 };     // ite tree whose leaves are all constants

#define MAXVARS 128
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { u8 w; std::string name; };

struct ExprKey { EOp op; u8 w; u64 c; E a, b, d; };
struct Pool {
	std::vector<E> tab; size_t n = 0; u32 nextId = 1;
	std::vector<char *> chunks; size_t off = 0;
	Pool() { tab.resize(1 << 16, nullptr); }
	static u64 h(EOp op, u8 w, u64 c, E a, E b, E d) {
		u64 x = op * 0x9E3779B97F4A7C15ull ^ ((u64)w << 56) ^ c * 0xC2B2AE3D27D4EB4Full;
		x ^= (a ? a->id : 0) * 0x165667B19E3779F9ull; x = (x << 31) | (x >> 33);
		x ^= (b ? b->id : 0) * 0x27D4EB2F165667C5ull; x = (x << 29) | (x >> 35);
		x ^= (d ? d->id : 0) * 0x85EBCA77C2B2AE63ull; x *= 0x9E3779B97F4A7C15ull;
		return x ^ (x >> 29);
	}
	Expr *alloc() {
		const size_t C = 4096;
		if (chunks.empty() || off == C) { chunks.push_back((char *)aligned_alloc(16, (sizeof(Expr) * C + 15) & ~15ull)); off = 0; }
		return (Expr *)(chunks.back() + sizeof(Expr) * off++);
	}
	void grow() {
		std::vector<E> o; o.swap(tab); tab.resize(o.size() * 2, nullptr);
		for (E e : o) if (e) { size_t i = h(e->op, e->w, e->c, e->a, e->b, e->d) & (tab.size() - 1); while (tab[i]) i = (i + 1) & (tab.size() - 1); tab[i] = e; }
	}
	E get(EOp op, u8 w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr);
};
extern Pool P;

static void setRange(Expr *e) {
	u64 m = mask(e->w); e->lo = 0; e->hi = m;
	E a = e->a, b = e->b;
	switch (e->op) {
	case X_CONST: e->lo = e->hi = e->c; break;
	case X_ADD: if (a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; } break;
	case X_MUL: if (a->hi == 0 || b->hi <= m / a->hi) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; } break;
	case X_UDIV: if (b->lo) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
	case X_UREM: if (b->lo) { e->hi = std::min(a->hi, b->hi - 1); } break;
	case X_AND: e->hi = std::min(a->hi, b->hi); break;
	case X_OR: { u64 t = a->hi | b->hi; while (t & (t + 1)) t |= t >> 1; e->hi = t; e->lo = std::max(a->lo, b->lo); break; }
	case X_XOR: { u64 t = a->hi | b->hi; while (t & (t + 1)) t |= t >> 1; e->hi = t; break; }
	case X_SHL: if (b->op == X_CONST && b->c < e->w && a->hi <= (m >> b->c)) { e->lo = a->lo << b->c; e->hi = a->hi << b->c; } break;
	case X_LSHR: if (b->op == X_CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else e->hi = a->hi; break;
	case X_ITE: e->lo = std::min(b->lo, e->d->lo); e->hi = std::max(b->hi, e->d->hi); break;
	case X_CONCAT: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; break;
	case X_EXTRACT: if (e->c == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if ((a->hi >> e->c) <= m) { e->lo = a->lo >> e->c; e->hi = a->hi >> e->c; } break;
	case X_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
	case X_SEXT: if (!(a->hi >> (a->w - 1) & 1)) { e->lo = a->lo; e->hi = a->hi; } break;
	default: break;
	}
}
inline E Pool::get(EOp op, u8 w, u64 c, E a, E b, E d) {
	size_t i = h(op, w, c, a, b, d) & (tab.size() - 1);
	while (E e = tab[i]) {
		if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
		i = (i + 1) & (tab.size() - 1);
	}
	Expr *e = alloc(); memset((void *)e, 0, sizeof *e);
	e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = nextId++;
	if (op == X_VAR) e->vars = (u128)1 << c;
	if (a) e->vars |= a->vars; if (b) e->vars |= b->vars; if (d) e->vars |= d->vars;
	setRange(e);
	if (op == X_ITE && (b->op == X_CONST || (b->flags & XF_CTREE)) && (d->op == X_CONST || (d->flags & XF_CTREE))) e->flags |= XF_CTREE;
	tab[i] = e;
	if (++n * 2 > tab.size()) grow();
	return e;
}

static inline E xconst(u64 v, unsigned w) { return P.get(X_CONST, w, v & mask(w)); }
static inline E xvar(unsigned idx, unsigned w) { return P.get(X_VAR, w, idx); }
static inline bool isC(E e) { return e->op == X_CONST; }
static inline bool isC(E e, u64 v) { return e->op == X_CONST && e->c == v; }
static E xnot1(E a);
static E xeq(E a, E b); static E xult(E a, E b); static E xslt(E a, E b); static E xite(E c, E a, E b);
static E xextract(E a, unsigned lo, unsigned w); static E xconcat(E hi, E lo); static E xzext(E a, unsigned w); static E xsext(E a, unsigned w);
static E xbin(EOp op, E a, E b);

static u64 cfold(EOp op, u64 a, u64 b, unsigned w) {
	u64 m = mask(w);
	switch (op) {
	case X_ADD: return (a + b) & m;
	case X_MUL: return (a * b) & m;
	case X_UDIV: return b ? a / b : m;
	case X_UREM: return b ? a % b : a;
	case X_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
	case X_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
	case X_AND: return a & b;
	case X_OR: return a | b;
	case X_XOR: return a ^ b;
	case X_SHL: return b >= w ? 0 : (a << b) & m;
	case X_LSHR: return b >= w ? 0 : a >> b;
	case X_ASHR: return (u64)(sx(a, w) >> (b >= w ? 63 : b)) & m;
	case X_EQ: return a == b;
	case X_ULT: return a < b;
	case X_SLT: return sx(a, w) < sx(b, w);
	default: abort();
	}
}

// ---- linear sums -------------------------------------------------------
struct Lin { std::vector<std::pair<E, u64>> t; u64 c = 0; };
static void linAdd(Lin &l, E e, u64 k, unsigned w) {
	u64 m = mask(w);
	for (;;) {
		if (e->op == X_CONST) { l.c = (l.c + e->c * k) & m; return; }
		if (e->op == X_ADD) { linAdd(l, e->a, k, w); e = e->b; continue; }
		if (e->op == X_MUL && isC(e->b)) { k = (k * e->b->c) & m; e = e->a; continue; }
		break;
	}
	for (auto &p : l.t) if (p.first == e) { p.second = (p.second + k) & m; return; }
	l.t.push_back({e, k & m});
}
static E linBuild(Lin &l, unsigned w) {
	std::sort(l.t.begin(), l.t.end(), [](const std::pair<E, u64> &x, const std::pair<E, u64> &y) { return x.first->id < y.first->id; });
	E r = nullptr;
	for (auto &p : l.t) {
		if (!p.second) continue;
		E t = p.second == 1 ? p.first : P.get(X_MUL, w, 0, p.first, xconst(p.second, w));
		r = r ? P.get(X_ADD, w, 0, r, t) : t;
	}
	if (!r) return xconst(l.c, w);
	if (l.c) r = P.get(X_ADD, w, 0, r, xconst(l.c, w));
	return r;
}
// a sum which is evaluated without wrapping as natural numbers
static bool linExact(const Lin &l, unsigned w) {
	u128 s = l.c;
	for (auto &p : l.t) { if (p.second > (1u << 20)) return false; s += (u128)p.first->hi * p.second; if (s > mask(w)) return false; }
	return true;
}
static E xadd(E a, E b) {
	if (isC(a) && isC(b)) return xconst(a->c + b->c, a->w);
	if (isC(b, 0)) return a; if (isC(a, 0)) return b;
	if (a->w == 1) return xbin(X_XOR, a, b);
	Lin l; linAdd(l, a, 1, a->w); linAdd(l, b, 1, a->w); return linBuild(l, a->w);
}
static E xmulc(E a, u64 k) { if (isC(a)) return xconst(a->c * k, a->w); Lin l; linAdd(l, a, k & mask(a->w), a->w); return linBuild(l, a->w); }
static E xsub(E a, E b) {
	if (isC(a) && isC(b)) return xconst(a->c - b->c, a->w);
	if (isC(b, 0)) return a;
	if (a->w == 1) return xbin(X_XOR, a, b);
	Lin l; linAdd(l, a, 1, a->w); linAdd(l, b, mask(a->w), a->w); return linBuild(l, a->w);
}
// try to cancel common terms of two sums; both must be exact
static bool linCancel(E &a, E &b) {
	if (a->op != X_ADD && b->op != X_ADD) return false;
	Lin x, y; linAdd(x, a, 1, a->w); linAdd(y, b, 1, a->w);
	if (!linExact(x, a->w) || !linExact(y, a->w)) return false;
	bool ch = false;
	for (auto &p : x.t) for (auto &q : y.t) if (p.first == q.first && p.second && q.second) { u64 k = std::min(p.second, q.second); p.second -= k; q.second -= k; ch = true; }
	u64 k = std::min(x.c, y.c); if (k) { x.c -= k; y.c -= k; ch = true; }
	if (!ch) return false;
	unsigned w = a->w; a = linBuild(x, w); b = linBuild(y, w); return true;
}

// split a sum into positive and negative parts (both exact, < 2^(w-1)); the signed value is then pos - neg without overflow
static bool linSigned(E e, Lin &pos, Lin &neg) {
	unsigned w = e->w; if (w < 8) return false;
	Lin l; linAdd(l, e, 1, w); u64 half = mask(w) >> 1; u128 ps = 0, ns = 0;
	i64 k = sx(l.c, w); if (k >= 0) { pos.c = k; ps += k; } else { if ((u64)k << (64 - w) == 1ull << 63) return false; neg.c = -k; ns += -k; }
	for (auto &p : l.t) {
		if (!p.second) continue;
		i64 q = sx(p.second, w); u64 m = q >= 0 ? q : -(u64)q; if (m > (1u << 20)) return false;
		if (q >= 0) { pos.t.push_back({p.first, m}); ps += (u128)p.first->hi * m; }
		else { neg.t.push_back({p.first, m}); ns += (u128)p.first->hi * m; }
		if (ps > half || ns > half) return false;
	}
	return ps <= half && ns <= half;
}
static inline bool isSum(E e) { return e->op == X_ADD || (e->op == X_MUL && isC(e->b)); }

static E ctreeMap1(E t, std::unordered_map<E, E> &memo, E (*f)(E, void *), void *arg) {
	if (isC(t)) return f(t, arg);
	auto it = memo.find(t); if (it != memo.end()) return it->second;
	E x = ctreeMap1(t->b, memo, f, arg), y = ctreeMap1(t->d, memo, f, arg);
	E r = xite(t->a, x, y); memo[t] = r; return r;
}
struct BinArg { EOp op; E k; bool left; };
static E ctreeBinF(E leaf, void *p) { BinArg *b = (BinArg *)p; return b->left ? xconst(cfold(b->op, leaf->c, b->k->c, leaf->w), b->op >= X_EQ ? 1 : leaf->w) : xconst(cfold(b->op, b->k->c, leaf->c, leaf->w), b->op >= X_EQ ? 1 : leaf->w); }
static inline bool isTree(E e) { return e->flags & XF_CTREE; }
static E ctreeBin(EOp op, E a, E b) {
	BinArg g; std::unordered_map<E, E> memo;
	if (isTree(a)) { g = {op, b, true}; return ctreeMap1(a, memo, ctreeBinF, &g); }
	g = {op, a, false}; return ctreeMap1(b, memo, ctreeBinF, &g);
}
struct ExtArg { int kind; unsigned lo, w; };
static E ctreeExtF(E leaf, void *p) { ExtArg *x = (ExtArg *)p; if (x->kind == 0) return xconst(leaf->c >> x->lo, x->w); if (x->kind == 1) return xconst(leaf->c, x->w); return xconst((u64)sx(leaf->c, leaf->w), x->w); }
static E ctreeExt(E a, int kind, unsigned lo, unsigned w) { ExtArg x = {kind, lo, w}; std::unordered_map<E, E> memo; return ctreeMap1(a, memo, ctreeExtF, &x); }

static E xnot1(E a) {
	if (isC(a)) return xconst(!a->c, 1);
	if (a->op == X_XOR && isC(a->b, 1)) return a->a;
	if (a->op == X_ITE && isTree(a)) return xite(a->a, xnot1(a->b), xnot1(a->d));
	return P.get(X_XOR, 1, 0, a, xconst(1, 1));
}
static inline bool isNot1(E a) { return a->w == 1 && a->op == X_XOR && isC(a->b, 1); }

static E xbin(EOp op, E a, E b) {
	unsigned w = a->w;
	if (isC(a) && isC(b)) return xconst(cfold(op, a->c, b->c, w), op >= X_EQ ? 1 : w);
	if (op == X_EQ) return xeq(a, b);
	if (op == X_ULT) return xult(a, b);
	if (op == X_SLT) return xslt(a, b);
	if (op == X_ADD) return xadd(a, b);
	if ((isTree(a) && isC(b)) || (isTree(b) && isC(a))) return ctreeBin(op, a, b);
	// canonical: constant on the right
	if (op == X_MUL || op == X_AND || op == X_OR || op == X_XOR) {
		if (isC(a)) std::swap(a, b);
		else if (!isC(b) && a->id > b->id) std::swap(a, b);
	}
	u64 m = mask(w);
	switch (op) {
	case X_MUL:
		if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; return xmulc(a, b->c); }
		break;
	case X_AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->c == 0) return b; if (b->c == m) return a;
			if ((b->c & (b->c + 1)) == 0) { // low mask
				unsigned k = 0; while (b->c >> k) k++;
				if (a->hi <= b->c) return a;
				return xzext(xextract(a, 0, k), w);
			}
			if (a->op == X_AND && isC(a->b)) return xbin(X_AND, a->a, xconst(a->b->c & b->c, w));
			// mask that only covers bits known to be zero
			{ u64 t = a->hi; while (t & (t + 1)) t |= t >> 1; if (!(t & b->c)) return xconst(0, w); }
		}
		if (w == 1) { if (isNot1(a) && a->a == b) return xconst(0, 1); if (isNot1(b) && b->a == a) return xconst(0, 1); }
		break;
	case X_OR:
		if (a == b) return a;
		if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
		if (w == 1) { if (isNot1(a) && a->a == b) return xconst(1, 1); if (isNot1(b) && b->a == a) return xconst(1, 1); }
		break;
	case X_XOR:
		if (a == b) return xconst(0, w);
		if (isC(b)) { if (b->c == 0) return a; if (w == 1) return xnot1(a); if (a->op == X_XOR && isC(a->b)) return xbin(X_XOR, a->a, xconst(a->b->c ^ b->c, w)); }
		break;
	case X_SHL:
		if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return xconst(0, w); return xmulc(a, 1ull << b->c); }
		break;
	case X_LSHR:
		if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return xconst(0, w); return xzext(xextract(a, b->c, w - b->c), w); }
		break;
	case X_ASHR:
		if (isC(b)) { if (b->c == 0) return a; u64 k = b->c >= w ? w - 1 : b->c; return xsext(xextract(a, k, w - k), w); }
		break;
	case X_UDIV: if (isC(b, 1)) return a; if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return xbin(X_LSHR, a, xconst(__builtin_ctzll(b->c), w)); if (a->hi < b->lo) return xconst(0, w); break;
	case X_UREM: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return xbin(X_AND, a, xconst(b->c - 1, w)); if (a->hi < b->lo) return a; break;
	case X_SDIV: case X_SREM:
		if (!(a->hi >> (w - 1) & 1) && !(b->hi >> (w - 1) & 1)) return xbin(op == X_SDIV ? X_UDIV : X_UREM, a, b);
		break;
	default: break;
	}
	return P.get(op, w, 0, a, b);
}

static E xeq(E a, E b) {
	if (a == b) return xconst(1, 1);
	if (isC(a) && isC(b)) return xconst(a->c == b->c, 1);
	if (a->hi < b->lo || b->hi < a->lo) return xconst(0, 1);
	if (isC(a)) std::swap(a, b);
	if (a->w == 1) { if (isC(b)) return b->c ? a : xnot1(a); return xnot1(xbin(X_XOR, a, b)); }
	if (isC(b)) {
		if (isTree(a)) return ctreeBin(X_EQ, a, b);
		switch (a->op) {
		case X_ZEXT: return b->c > mask(a->a->w) ? xconst(0, 1) : xeq(a->a, xconst(b->c, a->a->w));
		case X_SEXT: if ((u64)sx(b->c & mask(a->a->w), a->a->w) != (u64)sx(b->c, b->w)) return xconst(0, 1); return xeq(a->a, xconst(b->c, a->a->w));
		case X_CONCAT: return xbin(X_AND, xeq(a->a, xconst(b->c >> a->b->w, a->a->w)), xeq(a->b, xconst(b->c, a->b->w)));
		case X_XOR: if (isC(a->b)) return xeq(a->a, xconst(a->b->c ^ b->c, a->w)); break;
		case X_ITE: if (isC(a->b) || isC(a->d)) return xite(a->a, xeq(a->b, b), xeq(a->d, b)); break;
		case X_ADD: if (isC(a->b)) return xeq(a->a, xconst(b->c - a->b->c, a->w)); break;
		default: break;
		}
	} else {
		if (a->op == X_ZEXT && b->op == X_ZEXT && a->a->w == b->a->w) return xeq(a->a, b->a);
		if (a->op == X_SEXT && b->op == X_SEXT && a->a->w == b->a->w) return xeq(a->a, b->a);
		if (a->op == X_ADD || b->op == X_ADD) { // modular cancellation is always valid for equality
			Lin x, y; linAdd(x, a, 1, a->w); linAdd(y, b, 1, a->w); bool ch = false;
			for (auto &p : x.t) for (auto &q : y.t) if (p.first == q.first && p.second == q.second && p.second) { p.second = q.second = 0; ch = true; }
			if (x.c && y.c) { y.c = (y.c - x.c) & mask(a->w); x.c = 0; ch = true; }
			if (ch) return xeq(linBuild(x, a->w), linBuild(y, a->w));
		}
		if (a->id > b->id) std::swap(a, b);
	}
	return P.get(X_EQ, 1, 0, a, b);
}
static E xult(E a, E b) {
	if (a == b) return xconst(0, 1);
	if (isC(a) && isC(b)) return xconst(a->c < b->c, 1);
	if (a->hi < b->lo) return xconst(1, 1);
	if (a->lo >= b->hi) return xconst(0, 1);
	if (a->w == 1) return xbin(X_AND, xnot1(a), b);
	if ((isTree(a) && isC(b)) || (isTree(b) && isC(a))) return ctreeBin(X_ULT, a, b);
	if (a->op == X_ADD || b->op == X_ADD) { E x = a, y = b; if (linCancel(x, y)) return xult(x, y); }
	if (a->op == X_ZEXT && b->op == X_ZEXT && a->a->w == b->a->w) return xult(a->a, b->a);
	if (a->op == X_ZEXT && isC(b)) return xult(a->a, xconst(b->c, a->a->w)); // b->c in range since a->hi >= b->lo
	if (b->op == X_ZEXT && isC(a)) return xult(xconst(a->c, b->a->w), b->a);
	if (isC(b, 1)) return xeq(a, xconst(0, a->w));
	if (isC(a, 0)) return xnot1(xeq(b, a));
	return P.get(X_ULT, 1, 0, a, b);
}
static E xslt(E a, E b) {
	if (a == b) return xconst(0, 1);
	unsigned w = a->w;
	if (isC(a) && isC(b)) return xconst(sx(a->c, w) < sx(b->c, w), 1);
	if (w == 1) return xbin(X_AND, a, xnot1(b));
	bool an = !(a->hi >> (w - 1) & 1), bn = !(b->hi >> (w - 1) & 1); // known non-negative
	bool aneg = (a->lo >> (w - 1) & 1), bneg = (b->lo >> (w - 1) & 1); // known negative
	if (an && bn) return xult(a, b);
	if (aneg && bn) return xconst(1, 1);
	if (an && bneg) return xconst(0, 1);
	if (aneg && bneg) return xult(a, b);
	if ((isTree(a) && isC(b)) || (isTree(b) && isC(a))) return ctreeBin(X_SLT, a, b);
	if (isSum(a) || isSum(b)) {
		Lin pa, na, pb, nb;
		if (linSigned(a, pa, na) && linSigned(b, pb, nb)) {
			Lin x, y; x.c = pa.c + nb.c; y.c = pb.c + na.c; u128 sx_ = (u128)pa.c + nb.c, sy = (u128)pb.c + na.c;
			for (auto &p : pa.t) { linAdd(x, p.first, p.second, w); sx_ += (u128)p.first->hi * p.second; }
			for (auto &p : nb.t) { linAdd(x, p.first, p.second, w); sx_ += (u128)p.first->hi * p.second; }
			for (auto &p : pb.t) { linAdd(y, p.first, p.second, w); sy += (u128)p.first->hi * p.second; }
			for (auto &p : na.t) { linAdd(y, p.first, p.second, w); sy += (u128)p.first->hi * p.second; }
			if (sx_ <= mask(w) && sy <= mask(w)) return xult(linBuild(x, w), linBuild(y, w));
		}
	}
	if (a->op == X_SEXT && b->op == X_SEXT && a->a->w == b->a->w) return xslt(a->a, b->a);
	if (a->op == X_SEXT && isC(b)) {
		i64 k = sx(b->c, w); unsigned aw = a->a->w; i64 mx = (i64)(mask(aw) >> 1), mn = -mx - 1;
		if (k > mx) return xconst(1, 1); if (k <= mn) return xconst(0, 1);
		return xslt(a->a, xconst((u64)k, aw));
	}
	if (b->op == X_SEXT && isC(a)) {
		i64 k = sx(a->c, w); unsigned bw = b->a->w; i64 mx = (i64)(mask(bw) >> 1), mn = -mx - 1;
		if (k >= mx) return xconst(0, 1); if (k < mn) return xconst(1, 1);
		return xslt(xconst((u64)k, bw), b->a);
	}
	if (isC(b, 0)) return xextract(a, w - 1, 1);
	return P.get(X_SLT, 1, 0, a, b);
}
static E xite(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (isNot1(c)) return xite(c->a, b, a);
	if (a->op == X_ITE && a->a == c) a = a->b;
	if (b->op == X_ITE && b->a == c) b = b->d;
	if (a == b) return a;
	if (a->w == 1) {
		if (isC(a) && isC(b)) return a->c ? c : xnot1(c);
		if (isC(a)) return a->c ? xbin(X_OR, c, b) : xbin(X_AND, xnot1(c), b);
		if (isC(b)) return b->c ? xbin(X_OR, xnot1(c), a) : xbin(X_AND, c, a);
	}
	return P.get(X_ITE, a->w, 0, c, a, b);
}
static E xextract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return xconst(a->c >> lo, w);
	if (lo && (a->hi >> lo) == 0) return xconst(0, w);
	if (isTree(a)) return ctreeExt(a, 0, lo, w);
	switch (a->op) {
	case X_EXTRACT: return xextract(a->a, a->c + lo, w);
	case X_CONCAT:
		if (lo >= a->b->w) return xextract(a->a, lo - a->b->w, w);
		if (lo + w <= a->b->w) return xextract(a->b, lo, w);
		return xconcat(xextract(a->a, 0, lo + w - a->b->w), xextract(a->b, lo, a->b->w - lo));
	case X_ZEXT:
		if (lo >= a->a->w) return xconst(0, w);
		if (lo + w <= a->a->w) return xextract(a->a, lo, w);
		return xzext(xextract(a->a, lo, a->a->w - lo), w);
	case X_SEXT:
		if (lo + w <= a->a->w) return xextract(a->a, lo, w);
		if (lo < a->a->w) return xsext(xextract(a->a, lo, a->a->w - lo), w);
		return xsext(xextract(a->a, a->a->w - 1, 1), w);
	case X_AND: case X_OR: case X_XOR: return xbin(a->op, xextract(a->a, lo, w), xextract(a->b, lo, w));
	case X_ADD: case X_MUL: if (lo == 0 && (w >= 16 || a->hi <= mask(w))) { E x = xextract(a->a, 0, w), y = xextract(a->b, 0, w); return a->op == X_ADD ? xadd(x, y) : xbin(X_MUL, x, y); } break;
	case X_ITE: if (isC(a->b) || isC(a->d)) return xite(a->a, xextract(a->b, lo, w), xextract(a->d, lo, w)); break;
	default: break;
	}
	return P.get(X_EXTRACT, w, lo, a);
}
static E xconcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return xconst(hi->c << lo->w | lo->c, w);
	if (isC(hi, 0)) return xzext(lo, w);
	if (hi->op == X_EXTRACT && lo->op == X_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return xextract(hi->a, lo->c, w);
	if (hi->op == X_EXTRACT && hi->a == lo && hi->c == lo->w) return xextract(lo, 0, w);
	if (hi->op == X_ZEXT && isC(lo, 0)) return xmulc(xzext(hi, w), 1ull << lo->w);
	if (hi->op == X_ZEXT) return xzext(xconcat(hi->a, lo), w);
	return P.get(X_CONCAT, w, 0, hi, lo);
}
static E xzext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return xconst(a->c, w);
	if (isTree(a)) return ctreeExt(a, 1, 0, w);
	if (a->op == X_ZEXT) return xzext(a->a, w);
	if (a->op == X_ADD || (a->op == X_MUL && isC(a->b))) {
		Lin l; linAdd(l, a, 1, a->w);
		if (linExact(l, a->w)) { Lin r; r.c = l.c; for (auto &p : l.t) if (p.second) linAdd(r, xzext(p.first, w), p.second, w); return linBuild(r, w); }
	}
	return P.get(X_ZEXT, w, 0, a);
}
static E xsext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return xconst((u64)sx(a->c, a->w), w);
	if (isTree(a)) return ctreeExt(a, 2, 0, w);
	if (!(a->hi >> (a->w - 1) & 1)) return xzext(a, w);
	if (a->op == X_SEXT) return xsext(a->a, w);
	if (isSum(a)) {
		Lin pa, na;
		if (linSigned(a, pa, na)) {
			Lin r; r.c = (pa.c - na.c) & mask(w);
			for (auto &p : pa.t) linAdd(r, xzext(p.first, w), p.second, w);
			for (auto &p : na.t) linAdd(r, xzext(p.first, w), (0 - p.second) & mask(w), w);
			return linBuild(r, w);
		}
	}
	return P.get(X_SEXT, w, 0, a);
}

// ---- evaluation --------------------------------------------------------
extern u32 g_evEpoch;
static u64 evalRec(E e, const u64 *m) {
	if (e->op == X_CONST) return e->c;
	if (e->evEpoch == g_evEpoch) return e->ev;
	u64 r;
	switch (e->op) {
	case X_VAR: r = m[e->c] & mask(e->w); break;
	case X_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
	case X_CONCAT: r = evalRec(e->a, m) << e->b->w | evalRec(e->b, m); break;
	case X_EXTRACT: r = (evalRec(e->a, m) >> e->c) & mask(e->w); break;
	case X_ZEXT: r = evalRec(e->a, m); break;
	case X_SEXT: r = (u64)sx(evalRec(e->a, m), e->a->w) & mask(e->w); break;
	default: { u64 x = evalRec(e->a, m), y = evalRec(e->b, m); r = cfold(e->op, x, y, e->a->w); }
	}
	e->ev = r; e->evEpoch = g_evEpoch; return r;
}
static inline u64 evalX(E e, const u64 *m) { g_evEpoch++; return evalRec(e, m); }

static std::string xstr(E e, int depth = 6) {
	static const char *n[] = {"const","var","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","==","<u","<s","ite","concat","extract","zext","sext"};
	char b[64];
	if (e->op == X_CONST) { snprintf(b, sizeof b, "%llu", (unsigned long long)e->c); return b; }
	if (e->op == X_VAR) { snprintf(b, sizeof b, "v%llu", (unsigned long long)e->c); return b; }
	if (!depth) return "...";
	std::string s = std::string("(") + n[e->op];
	if (e->op == X_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->c, e->w); s += b; }
	if (e->a) s += " " + xstr(e->a, depth - 1); if (e->b) s += " " + xstr(e->b, depth - 1); if (e->d) s += " " + xstr(e->d, depth - 1);
	return s + ")";
}
