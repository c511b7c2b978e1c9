static inline Val getOp(State &s, const Frame &f, i32 o) { return o >= 0 ? s.regs[f.base + o] : f.f->consts[~o]; }

static void pushFrame(State &s, Func *f, const vector<Val> &args, unsigned nfixed, i32 retReg, u8 retW) {
	if (f->declared) { inconclusive("call to unmodelled function " + f->name); throw EndPath(); }
	if (!f->compiled) { Compiler c; c.run(f); }
	f->visits++;
	if (s.fr.size() > 600) { // unbounded recursion
		report(s, "hang", "recursion deeper than 600 frames", s.model); throw EndPath(); }
	Frame n; n.f = f; n.pc = 0; n.base = s.regs.size(); n.alloc0 = s.allocas.size(); n.retReg = retReg; n.retW = retW; n.vaSlot = 0;
	s.regs.resize(n.base + f->nregs);
	unsigned na = f->vararg ? f->argRegs.size() : args.size();
	for (unsigned i = 0; i < na && i < args.size(); i++) s.regs[n.base + i] = args[i]; // scalar args are consecutive registers
	if (f->vararg) {
		unsigned extra = args.size() > na ? args.size() - na : 0;
		u64 a = allocObj(s, extra * 8 + 8, true, "varargs", K_STACK); s.allocas.push_back((a >> 32) & 0xFFFFFF);
		Obj *o = s.objs[((a >> 32) & 0xFFFFFF) - 1].o;
		for (unsigned i = 0; i < extra; i++) storeObj(o, i * 8, 64, args[na + i]);
		s.regs[n.base + f->vareg] = VC(a);
	}
	s.fr.push_back(n);
}
static inline u64 slotAddr(State &s, u32 slot) { return (u64)slot << 32 | (u64)s.objs[slot - 1].gen << 56 | OFFBASE; }
static void popAllocas(State &s, u32 to) { while (s.allocas.size() > to) { u32 sl = s.allocas.back(); s.allocas.pop_back(); u64 a = slotAddr(s, sl); 
	relObj(s.objs[sl - 1].o); s.objs[sl - 1].o = nullptr; s.objs[sl - 1].gen = (s.objs[sl - 1].gen + 1) & 0x3F; s.freeSlots.push_back(sl - 1); (void)a; } }

static Val binVal(State &s, u8 op, unsigned w, Val a, Val b) {
	static const EOp map[] = {X_ADD, X_ADD, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM, X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR};
	if (op >= I_UDIV && op <= I_SREM) {
		E nz = b.e ? xnot1(xeq(b.e, xconst(0, w))) : xconst(b.c != 0, 1);
		mustHold(s, nz, "memory", "division by zero");
		if (op == I_SDIV || op == I_SREM) {
			E ov = xbin(X_AND, xeq(toE(a, w), xconst(1ull << (w - 1), w)), xeq(toE(b, w), xconst(mask(w), w)));
			mustHold(s, xnot1(ov), "memory", "signed division overflow");
		}
	}
	if (!a.e && !b.e) {
		if (op == I_SUB) return VC((a.c - b.c) & mask(w));
		return VC(cfold(map[op], a.c, b.c, w));
	}
	E x = toE(a, w), y = toE(b, w);
	if (op == I_SUB) return VE(xsub(x, y));
	return VE(xbin(map[op], x, y));
}
static Val cmpVal(u8 op, unsigned w, Val a, Val b) {
	if (!a.e && !b.e) {
		i64 x = sx(a.c, w), y = sx(b.c, w);
		switch (op) {
		case I_EQ: return VC(a.c == b.c); case I_NE: return VC(a.c != b.c);
		case I_ULT: return VC(a.c < b.c); case I_ULE: return VC(a.c <= b.c); case I_UGT: return VC(a.c > b.c); case I_UGE: return VC(a.c >= b.c);
		case I_SLT: return VC(x < y); case I_SLE: return VC(x <= y); case I_SGT: return VC(x > y); default: return VC(x >= y);
		}
	}
	E x = toE(a, w), y = toE(b, w);
	switch (op) {
	case I_EQ: return VE(xeq(x, y)); case I_NE: return VE(xnot1(xeq(x, y)));
	case I_ULT: return VE(xult(x, y)); case I_ULE: return VE(xnot1(xult(y, x))); case I_UGT: return VE(xult(y, x)); case I_UGE: return VE(xnot1(xult(x, y)));
	case I_SLT: return VE(xslt(x, y)); case I_SLE: return VE(xnot1(xslt(y, x))); case I_SGT: return VE(xslt(y, x)); default: return VE(xnot1(xslt(x, y)));
	}
}
static void takeEdge(State &s, Frame &f, u32 ei) {
	const Edge &e = f.f->edges[ei];
	if (e.mv.size() == 1) s.regs[f.base + e.mv[0].first] = getOp(s, f, e.mv[0].second);
	else if (!e.mv.empty()) { Val tmp[64]; vector<Val> big; Val *t = tmp; if (e.mv.size() > 64) { big.resize(e.mv.size()); t = big.data(); }
		for (size_t i = 0; i < e.mv.size(); i++) t[i] = getOp(s, f, e.mv[i].second);
		for (size_t i = 0; i < e.mv.size(); i++) s.regs[f.base + e.mv[i].first] = t[i]; }
	f.pc = e.target;
}
// decide a condition on this path: returns its value here, queues the other outcome if feasible.
// the current instruction is re-executed by the queued state with the decision already implied.
static bool decide(State &s, E c, const char *why) {
	if (isC(c)) return c->c;
	bool v = evalX(c, s.model.data()); E other = v ? xnot1(c) : c;
	vector<u64> m; SRes r = feasible(s, other, m);
	if (r == S_UNKNOWN) { inconclusive(string("solver unknown: ") + why); throw EndPath(); }
	if (r == S_SAT) { pushWork(forkWith(s, other, m)); addC(s, v ? c : xnot1(c)); }
	return v;
}
static double fpv(u64 c, bool f32) { if (f32) { float f; u32 x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fpb(double d, bool f32) { if (f32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static void needConc(State &s, Val &v, const char *w) { if (v.e) concretize(s, v, w); }
static string strArg(State &s, u64 a) { string r; if (!cstr(s, a, r)) r += "<sym>"; return r; }
static int g_tier = 0, optForkSelect = 0;

static void finishPath(State &s, const char *how) {
	if (strcmp(how, "assume") && (samples.size() < 4 || (nPaths % 997 == 0 && samples.size() < 20))) {
		string b; for (auto &r : s.in) { char t[160]; snprintf(t, sizeof t, "%s%s=%lld", b.empty() ? "" : " ", names[r.name].c_str(), (long long)(r.kind == 0 ? (r.v < s.model.size() ? s.model[r.v] & mask(r.w) : 0) : r.v)); b += t; if (r.kind == 0) b += "*"; }
		char t[64]; snprintf(t, sizeof t, " | constraints=%zu steps=%llu end=%s", s.cs.size(), (unsigned long long)s.steps, how); b += t; b += "\t"; for (auto &r : s.in) { char t[200]; snprintf(t, sizeof t, "%c %s %llu;", r.kind ? 'C' : 'S', names[r.name].c_str(), (unsigned long long)(r.kind == 0 ? (r.v < s.model.size() ? s.model[r.v] & mask(r.w) : 0) : r.v)); b += t; }
		b += "\t"; for (auto e : s.obs) { snprintf(t, sizeof t, "%llu,", (unsigned long long)evalX(e, s.model.data())); b += t; }
		samples.push_back(b);
	}
	maxDepthIn = std::max<u64>(maxDepthIn, s.in.size());
}

// executes one builtin; returns true if the frame's pc was already advanced / path changed
static bool builtin(State &s, Frame &f, const Ins &I, const CallT &t, int b) {
	vector<Val> a(t.args.size()); for (size_t i = 0; i < a.size(); i++) a[i] = getOp(s, f, t.args[i]);
	auto setR = [&](Val v, unsigned k = 0) { if (I.dst >= 0) s.regs[f.base + I.dst + k] = v; };
	unsigned w = I.w ? I.w : 64;
	switch (b) {
	case B_SYM: {
		needConc(s, a[0], "kse_sym"); unsigned bits = a[0].c; string n = strArg(s, a[1].c);
		if (s.vw.size() >= MAXVARS) { inconclusive("more than 128 symbolic inputs on a path"); throw EndPath(); }
		u32 idx = s.vw.size(); s.vw.push_back(bits); { u64 h = (idx + 1) * 0x9E3779B97F4A7C15ull ^ (s.in.size() * 0xC2B2AE3D27D4EB4Full) ^ (s.cs.size() * 0x165667B19E3779F9ull); for (auto &q : s.in) h = (h ^ (q.kind ? q.v : 7)) * 0x27D4EB2F165667C5ull; h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; s.model.push_back(h & mask(bits)); } std::bitset<256> d; if (bits <= 8) for (unsigned i = 0; i < (1u << bits); i++) d.set(i); s.dom.push_back(d); s.multi.push_back(bits > 8);
		s.in.push_back({0, (u8)bits, nameId(n), idx}); setR(VE(xzext(xvar(idx, bits), 64))); return false; }
	case B_CHOOSE: {
		needConc(s, a[0], "kse_choose"); u64 n = a[0].c; u64 v;
		if (n == 0) throw EndPath();
		if (s.chooseResume >= 0) { v = s.chooseResume; s.chooseResume = -1; }
		else { for (u64 i = n - 1; i > 0; i--) { State *o = new State(s); o->chooseResume = i; nForks++; pushWork(o); } v = 0; }
		s.in.push_back({1, 32, nameId(strArg(s, a[1].c)), v}); setR(VC(v)); return false; }
	case B_ASSUME: {
		E c = toE(a[0], t.aw[0]); c = xnot1(xeq(c, xconst(0, t.aw[0])));
		if (isC(c)) { if (!c->c) { nAssumeCut++; finishPath(s, "assume"); throw EndPath(); } return false; }
		vector<u64> m; SRes r = feasible(s, c, m);
		if (r == S_UNKNOWN) { inconclusive("solver unknown: assume"); throw EndPath(); }
		if (r == S_UNSAT) { nAssumeCut++; throw EndPath(); }
		addC(s, c); s.model = m; return false; }
	case B_CHECK: {
		string msg = strArg(s, a[1].c); nChecks++; checkMsgs[msg]++;
		E c = toE(a[0], t.aw[0]); c = xnot1(xeq(c, xconst(0, t.aw[0]))); if (!isC(c)) nChecksSym++;
		u64 v0 = viols.size(); mustHold(s, c, "check", msg); if (viols.size() == v0) nChecksProved++; return false; }
	case B_COVER: covers[strArg(s, a[0].c)]++; return false;
	case B_NOTE: s.tag = a[0].c ? (int)nameId(strArg(s, a[0].c)) : -1; return false;
	case B_SAME: { needConc(s, a[0], "kse_same"); needConc(s, a[1], "kse_same"); needConc(s, a[2], "kse_same"); u64 n = a[2].c, xo, yo; const char *er = nullptr; if (!n) { setR(VC(1)); return false; }
		Obj *x = lookup(s, a[0].c, &er); if (!x) memErr(s, er, a[0].c, nullptr, n, "read"); if (!inb(x, a[0].c, n, xo)) memErr(s, nullptr, a[0].c, x, n, "read");
		Obj *y = lookup(s, a[1].c, &er); if (!y) memErr(s, er, a[1].c, nullptr, n, "read"); if (!inb(y, a[1].c, n, yo)) memErr(s, nullptr, a[1].c, y, n, "read");
		E r = xconst(1, 1);
		for (u64 i = 0; i < n;) {
			Page *p = x->pg[(xo + i) / PS], *q = y->pg[(yo + i) / PS]; u32 pj = (xo + i) % PS, qj = (yo + i) % PS; u64 k = std::min<u64>(n - i, std::min<u64>(PS - pj, PS - qj));
			if (p == q && pj == qj) { i += k; continue; }
			if (!p->sym && !q->sym) { if (memcmp(p->d + pj, q->d + qj, k)) { setR(VC(0)); return false; } }
			else for (u64 t = 0; t < k; t++) r = xbin(X_AND, r, xeq(byteE(p, pj + t), byteE(q, qj + t)));
			i += k;
		}
		setR(VE(xzext(r, w))); return false; }
	case B_OBS: s.obs.push_back(toE(a[0], 64)); return false;
	case B_LIFESTART: case B_LIFEEND: {
		u64 p = a[1].c; if (a[1].e) return false; u32 slot = (p >> 32) & 0xFFFFFF; if ((p & ROMBIT) || !slot || slot > s.objs.size()) return false;
		Slot &sl = s.objs[slot - 1]; if (!sl.o || sl.gen != ((p >> 56) & 0x3F) || sl.o->kind != K_STACK) return false;
		u8 fr = b == B_LIFEEND; if (sl.o->freed == fr) return false;
		if (sl.o->rc > 1) { Obj *n = cloneObj(sl.o); sl.o->rc--; sl.o = n; }
		sl.o->freed = fr; return false; }
	case B_CONC: { u64 v = concretize(s, a[0], "kse_concretize"); setR(VC(v)); return false; }
	case B_TIER: setR(VC(g_tier)); return false;
	case B_END: finishPath(s, "end"); nEnd++; throw EndPath();
	case B_DUMP: fprintf(stderr, "DUMP %s: %s\n", strArg(s, a[0].c).c_str(), a[1].e ? xstr(a[1].e).c_str() : std::to_string((i64)a[1].c).c_str()); return false;
	case B_MALLOC: needConc(s, a[0], "malloc"); setR(VC(allocObj(s, a[0].c, false, "heap block", K_HEAP))); return false;
	case B_CALLOC: needConc(s, a[0], "calloc"); needConc(s, a[1], "calloc"); setR(VC(allocObj(s, a[0].c * a[1].c, true, "heap block", K_HEAP))); return false;
	case B_FREE: { needConc(s, a[0], "free"); if (!a[0].c) return false; const char *e = nullptr; Obj *o = lookup(s, a[0].c, &e);
		if (!o) memErr(s, e, a[0].c, nullptr, 0, "free"); if (o->kind != K_HEAP || (a[0].c & 0xffffffff) != OFFBASE) memErr(s, "invalid free", a[0].c, o, 0, "free"); freeSlot(s, a[0].c); return false; }
	case B_REALLOC: { needConc(s, a[0], "realloc"); needConc(s, a[1], "realloc"); u64 n = allocObj(s, a[1].c, false, "heap block", K_HEAP);
		if (a[0].c) { const char *e = nullptr; Obj *o = lookup(s, a[0].c, &e); if (!o) memErr(s, e, a[0].c, nullptr, 0, "realloc"); memCopy(s, n, a[0].c, std::min<u64>(o->size, a[1].c)); freeSlot(s, a[0].c); } setR(VC(n)); return false; }
	case B_MEMCPY: needConc(s, a[2], "memcpy size");
		if (a[2].c) { if (a[0].e) { resolve(s, a[0], a[2].c, true, "write"); concretize(s, a[0], "memcpy dst"); } if (a[1].e) { resolve(s, a[1], a[2].c, false, "read"); concretize(s, a[1], "memcpy src"); } }
		memCopy(s, a[0].c, a[1].c, a[2].c); setR(a[0]); return false;
	case B_MEMSET: needConc(s, a[2], "memset size"); if (a[2].c && a[0].e) { resolve(s, a[0], a[2].c, true, "write"); concretize(s, a[0], "memset dst"); }
		{ Val v = a[1]; if (v.e) v = VE(xextract(v.e, 0, 8)); else v.c &= 255; memSet(s, a[0].c, v, a[2].c); } setR(a[0]); return false;
	case B_VASTART: { u64 ap = a[0].c; storeMem(s, VC(ap), 32, VC(48)); storeMem(s, VC(ap + 4), 32, VC(304)); storeMem(s, VC(ap + 8), 64, s.regs[f.base + f.f->vareg]); storeMem(s, VC(ap + 16), 64, VC(0)); return false; }
	case B_VACOPY: memCopy(s, a[0].c, a[1].c, 24); return false;
	case B_TRAP: { u64 k = a.size() && !a[0].e ? a[0].c : 255; const char *n = k == 18 ? "array index out of bounds" : k == 3 ? "division overflow / by zero" : k == 19 ? "pointer overflow" : k == 20 ? "shift out of bounds" : k == 22 ? "null/misaligned access" : "undefined behaviour trap";
		char m[100]; snprintf(m, sizeof m, "%s (ubsan %llu)", n, (unsigned long long)k); report(s, "memory", m, s.model); throw EndPath(); }
	case B_ASSERTFAIL: report(s, "assert", "assertion failed: " + strArg(s, a[0].c), s.model); throw EndPath();
	case B_ABORT: report(s, "assert", "abort()", s.model); throw EndPath();
	case B_EXIT: report(s, "exit", "process exits", s.model); throw EndPath();
	case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
		E x = toE(a[0], w), y = toE(a[1], w); E lt = b == B_UMIN || b == B_UMAX ? xult(x, y) : xslt(x, y);
		setR(VE(b == B_UMIN || b == B_SMIN ? xite(lt, x, y) : xite(lt, y, x))); return false; }
	case B_ABS: { E x = toE(a[0], w); setR(VE(xite(xslt(x, xconst(0, w)), xsub(xconst(0, w), x), x))); return false; }
	case B_BSWAP: { E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E y = xextract(x, i * 8, 8); r = r ? xconcat(r, y) : y; } setR(VE(r)); return false; }
	case B_CTPOP: { E x = toE(a[0], w), r = xconst(0, w); for (unsigned i = 0; i < w; i++) r = xadd(r, xzext(xextract(x, i, 1), w)); setR(VE(r)); return false; }
	case B_CTLZ: case B_CTTZ: { E x = toE(a[0], w), r = xconst(w, w); for (unsigned k = 0; k < w; k++) { unsigned i = b == B_CTLZ ? k : w - 1 - k; r = xite(xextract(x, i, 1), xconst(b == B_CTLZ ? w - 1 - i : i, w), r); } setR(VE(r)); return false; }
	case B_FSHL: case B_FSHR: { needConc(s, a[2], "funnel shift"); unsigned k = a[2].c % w; E x = toE(a[0], w), y = toE(a[1], w); if (!k) { setR(b == B_FSHL ? a[0] : a[1]); return false; } if (b == B_FSHR) k = w - k;
		setR(VE(xbin(X_OR, xbin(X_SHL, x, xconst(k, w)), xbin(X_LSHR, y, xconst(w - k, w))))); return false; }
	case B_USUBSAT: { E x = toE(a[0], w), y = toE(a[1], w); setR(VE(xite(xult(x, y), xconst(0, w), xsub(x, y)))); return false; }
	case B_UADDSAT: { E x = toE(a[0], w), y = toE(a[1], w), r = xadd(x, y); setR(VE(xite(xult(r, x), xconst(mask(w), w), r))); return false; }
	case B_UADDO: case B_USUBO: case B_SADDO: case B_SSUBO: case B_UMULO: case B_SMULO: {
		unsigned v = t.aw[0]; E x = toE(a[0], v), y = toE(a[1], v), r, o; if (v > 32 && (b == B_UMULO || b == B_SMULO)) { needConc(s, a[0], "mulo"); needConc(s, a[1], "mulo"); u128 p = (u128)a[0].c * a[1].c; i64 q; bool ov = b == B_UMULO ? (p >> v) != 0 : __builtin_mul_overflow((i64)a[0].c, (i64)a[1].c, &q); setR(VC((u64)p & mask(v))); setR(VC(ov), 1); return false; }
		if (b == B_UADDO) { r = xadd(x, y); o = xult(r, x); } else if (b == B_USUBO) { r = xsub(x, y); o = xult(x, y); }
		else { bool sg = b != B_UMULO; unsigned W = b == B_UMULO || b == B_SMULO ? 2 * v : v + 1; if (W > 64) { inconclusive("wide overflow op"); throw EndPath(); }
			E X = sg ? xsext(x, W) : xzext(x, W), Y = sg ? xsext(y, W) : xzext(y, W); E R = b == B_SADDO ? xadd(X, Y) : b == B_SSUBO ? xsub(X, Y) : xbin(X_MUL, X, Y);
			r = xextract(R, 0, v); o = xnot1(xeq(sg ? xsext(r, W) : xzext(r, W), R)); }
		setR(VE(r)); setR(VE(o), 1); return false; }
	case B_STACKSAVE: setR(VC(0)); return false;
	case B_OBJSIZE: setR(VC(mask(w))); return false;
	case B_EXPECT: setR(a[0]); return false;
	}
	inconclusive("builtin not implemented"); throw EndPath();
}

static void runState(State *sp) {
	State &s = *sp;
	try {
	Frame *f = &s.fr.back(); Val *R = &s.regs[f->base]; const Ins *code = f->f->code.data();
#define OP(o) ((o) >= 0 ? R[o] : f->f->consts[~(o)])
	u64 lim = optMaxSteps; u64 cnt = 0;
	for (;;) {
		const Ins &I = code[f->pc];
		if (++s.steps > lim) { report(s, "hang", "path exceeds the instruction limit", s.model); throw EndPath(); }
		if ((++cnt & 0xFFFFF) == 0 && (sh->stop || now() - t_start > optTimeout)) { if (!sh->stop) inconclusive("time limit"); throw EndPath(); }
		switch (I.op) {
		case I_ADD: { Val a = OP(I.a), b = OP(I.b); R[I.dst] = (a.e || b.e) ? binVal(s, I_ADD, I.w, a, b) : VC((a.c + b.c) & mask(I.w)); f->pc++; break; }
		case I_SUB: { Val a = OP(I.a), b = OP(I.b); R[I.dst] = (a.e || b.e) ? binVal(s, I_SUB, I.w, a, b) : VC((a.c - b.c) & mask(I.w)); f->pc++; break; }
		case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
			R[I.dst] = binVal(s, I.op, I.w, OP(I.a), OP(I.b)); f->pc++; break;
		case I_EQ: case I_NE: case I_ULT: case I_ULE: case I_UGT: case I_UGE: case I_SLT: case I_SLE: case I_SGT: case I_SGE:
			R[I.dst] = cmpVal(I.op, I.w, OP(I.a), OP(I.b)); f->pc++; break;
		case I_LOAD: { Val a = OP(I.a); if (I.x) a = a.e ? VE(xadd(a.e, xconst(I.x, 64))) : VC(a.c + I.x); R[I.dst] = loadMem(s, a, I.w); f->pc++; break; }
		case I_STORE: { Val a = OP(I.a); if (I.x) a = a.e ? VE(xadd(a.e, xconst(I.x, 64))) : VC(a.c + I.x); storeMem(s, a, I.w, OP(I.b)); f->pc++; break; }
		case I_GEP: {
			Val a = OP(I.a); u64 off = OP(I.b).c; E se = nullptr;
			for (const GepTerm &t : f->f->geps[I.x]) { Val v = OP(t.op); if (v.e) { E x = xmulc(xsext(v.e, 64), t.scale); se = se ? xadd(se, x) : x; } else off += (u64)sx(v.c, t.w) * t.scale; }
			if (!a.e && !se) R[I.dst] = VC(a.c + off);
			else { E r = xadd(toE(a, 64), xconst(off, 64)); if (se) r = xadd(r, se); R[I.dst] = VE(r); }
			f->pc++; break; }
		case I_SEL: { Val c = OP(I.a); if (!c.e) R[I.dst] = c.c ? OP(I.b) : OP(I.c); else if (optForkSelect) R[I.dst] = decide(s, c.e, "select") ? OP(I.b) : OP(I.c); else R[I.dst] = VE(xite(c.e, toE(OP(I.b), I.w), toE(OP(I.c), I.w))); f->pc++; break; }
		case I_ZEXT: { Val a = OP(I.a); R[I.dst] = a.e ? VE(xzext(a.e, I.w)) : a; f->pc++; break; }
		case I_SEXT: { Val a = OP(I.a); R[I.dst] = a.e ? VE(xsext(a.e, I.w)) : VC((u64)sx(a.c, I.w2) & mask(I.w)); f->pc++; break; }
		case I_TRUNC: { Val a = OP(I.a); R[I.dst] = a.e ? VE(xextract(a.e, 0, I.w)) : VC(a.c & mask(I.w)); f->pc++; break; }
		case I_MOV: R[I.dst] = OP(I.a); f->pc++; break;
		case I_BR: takeEdge(s, *f, I.b); break;
		case I_CBR: { Val c = OP(I.a); bool v = c.e ? decide(s, c.e, "branch") : c.c; takeEdge(s, *f, v ? I.b : I.c); break; }
		case I_SWITCH: {
			Val c = OP(I.a); const SwitchT &t = f->f->sws[I.x];
			auto findC = [&](u64 v) { auto it = std::lower_bound(t.cases.begin(), t.cases.end(), std::make_pair(v, (u32)0)); return it != t.cases.end() && it->first == v ? it->second : t.def; };
			if (!c.e) { takeEdge(s, *f, findC(c.c)); break; }
			u64 v = evalX(c.e, s.model.data()); u32 e = findC(v);
			// condition of taking edge e
			auto condOf = [&](u32 ed) { E r = nullptr; if (ed == t.def) { r = xconst(1, 1); for (auto &p : t.cases) if (p.second != ed) r = xbin(X_AND, r, xnot1(xeq(c.e, xconst(p.first, I.w)))); } else { r = xconst(0, 1); for (auto &p : t.cases) if (p.second == ed) r = xbin(X_OR, r, xeq(c.e, xconst(p.first, I.w))); } return r; };
			decide(s, condOf(e), "switch"); // the model satisfies it, so it is true here
			takeEdge(s, *f, e); break; }
		case I_RET: {
			const vector<i32> &v = f->f->lists[I.x]; Val rv[16]; for (size_t i = 0; i < v.size() && i < 16; i++) rv[i] = OP(v[i]);
			popAllocas(s, f->alloc0); i32 rr = f->retReg; u32 base = f->base; s.fr.pop_back(); s.regs.resize(base);
			if (s.fr.empty()) { finishPath(s, "return"); nEnd++; throw EndPath(); }
			f = &s.fr.back(); R = &s.regs[f->base]; code = f->f->code.data();
			if (rr >= 0) for (size_t i = 0; i < v.size(); i++) R[rr + i] = rv[i];
			break; }
		case I_CALL: {
			const CallT &t = f->f->calls[I.x]; Func *g; int b = t.builtin;
			if (t.fn < 0 && b == B_NONE) {
				Val c = OP(t.calleeOp); if (c.e) { u64 x = concretize(s, c, "function pointer"); c = VC(x); }
				u64 k = (c.c & ~FNBASE) >> 4; if (c.c < FNBASE || k >= funcs.size()) { memErr(s, "call through invalid function pointer", c.c, nullptr, 0, "call"); }
				g = funcs[k]; b = g->builtin;
			} else g = t.fn >= 0 ? funcs[t.fn] : nullptr;
			if (b != B_NONE) { builtin(s, *f, I, t, b); f->pc++; break; }
			vector<Val> args(t.args.size());
			for (size_t i = 0; i < args.size(); i++) {
				args[i] = OP(t.args[i]);
				if (t.byval[i]) { u64 n = allocObj(s, t.byval[i], false, "byval argument", K_STACK); s.allocas.push_back((n >> 32) & 0xFFFFFF); memCopy(s, n, args[i].c, t.byval[i]); args[i] = VC(n); }
			}
			if (g->fast) { u64 r; if (fastCall(s, g->fast, args.data(), args.size(), r)) { if (I.dst >= 0) R[I.dst] = VC(r); f->pc++; break; } }
			f->pc++;
			pushFrame(s, g, args, t.nfixed, I.dst, I.w);
			f = &s.fr.back(); R = &s.regs[f->base]; code = f->f->code.data(); break; }
		case I_ALLOCA: { Val n = OP(I.a); needConc(s, n, "alloca size"); u64 a = allocObj(s, I.x * n.c, false, names[I.b].c_str(), K_STACK); s.allocas.push_back((a >> 32) & 0xFFFFFF); R[I.dst] = VC(a); f->pc++; break; }
		case I_UNREACH: report(s, "memory", "unreachable code reached", s.model); throw EndPath();
		case I_FBIN: { Val a = OP(I.a), b = OP(I.b); needConc(s, a, "float"); needConc(s, b, "float"); double x = fpv(a.c, I.w2), y = fpv(b.c, I.w2), r = 0;
			switch (I.x) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: inconclusive("float op"); throw EndPath(); }
			if (I.w2) r = (float)r; R[I.dst] = VC(fpb(r, I.w2)); f->pc++; break; }
		case I_FNEG: { Val a = OP(I.a); needConc(s, a, "float"); R[I.dst] = VC(fpb(-fpv(a.c, I.w2), I.w2)); f->pc++; break; }
		case I_FCMP: { Val a = OP(I.a), b = OP(I.b); needConc(s, a, "float"); needConc(s, b, "float"); double x = fpv(a.c, I.w2), y = fpv(b.c, I.w2); bool un = x != x || y != y, r = false;
			switch (I.x) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = x < y || x > y; break;
			case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; default: break; }
			R[I.dst] = VC(r); f->pc++; break; }
		case I_FCAST: { Val a = OP(I.a); needConc(s, a, "float cast"); bool sf = I.fl & 1, df = I.fl & 2; u64 r = 0;
			switch (I.x) { case Instruction::SIToFP: r = fpb((double)sx(a.c, I.w2), df); break; case Instruction::UIToFP: r = fpb((double)a.c, df); break; case Instruction::FPToSI: r = (u64)(i64)fpv(a.c, sf) & mask(I.w); break; case Instruction::FPToUI: r = (u64)fpv(a.c, sf) & mask(I.w); break;
			case Instruction::FPExt: case Instruction::FPTrunc: r = fpb(fpv(a.c, sf), df); break; default: inconclusive("float cast"); throw EndPath(); }
			R[I.dst] = VC(r); f->pc++; break; }
		default: inconclusive("instruction"); throw EndPath();
		}
	}
	} catch (EndPath &) {}
	nPaths++; nSteps += s.steps - s.steps0; if ((nPaths & 63) == 0) __sync_fetch_and_add(&sh->paths, 64);
	delete sp;
}

static string esc(const string &s) { string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else r += c; } return r; }
static void writeResults(const string &path) {
	FILE *o = fopen(path.c_str(), "w"); if (!o) { perror("kse out"); _exit(3); }
	auto st = [&](const char *n, double v) { fprintf(o, "STAT\t%s\t%.6f\n", n, v); };
	st("paths", nPaths); st("steps", nSteps); st("forks", nForks); st("ended", nEnd); st("assume_cut", nAssumeCut); st("checks", nChecks); st("checks_symbolic", nChecksSym); st("checks_proved", nChecksProved); st("incomplete", nIncomplete);
	st("queries", SS.queries); st("sat", SS.sat); st("unsat", SS.unsat); st("unknown", SS.unknown); st("domain_decided", SS.domain); st("linear", SS.linear); st("cache_hits", SS.cached); st("model_hits", SS.modelhit); st("solver_time", SS.time);
	st("z3_checks", SS.z3checks); st("z3_mismatch", SS.z3mismatch); st("z3_unknown", SS.z3unknown); st("z3_time", SS.z3time);
	fprintf(o, "MAX\tinputs_per_path\t%llu\n", (unsigned long long)maxDepthIn);
	for (auto &c : covers) fprintf(o, "COVER\t%s\t%llu\n", esc(c.first).c_str(), (unsigned long long)c.second);
	for (auto &c : checkMsgs) fprintf(o, "CHECK\t%s\t%llu\n", esc(c.first).c_str(), (unsigned long long)c.second);
	for (auto &c : incompl) fprintf(o, "INCOMPLETE\t%s\t%llu\n", esc(c.first).c_str(), (unsigned long long)c.second);
	for (auto *f : funcs) if (f->visits && f->realSrc) fprintf(o, "FUNC\t%s\t%llu\n", f->name.c_str(), (unsigned long long)f->visits);
	for (auto &x : samples) fprintf(o, "SAMPLE\t%s\n", x.c_str());
	for (auto &v : viols) {
		fprintf(o, "VIOL\t%s\t%s\t%s\t%s\t", v.kind.c_str(), esc(v.msg).c_str(), esc(v.loc).c_str(), esc(v.stack).c_str());
		fprintf(o, "%s\t", v.tag.c_str());
		for (auto &p : v.in) fprintf(o, "%c %s %llu;", p.first.kind ? 'C' : 'S', names[p.first.name].c_str(), (unsigned long long)p.second);
		fprintf(o, "\n");
	}
	fclose(o);
}
static void drain() {
	while (!work.empty()) {
		if (sh->stop || now() - t_start > optTimeout || (optMaxPaths && nPaths >= optMaxPaths)) { if (!sh->stop) inconclusive(optMaxPaths && nPaths >= optMaxPaths ? "path limit" : "time limit"); return; }
		State *s = work.back(); work.pop_back(); runState(s);
	}
}

int main(int argc, char **argv) {
	const char *bc = nullptr; string entry = "harness_main"; 
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "--timeout") optTimeout = atof(argv[++i]); else if (a == "--jobs") optJobs = atoi(argv[++i]); else if (a == "--out") optOut = argv[++i]; else if (a == "--max-steps") optMaxSteps = strtoull(argv[++i], 0, 10);
		else if (a == "--max-viol") optMaxViol = atoi(argv[++i]); else if (a == "--entry") entry = argv[++i]; else if (a == "-v") optVerbose = 1; else if (a == "--fork-select") optForkSelect = 1; else if (a == "--sym-store") optSymStore = true; else if (a == "--tier") g_tier = atoi(argv[++i]); else if (a == "--sample-z3") D.sampleEvery = atoi(argv[++i]);
		else if (a == "--max-paths") optMaxPaths = strtoull(argv[++i], 0, 10);
		else bc = argv[i];
	}
	t_start = now();
	sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	zeroPage = newPage(); memset(zeroPage->d, 0, PS); junkPage = newPage(); memset(junkPage->d, 0xAA, PS);
	State *s0 = new State(); loadModule(bc, {}, *s0);
	auto it = fname.find(entry); if (it == fname.end() || funcs[it->second]->declared) { fprintf(stderr, "kse: no entry %s\n", entry.c_str()); return 3; }
	try { pushFrame(*s0, funcs[it->second], {}, 0, -1, 0); } catch (EndPath &) { return 3; }
	work.push_back(s0);
	double tl = now() - t_start;
	if (optJobs <= 1) { drain(); writeResults(optOut + ".0"); return 0; }
	// breadth-first until the frontier is large enough, then distribute over worker processes
	size_t want = (size_t)optJobs * 24; size_t head = 0; vector<State *> frontier; double tb = now();
	// depth-ordered expansion: always run the state with the fewest inputs so far
	while (!work.empty() && work.size() < want && !sh->stop && now() - t_start < optTimeout && now() - tb < 8) {
		size_t bi = 0; for (size_t i = 1; i < work.size(); i++) if (work[i]->in.size() + work[i]->forks < work[bi]->in.size() + work[bi]->forks) bi = i;
		State *s = work[bi]; work.erase(work.begin() + bi);
		runState(s);
	}
	(void)head;
	frontier.swap(work);
	writeResults(optOut + ".0");
	if (optVerbose) fprintf(stderr, "kse: load %.2fs frontier %zu states after %.2fs, %llu paths\n", tl, frontier.size(), now() - t_start, (unsigned long long)nPaths);
	// reset the counters: children report only their own work
	nPaths = nSteps = nForks = nEnd = nAssumeCut = nChecks = nChecksSym = nChecksProved = nIncomplete = 0; covers.clear(); incompl.clear(); checkMsgs.clear(); viols.clear(); samples.clear(); SS = SolverStats(); for (auto *f : funcs) f->visits = 0;
	std::stable_sort(frontier.begin(), frontier.end(), [](State *a, State *b) { return a->in.size() < b->in.size(); });
	size_t chunk = 1; size_t next = 0, running = 0; int id = 1; bool bad = false;
	while (next < frontier.size() || running) {
		while (running < (size_t)optJobs && next < frontier.size() && !sh->stop) {
			size_t a = next, b = std::min(frontier.size(), next + chunk); next = b; int my = id++;
			pid_t p = fork();
			if (p == 0) { for (size_t i = a; i < b; i++) { work.push_back(frontier[i]); drain(); if (!work.empty()) break; } writeResults(optOut + "." + std::to_string(my)); _exit(0); }
			if (p < 0) { perror("fork"); bad = true; break; }
			running++;
		}
		if (!running) break;
		int st; pid_t p = wait(&st); if (p > 0) { running--; if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = true; fprintf(stderr, "kse: worker ended abnormally (status %d)\n", st); } }
	}
	if (bad) { fprintf(stderr, "kse: incomplete: worker failure\n"); return 4; }
	return 0;
}
