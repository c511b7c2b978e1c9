// kse: a small symbolic executor for LLVM-18 bitcode (single-threaded C code).
// Every path of the harness is executed; branch feasibility, assertion validity and memory
// safety are decided by the solver over all values of the symbolic inputs of the path.
#include <array>
#include <set>
#include <map>
#include <memory>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "solver.h"

Pool P; u32 g_evEpoch = 1; SolverStats SS;
static Decider D;
using std::vector; using std::string;

// ======================= options / shared counters =======================
static double optTimeout = 600; static u64 optMaxSteps = 60000000; static int optJobs = 8; static int optMaxViol = 12; static bool optSymStore = false; static int optVerbose = 0;
static u64 optMaxPaths = 0;
static string optOut = "kse.out"; static double t_start;
struct Shared { volatile u64 stop; volatile u64 paths; volatile u64 viols; };
static Shared *sh;

// ======================= memory =======================
enum { PS = 512 };
struct SymB { E e; u8 idx; };
struct Page { u32 rc; u32 nsym; SymB *sym; u8 d[PS]; };
struct Obj { u32 rc; u32 size; u32 np; u8 ro, freed, kind; const char *name; Page *pg[1]; };
static Page *zeroPage, *junkPage;
static vector<Page *> pageFree;
static Page *newPage() { Page *p; if (!pageFree.empty()) { p = pageFree.back(); pageFree.pop_back(); } else p = (Page *)malloc(sizeof(Page)); p->rc = 1; p->nsym = 0; p->sym = nullptr; return p; }
static void relPage(Page *p) { if (--p->rc == 0) { if (p->sym) { free(p->sym); p->sym = nullptr; } pageFree.push_back(p); } }
static Page *clonePage(Page *p) {
	Page *n = newPage(); memcpy(n->d, p->d, PS); n->nsym = p->nsym;
	if (p->sym) { n->sym = (SymB *)malloc(sizeof(SymB) * PS); memcpy((void *)n->sym, p->sym, sizeof(SymB) * PS); }
	return n;
}
static Obj *newObj(u32 size, bool zero, const char *name, u8 kind) {
	u32 np = (size + PS - 1) / PS; if (!np) np = 1;
	Obj *o = (Obj *)malloc(sizeof(Obj) + np * sizeof(Page *));
	o->rc = 1; o->size = size; o->np = np; o->ro = o->freed = 0; o->kind = kind; o->name = name;
	for (u32 i = 0; i < np; i++) { o->pg[i] = zero ? zeroPage : junkPage; o->pg[i]->rc++; }
	return o;
}
static void relObj(Obj *o) { if (--o->rc == 0) { for (u32 i = 0; i < o->np; i++) relPage(o->pg[i]); free(o); } }
static Obj *cloneObj(Obj *o) {
	Obj *n = (Obj *)malloc(sizeof(Obj) + o->np * sizeof(Page *)); memcpy((void *)n, o, sizeof(Obj) + o->np * sizeof(Page *)); n->rc = 1;
	for (u32 i = 0; i < n->np; i++) n->pg[i]->rc++;
	return n;
}
static inline Page *wpage(Obj *o, u32 i) { Page *p = o->pg[i]; if (p->rc > 1) { Page *n = clonePage(p); p->rc--; o->pg[i] = n; p = n; } return p; }
static inline void setSym(Page *p, u32 off, E e, u8 idx) {
	if (!p->sym) { p->sym = (SymB *)calloc(PS, sizeof(SymB)); }
	if (!p->sym[off].e) p->nsym++;
	p->sym[off].e = e; p->sym[off].idx = idx;
}
static inline void clrSym(Page *p, u32 off) { if (p->sym && p->sym[off].e) { p->sym[off].e = nullptr; if (--p->nsym == 0) { free(p->sym); p->sym = nullptr; } } }

static const u64 OFFBASE = 0x10000, ROMBIT = 1ull << 62, FNBASE = 0x7F00000000000000ull;
enum { K_GLOBAL, K_STACK, K_HEAP };
static vector<Obj *> roms;

struct Val { u64 c; E e; };
static inline Val VC(u64 c) { return {c, nullptr}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : xconst(v.c, w); }
static inline Val VE(E e) { if (isC(e)) return {e->c, nullptr}; return {0, e}; }

// ======================= code =======================
enum IOp : u8 { I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
	I_EQ, I_NE, I_ULT, I_ULE, I_UGT, I_UGE, I_SLT, I_SLE, I_SGT, I_SGE,
	I_LOAD, I_STORE, I_GEP, I_SEL, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_MOVN, I_UNREACH,
	I_FBIN, I_FCMP, I_FCAST, I_FNEG };
struct Ins { u8 op, w, w2, fl; i32 dst, a, b, c; u32 x; u32 line; };
struct GepTerm { i32 op; u8 w; u64 scale; };
struct Edge { u32 target; vector<std::pair<i32, i32>> mv; };
struct SwitchT { vector<std::pair<u64, u32>> cases; u32 def; }; // edge ids
struct CallT { i32 calleeOp; int fn; vector<i32> args; vector<u8> aw; vector<u32> byval; int builtin; unsigned nfixed; bool isVoid; };
struct Func {
	llvm::Function *lf; string name; bool compiled = false, declared = false; int builtin = -1;
	vector<Ins> code; vector<Val> consts; vector<Edge> edges; vector<vector<GepTerm>> geps; vector<SwitchT> sws; vector<CallT> calls; vector<vector<i32>> lists;
	u32 nregs = 0, nargs = 0; bool vararg = false; i32 vareg = -1; u64 visits = 0; vector<u32> argRegs;
	bool realSrc = false; int fast = 0;
};
static vector<Func *> funcs; static std::unordered_map<const llvm::Function *, int> fidx;
static std::unordered_map<string, int> fname;
static std::unordered_map<const llvm::GlobalVariable *, u64> gaddr;
static vector<string> lineTab; static std::unordered_map<string, u32> lineIdx;
static llvm::Module *M; static const llvm::DataLayout *DL;

struct InRec { u8 kind; u8 w; u32 name; u64 v; }; // kind 0 sym (v = var idx) 1 choose (v = value)
static vector<string> names; static std::unordered_map<string, u32> nameIdx;
static u32 nameId(const string &s) { auto it = nameIdx.find(s); if (it != nameIdx.end()) return it->second; names.push_back(s); nameIdx[s] = names.size() - 1; return names.size() - 1; }

struct Frame { Func *f; u32 pc; u32 base; u32 alloc0; i32 retReg; u8 retW; u32 vaSlot; };
struct Slot { Obj *o; u8 gen; };
struct State {
	vector<Frame> fr; vector<Val> regs; vector<Slot> objs; vector<u32> freeSlots; vector<u32> allocas;
	vector<E> cs; vector<u64> model; vector<u8> vw; vector<std::bitset<256>> dom; vector<u8> multi; vector<InRec> in; u32 nsyms = 0;
	vector<E> obs; int tag = -1; u64 steps = 0, steps0 = 0; u32 forks = 0; i64 chooseResume = -1; std::unordered_map<u64, int> *dummy = nullptr;
	State() {}
	State(const State &o) : fr(o.fr), regs(o.regs), objs(o.objs), freeSlots(o.freeSlots), allocas(o.allocas), cs(o.cs), model(o.model), vw(o.vw), dom(o.dom), multi(o.multi), in(o.in), nsyms(o.nsyms), obs(o.obs), tag(o.tag), steps(o.steps), steps0(o.steps), forks(o.forks), chooseResume(o.chooseResume) { for (auto &s : objs) if (s.o) s.o->rc++; }
	~State() { for (auto &s : objs) if (s.o) relObj(s.o); }
};
static vector<State *> work; static bool bfs = false;

// ======================= results =======================
static u64 nPaths, nSteps, nForks, nEnd, nAssumeCut, nChecks, nChecksSym, nChecksProved, maxDepthIn, nIncomplete;
static std::map<string, u64> covers, incompl;
struct Viol { string kind, msg, loc, stack, tag; vector<std::pair<InRec, u64>> in; };
static vector<Viol> viols; static std::map<string, int> violSeen;
static vector<string> samples;
static std::map<string, u64> checkMsgs;
static void inconclusive(const string &why) { incompl[why]++; nIncomplete++; }

// ======================= path condition =======================
static bool small(State &s, E c, int &var) {
	u128 v = c->vars; if (!v || (v & (v - 1))) return false;
	var = (u64)v ? __builtin_ctzll((u64)v) : 64 + __builtin_ctzll((u64)(v >> 64));
	return s.vw[var] <= 8;
}
static const std::bitset<256> &ttab(E c, int var, unsigned w) {
	if (!c->tt) {
		auto *t = new std::bitset<256>(); vector<u64> m(var + 1, 0);
		for (unsigned i = 0; i < (1u << w); i++) { m[var] = i; if (evalX(c, m.data())) t->set(i); }
		c->tt = t;
	}
	return *c->tt;
}
static void slice(State &s, u128 vars, vector<E> &out) {
	vector<char> used(s.cs.size(), 0); bool ch = true;
	while (ch) { ch = false; for (size_t i = 0; i < s.cs.size(); i++) if (!used[i] && (s.cs[i]->vars & vars)) { used[i] = 1; vars |= s.cs[i]->vars; out.push_back(s.cs[i]); ch = true; } }
}
// is path && c satisfiable?  on SAT `m` is a model of path && c
static SRes feasible(State &s, E c, vector<u64> &m) {
	if (isC(c)) { if (c->c) m = s.model; return c->c ? S_SAT : S_UNSAT; }
	if (evalX(c, s.model.data())) { m = s.model; SS.modelhit++; return S_SAT; }
	{ E nc = xnot1(c); for (E x : s.cs) if (x == nc) return S_UNSAT; }
	int v;
	if (small(s, c, v)) {
		std::bitset<256> b = ttab(c, v, s.vw[v]) & s.dom[v];
		if (b.none()) { SS.domain++; return S_UNSAT; }
		if (!s.multi[v]) { SS.domain++; m = s.model; m[v] = b._Find_first(); return S_SAT; }
	}
	vector<E> cs; slice(s, c->vars, cs); cs.push_back(c);
	m = s.model;
	SRes r = D.solve(cs, m);
	m.resize(s.vw.size(), 0);
	return r;
}
static void addC(State &s, E c) {
	if (isC(c)) return;
	if (c->op == X_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
	int v;
	if (small(s, c, v)) { s.dom[v] &= ttab(c, v, s.vw[v]); }
	else { u128 vs = c->vars; for (size_t i = 0; i < s.vw.size(); i++) if (vs >> i & 1) s.multi[i] = 1; }
	for (E x : s.cs) if (x == c) return;
	s.cs.push_back(c);
}

static string locOf(State &s, size_t depth = 0) {
	if (s.fr.size() <= depth) return "?";
	Frame &f = s.fr[s.fr.size() - 1 - depth]; u32 pc = f.pc; if (depth && pc) pc--;
	if (pc >= f.f->code.size()) return f.f->name;
	return f.f->name + "@" + lineTab[f.f->code[pc].line];
}
static bool isRt(const Func *f) { return !f->realSrc; }
static void report(State &s, const string &kind, const string &msg, const vector<u64> &m) {
	string loc; // innermost frame that is not runtime support
	for (size_t d = 0; d < s.fr.size(); d++) { if (!isRt(s.fr[s.fr.size() - 1 - d].f) || d + 1 == s.fr.size()) { loc = locOf(s, d); break; } }
	string stack; for (size_t d = 0; d < s.fr.size() && d < 12; d++) stack += (d ? " < " : "") + locOf(s, d);
	string tag = s.tag >= 0 ? names[s.tag] : "";
	string key = kind + "|" + msg + "|" + loc + "|" + tag;
	int &n = violSeen[key];
	if (n++ >= 3) return;
	Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stack; v.tag = tag;
	for (auto &r : s.in) v.in.push_back({r, r.kind == 0 ? (r.v < m.size() ? m[r.v] & mask(r.w) : 0) : r.v});
	viols.push_back(v);
	if (tag.empty()) __sync_fetch_and_add(&sh->viols, 1);
	if (optMaxViol && (int)sh->viols >= optMaxViol) sh->stop = 1;
	if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), stack.c_str());
}

struct EndPath {}; // thrown to end the current path

// fork: `other` continues with condition c (model m given); current does not get constraints here
static State *forkWith(State &s, E c, vector<u64> &m) {
	State *n = new State(s); n->model = m; addC(*n, c); n->forks++; s.forks++; nForks++;
	return n;
}
// returns true if c must hold (no violation); reports when !c is feasible; afterwards c is assumed
static void mustHold(State &s, E c, const string &kind, const string &msg) {
	if (isC(c) && c->c) return;
	vector<u64> m; E nc = xnot1(c);
	SRes r = isC(c) ? S_SAT : feasible(s, nc, m);
	if (isC(c)) m = s.model;
	if (r == S_UNKNOWN) { inconclusive("solver unknown: " + msg); throw EndPath(); }
	if (r == S_SAT) {
		report(s, kind, msg, m);
		if (isC(c)) throw EndPath();
		vector<u64> m2; SRes q = feasible(s, c, m2);
		if (q != S_SAT) throw EndPath();
		addC(s, c); s.model = m2;
	}
}
static void pushWork(State *n) { work.push_back(n); }
// make v concrete on this path; other values are explored by re-executing the current instruction
static u64 concretize(State &s, Val &v, const char *why) {
	if (!v.e) return v.c;
	u64 x = evalX(v.e, s.model.data()); E eq = xeq(v.e, xconst(x, v.e->w));
	vector<u64> m; SRes r = feasible(s, xnot1(eq), m);
	if (r == S_UNKNOWN) { inconclusive(string("solver unknown: concretize ") + why); throw EndPath(); }
	if (r == S_SAT) { pushWork(forkWith(s, xnot1(eq), m)); addC(s, eq); }
	v = VC(x); return x;
}

// ======================= memory access =======================
static inline Obj *lookup(State &s, u64 addr, const char **err) {
	if (addr >= FNBASE) { *err = "function used as data"; return nullptr; }
	u32 slot = (addr >> 32) & 0xFFFFFF;
	if (addr & ROMBIT) { if (slot < roms.size()) return roms[slot]; *err = "wild pointer"; return nullptr; }
	if (slot == 0) { *err = (addr < 0x10000) ? "NULL pointer dereference" : "wild pointer"; return nullptr; }
	if (slot > s.objs.size()) { *err = "wild pointer"; return nullptr; }
	Slot &sl = s.objs[slot - 1];
	if (!sl.o || sl.gen != ((addr >> 56) & 0x3F)) { *err = "use after free / dead object"; return nullptr; }
	if (sl.o->freed) { *err = "use of a local variable after its scope ended"; return nullptr; }
	return sl.o;
}
static inline Obj *wobj(State &s, u64 addr, const char **err) {
	Obj *o = lookup(s, addr, err); if (!o) return nullptr;
	if (o->ro || (addr & ROMBIT)) { *err = "write to read-only memory"; return nullptr; }
	if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; s.objs[((addr >> 32) & 0xFFFFFF) - 1].o = n; o = n; }
	return o;
}
static u64 allocObj(State &s, u32 size, bool zero, const char *name, u8 kind) {
	u32 slot;
	if (!s.freeSlots.empty()) { slot = s.freeSlots.back(); s.freeSlots.pop_back(); }
	else { s.objs.push_back({nullptr, 0}); slot = s.objs.size() - 1; }
	s.objs[slot].o = newObj(size, zero, name, kind);
	return ((u64)(slot + 1) << 32) | ((u64)s.objs[slot].gen << 56) | OFFBASE;
}
static void freeSlot(State &s, u64 addr) {
	u32 slot = ((addr >> 32) & 0xFFFFFF) - 1; relObj(s.objs[slot].o); s.objs[slot].o = nullptr; s.objs[slot].gen = (s.objs[slot].gen + 1) & 0x3F;
	s.freeSlots.insert(s.freeSlots.begin(), slot); // FIFO reuse
}
static void memErr(State &s, const char *err, u64 addr, Obj *o, unsigned n, const char *what) {
	char b[256];
	if (err) snprintf(b, sizeof b, "%s (%s)", err, what);
	else snprintf(b, sizeof b, "out of bounds %s of %u bytes at offset %lld of %s (size %u)", what, n, (long long)((addr & 0xffffffff) - OFFBASE), o->name ? o->name : "object", o->size);
	report(s, "memory", b, s.model); throw EndPath();
}
static inline bool inb(Obj *o, u64 addr, u64 n, u64 &off) { off = (addr & 0xffffffff) - OFFBASE; return off <= o->size && n <= o->size - off; }

static E byteE(const Page *p, u32 i) {
	if (p->sym && p->sym[i].e) { const SymB &b = p->sym[i]; return xextract(b.e, b.idx * 8, b.e->w < 8 ? b.e->w : 8); }
	return xconst(p->d[i], 8);
}
static Val loadObj(Obj *o, u64 off, unsigned w) {
	unsigned n = (w + 7) / 8; u32 pi = off / PS, po = off % PS; Page *p = o->pg[pi];
	if (po + n <= PS && !p->sym) { u64 v = 0; memcpy(&v, p->d + po, n); return VC(v & mask(w)); }
	// quick path: all bytes of one wide expression
	if (po + n <= PS && p->sym[po].e && p->sym[po].idx == 0) {
		E e = p->sym[po].e; bool ok = e->w == n * 8;
		for (unsigned i = 1; ok && i < n; i++) ok = p->sym[po + i].e == e && p->sym[po + i].idx == i;
		if (ok) return VE(xextract(e, 0, w));
	}
	bool sym = false; u64 v = 0;
	for (unsigned i = 0; i < n; i++) { Page *q = o->pg[(off + i) / PS]; u32 j = (off + i) % PS; if (q->sym && q->sym[j].e) sym = true; else v |= (u64)q->d[j] << (8 * i); }
	if (!sym) return VC(v & mask(w));
	E r = nullptr;
	for (unsigned i = 0; i < n;) { // maximal runs of consecutive bytes of one expression
		Page *q = o->pg[(off + i) / PS]; u32 j = (off + i) % PS; E b; unsigned k = 1;
		if (q->sym && q->sym[j].e) {
			E e = q->sym[j].e; u8 x = q->sym[j].idx;
			for (; i + k < n; k++) { Page *q2 = o->pg[(off + i + k) / PS]; u32 j2 = (off + i + k) % PS; if (!q2->sym || q2->sym[j2].e != e || q2->sym[j2].idx != x + k) break; }
			b = e->w < 8 ? e : xextract(e, x * 8, 8 * k);
		} else {
			u64 c = q->d[j];
			for (; i + k < n; k++) { Page *q2 = o->pg[(off + i + k) / PS]; u32 j2 = (off + i + k) % PS; if (q2->sym && q2->sym[j2].e) break; c |= (u64)q2->d[j2] << (8 * k); }
			b = xconst(c, 8 * k);
		}
		r = r ? xconcat(b, r) : b; i += k;
	}
	return VE(xextract(r, 0, w));
}
static void storeObj(Obj *o, u64 off, unsigned w, Val v) {
	unsigned n = (w + 7) / 8;
	if (!v.e) {
		u32 pi = off / PS, po = off % PS;
		if (po + n <= PS) { Page *p = wpage(o, pi); memcpy(p->d + po, &v.c, n); if (p->sym) for (unsigned i = 0; i < n; i++) clrSym(p, po + i); return; }
		for (unsigned i = 0; i < n; i++) { Page *p = wpage(o, (off + i) / PS); p->d[(off + i) % PS] = v.c >> (8 * i); clrSym(p, (off + i) % PS); }
		return;
	}
	E e = v.e; if (e->w != n * 8) e = xzext(e, n * 8);
	for (unsigned i = 0; i < n; i++) {
		Page *p = wpage(o, (off + i) / PS); u32 j = (off + i) % PS;
		setSym(p, j, e, i);
	}
}
// resolve a (possibly symbolic) address for an n-byte access; afterwards the path implies that the access is in bounds of one object.
static u64 addrAny(State &s, E a) { return evalX(a, s.model.data()); }
static Obj *resolve(State &s, Val &a, u64 n, bool write, const char *what) {
	const char *err = nullptr;
	if (!a.e) {
		Obj *o = write ? wobj(s, a.c, &err) : lookup(s, a.c, &err); u64 off;
		if (!o) memErr(s, err, a.c, nullptr, n, what);
		if (!inb(o, a.c, n, off)) memErr(s, nullptr, a.c, o, n, what);
		return o;
	}
	for (int iter = 0;; iter++) {
		u64 x = addrAny(s, a.e); Obj *o = write ? wobj(s, x, &err) : lookup(s, x, &err); u64 off;
		E bad = nullptr;
		if (o && inb(o, x, n, off)) {
			u64 start = (x & ~0xffffffffull) | OFFBASE; u64 last = start + o->size - n;
			E in = xbin(X_AND, xnot1(xult(a.e, xconst(start, 64))), xnot1(xult(xconst(last, 64), a.e)));
			vector<u64> m; SRes r = feasible(s, xnot1(in), m);
			if (r == S_UNKNOWN) { inconclusive("solver unknown: address"); throw EndPath(); }
			if (r == S_UNSAT) return o;
			u64 y = evalX(a.e, m.data()); const char *e2 = nullptr; Obj *p = lookup(s, y, &e2); u64 off2;
			if (p && inb(p, y, n, off2)) { pushWork(forkWith(s, xnot1(in), m)); addC(s, in); return o; }
			char b[256];
			if (p) snprintf(b, sizeof b, "out of bounds %s of %u bytes at offset %lld of %s (size %u)", what, (unsigned)n, (long long)((y & 0xffffffff) - OFFBASE), p->name ? p->name : "object", p->size);
			else snprintf(b, sizeof b, "%s (%s)", e2, what);
			report(s, "memory", b, m); addC(s, in); return o;
		}
		// the model's own address is bad
		if (!o) { char b[128]; snprintf(b, sizeof b, "%s (%s)", err, what); report(s, "memory", b, s.model); }
		else { char b[256]; snprintf(b, sizeof b, "out of bounds %s of %u bytes at offset %lld of %s (size %u)", what, (unsigned)n, (long long)((x & 0xffffffff) - OFFBASE), o->name ? o->name : "object", o->size); report(s, "memory", b, s.model); }
		if (iter > 4) { inconclusive("address resolution gave up"); throw EndPath(); }
		u64 start = (x & ~0xffffffffull) | OFFBASE; E in;
		if (o && o->size >= n) in = xbin(X_AND, xnot1(xult(a.e, xconst(start, 64))), xnot1(xult(xconst(start + o->size - n, 64), a.e)));
		else in = xnot1(xeq(a.e, xconst(x, 64)));
		vector<u64> m; SRes r = feasible(s, in, m); if (r != S_SAT) throw EndPath();
		addC(s, in); s.model = m;
	}
}
static E muxTree(int var, unsigned vw, const std::bitset<256> &dom, const vector<E> &leaf, unsigned bit, unsigned prefix) {
	// bit counts down; values [prefix, prefix + 2^bit)
	if (bit == 0) return dom[prefix] ? leaf[prefix] : nullptr;
	E l = muxTree(var, vw, dom, leaf, bit - 1, prefix), h = muxTree(var, vw, dom, leaf, bit - 1, prefix | 1u << (bit - 1));
	if (!l) return h; if (!h) return l; if (l == h) return l;
	return xite(xextract(xvar(var, vw), bit - 1, 1), h, l);
}
static Val loadMem(State &s, Val a, unsigned w) {
	unsigned n = (w + 7) / 8; u64 off;
	if (!a.e) {
		const char *err = nullptr; Obj *o = lookup(s, a.c, &err);
		if (!o) memErr(s, err, a.c, nullptr, n, "read");
		if (!inb(o, a.c, n, off)) memErr(s, nullptr, a.c, o, n, "read");
		return loadObj(o, off, w);
	}
	Obj *o = resolve(s, a, n, false, "read"); u64 base = (addrAny(s, a.e) & ~0xffffffffull);
	int var;
	if (small(s, a.e, var)) {
		vector<E> leaf(256); vector<u64> m(s.model);
		std::bitset<256> &dm = s.dom[var]; std::bitset<256> ok;
		for (unsigned i = 0; i < (1u << s.vw[var]); i++) if (dm[i]) {
			m[var] = i; u64 x = evalX(a.e, m.data());
			if ((x & ~0xffffffffull) == base && inb(o, x, n, off)) { leaf[i] = toE(loadObj(o, off, w), w); ok.set(i); }
		}
		E r = muxTree(var, s.vw[var], ok, leaf, s.vw[var], 0);
		return VE(r);
	}
	Lin l; linAdd(l, a.e, 1, 64);
	if (l.t.size() == 1 && l.t[0].first->hi - l.t[0].first->lo <= 300) {
		E t = l.t[0].first; E r = nullptr;
		for (u64 i = t->lo; i <= t->hi; i++) {
			u64 x = l.c + l.t[0].second * i;
			if ((x & ~0xffffffffull) != base || !inb(o, x, n, off)) continue;
			E v = toE(loadObj(o, off, w), w); r = r ? xite(xeq(t, xconst(i, 64)), v, r) : v;
		}
		return VE(r);
	}
	u64 x = concretize(s, a, "read address"); inb(o, x, n, off);
	return loadObj(o, off, w);
}
static void storeMem(State &s, Val a, unsigned w, Val v) {
	unsigned n = (w + 7) / 8; u64 off; const char *err = nullptr;
	if (a.e) {
		Obj *o = resolve(s, a, n, true, "write"); int var;
		if (optSymStore && w % 8 == 0 && small(s, a.e, var)) { // one conditional update per value of the index
			u64 base = addrAny(s, a.e) & ~0xffffffffull; o = wobj(s, base | OFFBASE, &err); if (!o) memErr(s, err, base, nullptr, n, "write");
			vector<u64> m(s.model); E nv = toE(v, w), x = xvar(var, s.vw[var]);
			for (unsigned i = 0; i < (1u << s.vw[var]); i++) if (s.dom[var][i]) {
				m[var] = i; u64 at = evalX(a.e, m.data()); if ((at & ~0xffffffffull) != base || !inb(o, at, n, off)) continue;
				E old = toE(loadObj(o, off, w), w); storeObj(o, off, w, VE(xite(xeq(x, xconst(i, s.vw[var])), nv, old)));
			}
			return;
		}
		concretize(s, a, "write address");
	}
	Obj *o = wobj(s, a.c, &err);
	if (!o) memErr(s, err, a.c, nullptr, n, "write");
	if (!inb(o, a.c, n, off)) memErr(s, nullptr, a.c, o, n, "write");
	storeObj(o, off, w, v);
}
static void memCopy(State &s, u64 dst, u64 src, u64 n) {
	if (!n) return;
	const char *err = nullptr; u64 so, doff; Obj *a = lookup(s, src, &err);
	if (!a) memErr(s, err, src, nullptr, n, "read"); if (!inb(a, src, n, so)) memErr(s, nullptr, src, a, n, "read");
	Obj *b = wobj(s, dst, &err);
	if (!b) memErr(s, err, dst, nullptr, n, "write"); if (!inb(b, dst, n, doff)) memErr(s, nullptr, dst, b, n, "write");
	a = lookup(s, src, &err);
	if (a == b) { // possible overlap: buffer
		vector<u8> d(n); vector<SymB> sy(n, SymB{nullptr, 0}); bool any = false;
		for (u64 i = 0; i < n; i++) { Page *p = a->pg[(so + i) / PS]; u32 j = (so + i) % PS; d[i] = p->d[j]; if (p->sym && p->sym[j].e) { sy[i] = p->sym[j]; any = true; } }
		for (u64 i = 0; i < n; i++) { Page *p = wpage(b, (doff + i) / PS); u32 j = (doff + i) % PS; p->d[j] = d[i]; if (any && sy[i].e) setSym(p, j, sy[i].e, sy[i].idx); else if (p->sym) clrSym(p, j); }
		return;
	}
	u64 i = 0;
	while (i < n) {
		u32 sp = (so + i) / PS, sj = (so + i) % PS, dp = (doff + i) / PS, dj = (doff + i) % PS;
		u64 k = std::min<u64>(n - i, std::min<u64>(PS - sj, PS - dj));
		Page *p = a->pg[sp];
		if (sj == 0 && dj == 0 && k == PS) { if (b->pg[dp] != p) { p->rc++; relPage(b->pg[dp]); b->pg[dp] = p; } i += k; continue; }
		if (p == b->pg[dp] && sj == dj) { i += k; continue; }
		Page *q = wpage(b, dp);
		memcpy(q->d + dj, p->d + sj, k);
		if (p->sym || q->sym) for (u64 t = 0; t < k; t++) { if (p->sym && p->sym[sj + t].e) setSym(q, dj + t, p->sym[sj + t].e, p->sym[sj + t].idx); else clrSym(q, dj + t); }
		i += k;
	}
}
static void memSet(State &s, u64 dst, Val v, u64 n) {
	if (!n) return;
	const char *err = nullptr; u64 off; Obj *b = wobj(s, dst, &err);
	if (!b) memErr(s, err, dst, nullptr, n, "write"); if (!inb(b, dst, n, off)) memErr(s, nullptr, dst, b, n, "write");
	if (v.e) { for (u64 i = 0; i < n; i++) storeObj(b, off + i, 8, v); return; }
	u64 i = 0;
	while (i < n) {
		u32 dp = (off + i) / PS, dj = (off + i) % PS; u64 k = std::min<u64>(n - i, PS - dj);
		if (k == PS && (u8)v.c == 0) { if (b->pg[dp] != zeroPage) { relPage(b->pg[dp]); b->pg[dp] = zeroPage; zeroPage->rc++; } i += k; continue; }
		Page *q = wpage(b, dp); memset(q->d + dj, (u8)v.c, k); if (q->sym) for (u64 t = 0; t < k; t++) clrSym(q, dj + t);
		i += k;
	}
}
// concrete C string; returns false when a symbolic byte is met (prefix semantics not needed)
static bool cstr(State &s, u64 addr, string &out, bool lenient = false) {
	const char *err = nullptr; u64 off; Obj *o = lookup(s, addr, &err); if (!o) { if (lenient) return false; memErr(s, err, addr, nullptr, 1, "read"); }
	off = (addr & 0xffffffff) - OFFBASE;
	for (;; off++) {
		if (off >= o->size) { if (lenient) return false; memErr(s, nullptr, OFFBASE + off, o, 1, "read"); }
		Page *p = o->pg[off / PS]; if (p->sym && p->sym[off % PS].e) return false;
		char c = p->d[off % PS]; if (!c) return true; out.push_back(c);
	}
}

// string functions of rt.c on concrete bytes, computed directly; false: run their IR
struct BytePtr { Obj *o; u64 off; bool get(u8 &c) { if (off >= o->size) return false; Page *p = o->pg[off / PS]; if (p->sym && p->sym[off % PS].e) return false; c = p->d[off % PS]; off++; return true; } };
static bool bytePtr(State &s, Val v, BytePtr &b) { if (v.e) return false; const char *er = nullptr; b.o = lookup(s, v.c, &er); if (!b.o) return false; i64 d = (i64)(v.c & 0xffffffff) - (i64)OFFBASE; if (d < 0) return false; b.off = d; return true; }
static int fastId(const string &n) { return n == "strcmp" ? 1 : n == "strlen" ? 2 : n == "strchr" ? 3 : n == "memcmp" ? 4 : n == "strncmp" ? 5 : 0; }
static bool fastCall(State &s, int k, const Val *a, size_t na, u64 &r) {
	BytePtr x, y; u8 c, d; if (na < 1 || !bytePtr(s, a[0], x)) return false;
	if (k == 2) { u64 n = 0; for (;; n++) { if (!x.get(c)) return false; if (!c) break; } r = n; return true; }
	if (k == 3) { if (na < 2 || a[1].e) return false; u8 w = (u8)a[1].c; u64 p = a[0].c; for (;; p++) { if (!x.get(c)) return false; if (c == w) { r = p; return true; } if (!c) { r = 0; return true; } } }
	if (na < 2 || !bytePtr(s, a[1], y)) return false;
	u64 n = ~0ull; if (k >= 4) { if (na < 3 || a[2].e) return false; n = a[2].c; }
	for (; n; n--) { if (!x.get(c) || !y.get(d)) return false; if (c != d) { r = (u32)(k == 4 ? (c < d ? -1 : 1) : (int)c - (int)d); return true; } if (k != 4 && !c) break; }
	r = 0; return true;
}
#include "compile.h"
#include "exec.h"
