// LLVM IR -> internal code
using namespace llvm;
static u32 lineId(const Instruction *I) {
	string s = "?";
	if (const DebugLoc &dl = I->getDebugLoc()) {
		const DILocation *d = dl.get(); s = d->getFilename().str(); size_t p = s.rfind('/'); if (p != string::npos) s = s.substr(p + 1);
		s += ":" + std::to_string(d->getLine());
	}
	auto it = lineIdx.find(s); if (it != lineIdx.end()) return it->second;
	lineTab.push_back(s); return lineIdx[s] = lineTab.size() - 1;
}
[[noreturn]] static void unsupportedI(const string &what, const llvm::Value *v) {
	string s; raw_string_ostream os(s); if (v) v->print(os); fprintf(stderr, "kse: unsupported: %s: %s\n", what.c_str(), os.str().c_str()); _exit(3);
}
static unsigned nfields(Type *t) {
	if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : st->elements()) n += nfields(e); return n; }
	if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nfields(at->getElementType());
	if (t->isVoidTy()) return 0;
	return 1;
}
static unsigned fieldIndex(Type *t, ArrayRef<unsigned> idx) {
	unsigned r = 0;
	for (unsigned i : idx) {
		if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nfields(st->getElementType(k)); t = st->getElementType(i); }
		else { auto *at = cast<ArrayType>(t); r += i * nfields(at->getElementType()); t = at->getElementType(); }
	}
	return r;
}
static unsigned widthOf(Type *t) {
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) { fprintf(stderr, "kse: integer wider than 64 bits\n"); _exit(3); } return w; }
	if (t->isPointerTy()) return 64;
	if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
	fprintf(stderr, "kse: unsupported type\n"); t->dump(); _exit(3);
}
static void flatTypes(Type *t, u64 off, vector<std::pair<Type *, u64>> &out) {
	if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatTypes(st->getElementType(i), off + sl->getElementOffset(i), out); }
	else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatTypes(at->getElementType(), off + i * es, out); }
	else out.push_back({t, off});
}
static int funcId(const Function *f) { auto it = fidx.find(f); if (it == fidx.end()) { fprintf(stderr, "kse: unknown function\n"); _exit(3); } return it->second; }
static u64 constVal(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) unsupportedI("wide constant", c); return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto *f = dyn_cast<Function>(c)) return FNBASE | (u64)funcId(f) << 4;
	if (auto *g = dyn_cast<GlobalVariable>(c)) return gaddr.at(g);
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		unsigned w = widthOf(ce->getType()); u64 m = mask(w);
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			u64 a = constVal(ce->getOperand(0)); APInt off(64, 0); 
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupportedI("constexpr gep", c);
			return a + off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return constVal(ce->getOperand(0)) & m;
		case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & m;
		case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & m;
		default: unsupportedI("constant expression", c);
		}
	}
	unsupportedI("constant", c);
}
static void initBytes(Obj *o, u64 off, const Constant *c) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) { Page *p = wpage(o, (off + i) / PS); p->d[(off + i) % PS] = r[i]; } return; }
	if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i)); return; }
	if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
	storeObj(o, off, DL->getTypeStoreSize(t) * 8, VC(constVal(c)));
}
enum { B_NONE = -1, B_SYM = 0, B_CHOOSE, B_ASSUME, B_CHECK, B_COVER, B_CONC, B_END, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET,
	B_VASTART, B_VACOPY, B_NOP, B_TRAP, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_FSHL, B_FSHR, B_USUBSAT, B_UADDSAT,
	B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_ASSERTFAIL, B_ABORT, B_EXIT, B_RET0, B_STACKSAVE, B_OBJSIZE, B_LLVMASSUME, B_DUMP, B_EXPECT, B_SCMP, B_STRLEN, B_STRCMP, B_TIER, B_NATIVE, B_ISSYM, B_NOTE, B_OBS, B_LIFESTART, B_LIFEEND, B_STRCPY, B_OBJSZ, B_SAME };
static std::map<string, int> bnames = {
	{"kse_sym", B_SYM}, {"kse_choose", B_CHOOSE}, {"kse_assume", B_ASSUME}, {"kse_check", B_CHECK}, {"kse_cover", B_COVER}, {"kse_concretize", B_CONC}, {"kse_end", B_END}, {"kse_dump", B_DUMP}, {"kse_tier", B_TIER}, {"kse_note", B_NOTE}, {"kse_obs", B_OBS}, {"kse_same", B_SAME},
	{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
	{"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
};
static int intrinsicId(const string &n) {
	static const std::vector<std::pair<string, int>> t = {
		{"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMCPY}, {"llvm.memset", B_MEMSET}, {"llvm.va_start", B_VASTART}, {"llvm.va_copy", B_VACOPY}, {"llvm.va_end", B_NOP},
		{"llvm.lifetime.start", B_LIFESTART}, {"llvm.lifetime.end", B_LIFEEND}, {"llvm.dbg", B_NOP}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.umin", B_UMIN}, {"llvm.umax", B_UMAX}, {"llvm.smin", B_SMIN}, {"llvm.smax", B_SMAX},
		{"llvm.abs", B_ABS}, {"llvm.bswap", B_BSWAP}, {"llvm.ctpop", B_CTPOP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR},
		{"llvm.usub.sat", B_USUBSAT}, {"llvm.uadd.sat", B_UADDSAT}, {"llvm.uadd.with", B_UADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.smul.with", B_SMULO},
		{"llvm.stacksave", B_STACKSAVE}, {"llvm.stackrestore", B_NOP}, {"llvm.assume", B_NOP}, {"llvm.expect", B_EXPECT}, {"llvm.objectsize", B_OBJSIZE}, {"llvm.experimental.noalias", B_NOP}, {"llvm.prefetch", B_NOP}};
	for (auto &p : t) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
	return B_NONE;
}

struct Compiler {
	Func *F; std::unordered_map<const llvm::Value *, i32> reg; std::unordered_map<const BasicBlock *, u32> bstart;
	std::unordered_map<u64, i32> cidx;
	i32 konst(u64 v) { auto it = cidx.find(v); if (it != cidx.end()) return it->second; F->consts.push_back(VC(v)); i32 r = ~(i32)(F->consts.size() - 1); cidx[v] = r; return r; }
	i32 op(const llvm::Value *v, unsigned field = 0) {
		if (auto *c = dyn_cast<Constant>(v)) {
			if (c->getType()->isAggregateType()) {
				vector<const Constant *> fl; flatC(c, fl); return konst(constVal(fl[field]) & mask(widthOf(fl[field]->getType())));
			}
			return konst(constVal(c) & mask(widthOf(c->getType())));
		}
		auto it = reg.find(v); if (it == reg.end()) unsupportedI("operand", v);
		return it->second + field;
	}
	void flatC(const Constant *c, vector<const Constant *> &o) {
		Type *t = c->getType();
		if (!t->isAggregateType()) { o.push_back(c); return; }
		unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
		for (unsigned i = 0; i < n; i++) flatC(c->getAggregateElement(i), o);
	}
	u32 edge(const BasicBlock *from, const BasicBlock *to) {
		Edge e; e.target = 0;
		for (const PHINode &p : to->phis()) {
			const llvm::Value *v = p.getIncomingValueForBlock(from); unsigned nf = nfields(p.getType());
			for (unsigned k = 0; k < nf; k++) e.mv.push_back({reg[&p] + (i32)k, op(v, k)});
		}
		F->edges.push_back(e); fix.push_back({(u32)F->edges.size() - 1, to});
		return F->edges.size() - 1;
	}
	vector<std::pair<u32, const BasicBlock *>> fix;
	void emit(Ins i) { F->code.push_back(i); }
	u32 gep(const GEPOperator *g, u64 &coff) {
		MapVector<llvm::Value *, APInt> vo; APInt off(64, 0);
		if (!g->collectOffset(*DL, 64, vo, off)) unsupportedI("gep", g);
		coff = off.getSExtValue(); vector<GepTerm> t;
		for (auto &p : vo) t.push_back({op(p.first), (u8)widthOf(p.first->getType()), (u64)p.second.getSExtValue()});
		F->geps.push_back(t); return F->geps.size() - 1;
	}
	void run(Func *f) {
		F = f; const Function &fn = *f->lf; u32 nr = 0;
		for (auto &a : fn.args()) { reg[&a] = nr; f->argRegs.push_back(nr); nr += nfields(a.getType()); }
		f->vararg = fn.isVarArg(); if (f->vararg) f->vareg = nr++;
		for (auto &bb : fn) for (auto &I : bb) { unsigned n = nfields(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
		f->nregs = nr;
		for (auto &bb : fn) {
			bstart[&bb] = f->code.size();
			for (auto &I : bb) {
				Ins x; memset(&x, 0, sizeof x); x.line = lineId(&I); x.dst = reg.count(&I) ? reg[&I] : -1;
				if (auto *b = dyn_cast<BinaryOperator>(&I)) {
					x.w = widthOf(b->getType()); x.a = op(b->getOperand(0)); x.b = op(b->getOperand(1));
					switch (b->getOpcode()) {
					case Instruction::Add: x.op = I_ADD; break; case Instruction::Sub: x.op = I_SUB; break; case Instruction::Mul: x.op = I_MUL; break;
					case Instruction::UDiv: x.op = I_UDIV; break; case Instruction::SDiv: x.op = I_SDIV; break; case Instruction::URem: x.op = I_UREM; break; case Instruction::SRem: x.op = I_SREM; break;
					case Instruction::And: x.op = I_AND; break; case Instruction::Or: x.op = I_OR; break; case Instruction::Xor: x.op = I_XOR; break;
					case Instruction::Shl: x.op = I_SHL; break; case Instruction::LShr: x.op = I_LSHR; break; case Instruction::AShr: x.op = I_ASHR; break;
					default: x.op = I_FBIN; x.x = b->getOpcode(); x.w2 = b->getType()->isFloatTy(); break;
					}
					emit(x);
				} else if (auto *c = dyn_cast<ICmpInst>(&I)) {
					x.w = widthOf(c->getOperand(0)->getType()); x.a = op(c->getOperand(0)); x.b = op(c->getOperand(1));
					switch (c->getPredicate()) {
					case CmpInst::ICMP_EQ: x.op = I_EQ; break; case CmpInst::ICMP_NE: x.op = I_NE; break;
					case CmpInst::ICMP_ULT: x.op = I_ULT; break; case CmpInst::ICMP_ULE: x.op = I_ULE; break; case CmpInst::ICMP_UGT: x.op = I_UGT; break; case CmpInst::ICMP_UGE: x.op = I_UGE; break;
					case CmpInst::ICMP_SLT: x.op = I_SLT; break; case CmpInst::ICMP_SLE: x.op = I_SLE; break; case CmpInst::ICMP_SGT: x.op = I_SGT; break; default: x.op = I_SGE; break;
					}
					emit(x);
				} else if (auto *c = dyn_cast<FCmpInst>(&I)) {
					x.op = I_FCMP; x.a = op(c->getOperand(0)); x.b = op(c->getOperand(1)); x.x = c->getPredicate(); x.w2 = c->getOperand(0)->getType()->isFloatTy(); emit(x);
				} else if (auto *l = dyn_cast<LoadInst>(&I)) {
					vector<std::pair<Type *, u64>> ft; flatTypes(l->getType(), 0, ft); i32 d = x.dst;
					for (auto &p : ft) { x.op = I_LOAD; x.dst = d++; x.a = op(l->getPointerOperand()); x.w = widthOf(p.first); x.x = p.second; emit(x); }
				} else if (auto *st = dyn_cast<StoreInst>(&I)) {
					vector<std::pair<Type *, u64>> ft; flatTypes(st->getValueOperand()->getType(), 0, ft); unsigned k = 0;
					for (auto &p : ft) { x.op = I_STORE; x.a = op(st->getPointerOperand()); x.b = op(st->getValueOperand(), k++); x.w = widthOf(p.first); x.x = p.second; emit(x); }
				} else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
					u64 off; x.op = I_GEP; x.x = gep(cast<GEPOperator>(g), off); x.a = op(g->getPointerOperand()); x.b = konst(off); emit(x);
				} else if (auto *s = dyn_cast<SelectInst>(&I)) {
					unsigned nf = nfields(s->getType()); vector<std::pair<Type *, u64>> ft; flatTypes(s->getType(), 0, ft); i32 d = x.dst;
					for (unsigned k = 0; k < nf; k++) { x.op = I_SEL; x.dst = d + k; x.a = op(s->getCondition()); x.b = op(s->getTrueValue(), k); x.c = op(s->getFalseValue(), k); x.w = widthOf(ft[k].first); emit(x); }
				} else if (auto *b = dyn_cast<BranchInst>(&I)) {
					if (b->isConditional()) { x.op = I_CBR; x.a = op(b->getCondition()); x.b = edge(&bb, b->getSuccessor(0)); x.c = edge(&bb, b->getSuccessor(1)); }
					else { x.op = I_BR; x.b = edge(&bb, b->getSuccessor(0)); }
					emit(x);
				} else if (auto *s = dyn_cast<SwitchInst>(&I)) {
					SwitchT t; std::map<const BasicBlock *, u32> ed; x.w = widthOf(s->getCondition()->getType());
					auto E_ = [&](const BasicBlock *to) { auto it = ed.find(to); if (it != ed.end()) return it->second; return ed[to] = edge(&bb, to); };
					t.def = E_(s->getDefaultDest());
					for (auto &c : s->cases()) t.cases.push_back({c.getCaseValue()->getZExtValue(), E_(c.getCaseSuccessor())});
					std::sort(t.cases.begin(), t.cases.end());
					x.op = I_SWITCH; x.a = op(s->getCondition()); F->sws.push_back(t); x.x = F->sws.size() - 1; emit(x);
				} else if (auto *r = dyn_cast<ReturnInst>(&I)) {
					x.op = I_RET; vector<i32> v; if (r->getReturnValue()) { unsigned nf = nfields(r->getReturnValue()->getType()); for (unsigned k = 0; k < nf; k++) v.push_back(op(r->getReturnValue(), k)); }
					F->lists.push_back(v); x.x = F->lists.size() - 1; emit(x);
				} else if (isa<UnreachableInst>(&I)) { x.op = I_UNREACH; emit(x); }
				else if (auto *a = dyn_cast<AllocaInst>(&I)) {
					x.op = I_ALLOCA; x.a = op(a->getArraySize()); x.x = DL->getTypeAllocSize(a->getAllocatedType()); x.b = nameId(a->getName().str()); emit(x);
				} else if (auto *ci = dyn_cast<CastInst>(&I)) {
					x.a = op(ci->getOperand(0));
					switch (ci->getOpcode()) {
					case Instruction::ZExt: x.op = I_ZEXT; break; case Instruction::SExt: x.op = I_SEXT; break; case Instruction::Trunc: x.op = I_TRUNC; break;
					case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = I_MOV; break;
					default: x.op = I_FCAST; x.x = ci->getOpcode(); x.fl = ci->getOperand(0)->getType()->isFloatTy() | (ci->getType()->isFloatTy() << 1); break;
					}
					x.w = widthOf(ci->getType()); x.w2 = widthOf(ci->getOperand(0)->getType());
					if (x.op == I_MOV && x.w < x.w2) x.op = I_TRUNC; else if (x.op == I_MOV && x.w > x.w2) x.op = I_ZEXT;
					emit(x);
				} else if (isa<PHINode>(&I)) {}
				else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
					unsigned o = fieldIndex(ev->getAggregateOperand()->getType(), ev->getIndices()), n = nfields(ev->getType());
					for (unsigned k = 0; k < n; k++) { Ins y = x; y.op = I_MOV; y.dst = x.dst + k; y.a = op(ev->getAggregateOperand(), o + k); emit(y); }
				} else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
					unsigned tot = nfields(iv->getType()), o = fieldIndex(iv->getType(), iv->getIndices()), n = nfields(iv->getInsertedValueOperand()->getType());
					for (unsigned k = 0; k < tot; k++) { Ins y = x; y.op = I_MOV; y.dst = x.dst + k; y.a = (k >= o && k < o + n) ? op(iv->getInsertedValueOperand(), k - o) : op(iv->getAggregateOperand(), k); emit(y); }
				} else if (auto *fr = dyn_cast<FreezeInst>(&I)) { unsigned n = nfields(fr->getType()); for (unsigned k = 0; k < n; k++) { Ins y = x; y.op = I_MOV; y.dst = x.dst + k; y.a = op(fr->getOperand(0), k); emit(y); } }
				else if (auto *un = dyn_cast<UnaryOperator>(&I)) { x.op = I_FNEG; x.a = op(un->getOperand(0)); x.w2 = un->getType()->isFloatTy(); emit(x); }
				else if (auto *cb = dyn_cast<CallInst>(&I)) {
					CallT t; t.fn = -1; t.builtin = B_NONE; t.calleeOp = 0; t.isVoid = I.getType()->isVoidTy();
					if (cb->isInlineAsm()) { // compiler barriers only
						if (!cb->getType()->isVoidTy()) unsupportedI("inline asm", &I); continue; }
					const Function *callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
					if (callee) {
						string n = callee->getName().str();
						if (callee->isIntrinsic()) { t.builtin = intrinsicId(n); if (t.builtin == B_NONE) unsupportedI("intrinsic", &I); if (t.builtin == B_NOP) continue; }
						else { t.fn = funcId(callee); t.builtin = funcs[t.fn]->builtin; }
					} else t.calleeOp = op(cb->getCalledOperand());
					t.nfixed = cb->getFunctionType()->getNumParams();
					for (unsigned i = 0; i < cb->arg_size(); i++) {
						const llvm::Value *v = cb->getArgOperand(i);
						if (v->getType()->isMetadataTy()) continue;
						unsigned nf = nfields(v->getType()); vector<std::pair<Type *, u64>> ft; flatTypes(v->getType(), 0, ft);
						for (unsigned k = 0; k < nf; k++) { t.args.push_back(op(v, k)); t.aw.push_back(widthOf(ft[k].first)); t.byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); }
					}
					x.op = I_CALL; x.w = I.getType()->isVoidTy() || I.getType()->isAggregateType() ? 0 : widthOf(I.getType());
					F->calls.push_back(t); x.x = F->calls.size() - 1; emit(x);
				} else unsupportedI("instruction", &I);
			}
		}
		for (auto &p : fix) f->edges[p.first].target = bstart[p.second];
		f->compiled = true;
	}
};

static void loadModule(const char *path, const std::set<string> &rtFiles, State &s) {
	static LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(path, err, ctx);
	if (!m) { err.print("kse", errs()); _exit(3); }
	M = m.release(); DL = new DataLayout(M);
	lineTab.push_back("?"); lineIdx["?"] = 0;
	for (auto &f : *M) {
		Func *x = new Func(); x->lf = &f; x->name = f.getName().str(); x->declared = f.isDeclaration();
		auto b = bnames.find(x->name); if (b != bnames.end() && (f.isDeclaration())) x->builtin = b->second;
		if (f.isDeclaration() && f.isIntrinsic()) { x->builtin = intrinsicId(x->name); }
		if (auto *sp = f.getSubprogram()) { string fn = sp->getFilename().str(); x->realSrc = fn.find("/src/") != string::npos && fn.find("/verif/") == string::npos; }
		if (!x->realSrc && !x->declared) x->fast = fastId(x->name);
		fidx[&f] = funcs.size(); fname[x->name] = funcs.size(); funcs.push_back(x);
	}
	roms.push_back(newObj(1, true, "null", K_GLOBAL)); // slot 0 unused
	vector<std::pair<GlobalVariable *, Obj *>> gl;
	for (auto &g : M->globals()) {
		if (!g.getValueType()->isSized()) { continue; }
		u64 sz = DL->getTypeAllocSize(g.getValueType()); string *nm = new string(g.getName().str());
		Obj *o = newObj(sz, true, nm->c_str(), K_GLOBAL);
		if (g.isConstant()) { o->ro = 1; roms.push_back(o); gaddr[&g] = ROMBIT | (u64)(roms.size() - 1) << 32 | OFFBASE; }
		else { s.objs.push_back({o, 0}); gaddr[&g] = (u64)s.objs.size() << 32 | OFFBASE; }
		gl.push_back({&g, o});
	}
	for (auto &p : gl) if (p.first->hasInitializer()) initBytes(p.second, 0, p.first->getInitializer());
}
