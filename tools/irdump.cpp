// irdump: LLVM IR module -> JSON for the abstract interpreter in /verif/vsa.
// All layout questions (GEP offsets, type sizes, initialisers) are answered
// here with the module's DataLayout so that the analyser sees only byte
// offsets.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static int idOf(const Value *v)
{
	auto it = ids.find(v);
	if (it != ids.end())
		return it->second;
	int n = (int)ids.size();
	ids[v] = n;
	return n;
}

static json::Value ty(Type *t)
{
	if (t->isVoidTy())
		return "v";
	if (t->isIntegerTy())
		return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isPointerTy())
		return "p";
	if (t->isFloatTy())
		return "f32";
	if (t->isDoubleTy())
		return "f64";
	if (t->isX86_FP80Ty())
		return "f80";
	if (auto *st = dyn_cast<StructType>(t)) {
		if (st->isOpaque())
			return "opaque";
		json::Array a;
		const StructLayout *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			a.push_back(json::Array{(int64_t)sl->getElementOffset(i),
						ty(st->getElementType(i))});
		return a;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		json::Array a;
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements() && i < 64; i++)
			a.push_back(json::Array{(int64_t)(i * es),
						ty(at->getElementType())});
		return a;
	}
	std::string s;
	raw_string_ostream os(s);
	t->print(os);
	return "?" + os.str();
}

static std::string apstr(const APInt &v)
{
	SmallString<40> s;
	v.toString(s, 10, false);
	return std::string(s.str());
}

// operand encodings:
//  ["v",id]  ["i",bits,"dec"]  ["n"] null  ["u",type] undef  ["g",name,off]
//  ["f",name] function ["fp",bits,"text"] ["z",type] zeroinit ["x",text] unsupported
//  ["a",[ops...]] aggregate
static json::Value cst(const Constant *c)
{
	if (auto *ci = dyn_cast<ConstantInt>(c))
		return json::Array{"i", (int64_t)ci->getBitWidth(), apstr(ci->getValue())};
	if (isa<ConstantPointerNull>(c))
		return json::Array{"n"};
	if (isa<UndefValue>(c))
		return json::Array{"u", ty(c->getType())};
	if (auto *f = dyn_cast<Function>(c))
		return json::Array{"f", f->getName().str()};
	if (auto *g = dyn_cast<GlobalVariable>(c))
		return json::Array{"g", g->getName().str(), 0};
	if (auto *ga = dyn_cast<GlobalAlias>(c))
		return cst(ga->getAliasee());
	if (auto *fp = dyn_cast<ConstantFP>(c)) {
		bool lose;
		APFloat f = fp->getValueAPF();
		f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
		char b[64];
		snprintf(b, sizeof(b), "%.17g", f.convertToDouble());
		return json::Array{"fp", ty(c->getType()), std::string(b)};
	}
	if (isa<ConstantAggregateZero>(c))
		return json::Array{"z", ty(c->getType())};
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (auto *gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(*DL, off)) {
				json::Value b = cst(cast<Constant>(gep->getPointerOperand()));
				json::Array *a = b.getAsArray();
				if (a && (*a)[0].getAsString() && *(*a)[0].getAsString() == "g") {
					int64_t o = *(*a)[2].getAsInteger() + off.getSExtValue();
					return json::Array{"g", (*a)[1].getAsString()->str(), o};
				}
			}
		}
		if (ce->getOpcode() == Instruction::PtrToInt)
			return json::Array{"p2i", cst(ce->getOperand(0))};
		if (ce->getOpcode() == Instruction::BitCast ||
		    ce->getOpcode() == Instruction::AddrSpaceCast)
			return cst(ce->getOperand(0));
	}
	if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
		json::Array a;
		for (auto &o : ca->operands())
			a.push_back(cst(cast<Constant>(o)));
		return json::Array{"a", std::move(a)};
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	return json::Array{"x", os.str()};
}

static json::Value op(const Value *v)
{
	if (auto *c = dyn_cast<Constant>(v))
		return cst(c);
	if (isa<InlineAsm>(v))
		return json::Array{"x", "asm"};
	if (isa<MetadataAsValue>(v))
		return json::Array{"x", "md"};
	return json::Array{"v", idOf(v)};
}

// flatten an initialiser to cells: [off, size, operand] or [off,len,"bytes"hex]
static void flat(const Constant *c, uint64_t off, json::Array &out)
{
	Type *t = c->getType();
	uint64_t sz = DL->getTypeStoreSize(t);
	if (c->isNullValue()) {
		out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(t), json::Array{"zero"}});
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		if (cd->getElementType()->isIntegerTy(8)) {
			out.push_back(json::Array{(int64_t)off, (int64_t)sz,
				json::Array{"hex", toHex(cd->getRawDataValues())}});
			return;
		}
		uint64_t es = DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); i++)
			flat(cd->getElementAsConstant(i), off + i * es, out);
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			flat(ca->getOperand(i), off + i * es, out);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		auto *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			flat(cs->getOperand(i), off + sl->getElementOffset(i), out);
		return;
	}
	out.push_back(json::Array{(int64_t)off, (int64_t)sz, cst(c)});
}

static json::Value loc(const Instruction &I)
{
	const DebugLoc &d = I.getDebugLoc();
	if (!d)
		return nullptr;
	auto *sc = dyn_cast<DIScope>(d.getScope());
	std::string f = sc ? sc->getFilename().str() : "";
	return json::Array{f, (int64_t)d.getLine()};
}

int main(int argc, char **argv)
{
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) {
		err.print(argv[0], errs());
		return 2;
	}
	DL = &M->getDataLayout();
	json::Object root, globals, funcs;
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm."))
			continue;
		json::Object o;
		o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
		o["const"] = g.isConstant();
		o["tls"] = g.isThreadLocal();
		o["internal"] = g.hasLocalLinkage();
		o["decl"] = g.isDeclaration();
		SmallVector<DIGlobalVariableExpression *, 1> dv;
		g.getDebugInfo(dv);
		if (!dv.empty()) {
			o["file"] = dv[0]->getVariable()->getFilename().str();
			o["line"] = (int64_t)dv[0]->getVariable()->getLine();
			o["dname"] = dv[0]->getVariable()->getName().str();
		}
		if (g.hasInitializer()) {
			json::Array cells;
			flat(g.getInitializer(), 0, cells);
			o["init"] = std::move(cells);
		}
		globals[g.getName().str()] = std::move(o);
	}
	for (auto &F : *M) {
		if (F.isDeclaration()) {
			if (!F.isIntrinsic()) {
				json::Object o;
				o["decl"] = true;
				o["ret"] = ty(F.getReturnType());
				funcs[F.getName().str()] = std::move(o);
			}
			continue;
		}
		ids.clear();
		json::Object fo;
		json::Array args, blocks;
		for (auto &a : F.args()) {
			json::Object ao;
			ao["id"] = idOf(&a);
			ao["ty"] = ty(a.getType());
			if (a.hasByValAttr())
				ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
			args.push_back(std::move(ao));
		}
		fo["args"] = std::move(args);
		fo["ret"] = ty(F.getReturnType());
		fo["vararg"] = F.isVarArg();
		fo["internal"] = F.hasLocalLinkage();
		if (auto *sp = F.getSubprogram()) {
			fo["file"] = sp->getFilename().str();
			fo["line"] = (int64_t)sp->getLine();
			fo["dname"] = sp->getName().str();
		}
		std::map<const BasicBlock *, int> bid;
		int n = 0;
		for (auto &B : F)
			bid[&B] = n++;
		for (auto &B : F) {
			json::Array ins;
			for (auto &I : B) {
				if (isa<DbgInfoIntrinsic>(&I))
					continue;
				json::Object o;
				o["o"] = I.getOpcodeName();
				if (!I.getType()->isVoidTy()) {
					o["id"] = idOf(&I);
					o["t"] = ty(I.getType());
				}
				o["l"] = loc(I);
				if (auto *al = dyn_cast<AllocaInst>(&I)) {
					o["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
					o["n"] = op(al->getArraySize());
				} else if (auto *ld = dyn_cast<LoadInst>(&I)) {
					o["p"] = op(ld->getPointerOperand());
					o["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType());
					o["vol"] = ld->isVolatile();
					if (ld->isAtomic())
						o["at"] = true;
				} else if (auto *st = dyn_cast<StoreInst>(&I)) {
					o["p"] = op(st->getPointerOperand());
					o["v"] = op(st->getValueOperand());
					o["vt"] = ty(st->getValueOperand()->getType());
					if (st->isAtomic())
						o["at"] = true;
					o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType());
				} else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
					MapVector<Value *, APInt> var;
					APInt c(64, 0);
					if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, var, c)) {
						o["o"] = "unsupported";
					}
					o["p"] = op(g->getPointerOperand());
					o["c"] = (int64_t)c.getSExtValue();
					json::Array va;
					for (auto &kv : var)
						va.push_back(json::Array{op(kv.first), (int64_t)kv.second.getSExtValue()});
					o["x"] = std::move(va);
				} else if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
					o["a"] = op(bo->getOperand(0));
					o["b"] = op(bo->getOperand(1));
					if (auto *ob = dyn_cast<OverflowingBinaryOperator>(bo)) {
						if (ob->hasNoSignedWrap()) o["nsw"] = true;
						if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
					}
				} else if (auto *cm = dyn_cast<CmpInst>(&I)) {
					o["pr"] = CmpInst::getPredicateName(cm->getPredicate()).str();
					o["a"] = op(cm->getOperand(0));
					o["b"] = op(cm->getOperand(1));
					o["ot"] = ty(cm->getOperand(0)->getType());
				} else if (auto *ca = dyn_cast<CastInst>(&I)) {
					o["a"] = op(ca->getOperand(0));
					o["st"] = ty(ca->getSrcTy());
				} else if (auto *ph = dyn_cast<PHINode>(&I)) {
					json::Array in;
					for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
						in.push_back(json::Array{bid[ph->getIncomingBlock(i)], op(ph->getIncomingValue(i))});
					o["in"] = std::move(in);
				} else if (auto *br = dyn_cast<BranchInst>(&I)) {
					if (br->isConditional())
						o["c"] = op(br->getCondition());
					json::Array s;
					for (unsigned i = 0; i < br->getNumSuccessors(); i++)
						s.push_back(bid[br->getSuccessor(i)]);
					o["s"] = std::move(s);
				} else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
					o["c"] = op(sw->getCondition());
					o["d"] = bid[sw->getDefaultDest()];
					json::Array cs;
					for (auto &k : sw->cases())
						cs.push_back(json::Array{apstr(k.getCaseValue()->getValue()), bid[k.getCaseSuccessor()]});
					o["cs"] = std::move(cs);
				} else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
					if (rt->getReturnValue())
						o["v"] = op(rt->getReturnValue());
				} else if (auto *cb = dyn_cast<CallBase>(&I)) {
					o["o"] = "call";
					o["f"] = op(cb->getCalledOperand()->stripPointerCasts());
					json::Array as;
					for (unsigned i = 0; i < cb->arg_size(); i++) {
						json::Value av = op(cb->getArgOperand(i));
						if (cb->isByValArgument(i))
							av = json::Array{"byval", std::move(av), (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i))};
						as.push_back(std::move(av));
					}
					o["as"] = std::move(as);
					if (auto *iv = dyn_cast<InvokeInst>(cb))
						o["nd"] = bid[iv->getNormalDest()];
				} else if (auto *se = dyn_cast<SelectInst>(&I)) {
					o["c"] = op(se->getCondition());
					o["a"] = op(se->getTrueValue());
					o["b"] = op(se->getFalseValue());
				} else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
					o["a"] = op(ev->getAggregateOperand());
					json::Array ix;
					for (unsigned i : ev->indices())
						ix.push_back((int64_t)i);
					o["ix"] = std::move(ix);
				} else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
					o["a"] = op(iv->getAggregateOperand());
					o["b"] = op(iv->getInsertedValueOperand());
					json::Array ix;
					for (unsigned i : iv->indices())
						ix.push_back((int64_t)i);
					o["ix"] = std::move(ix);
				} else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
					o["k"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
					o["p"] = op(rm->getPointerOperand());
					o["b"] = op(rm->getValOperand());
					o["sz"] = (int64_t)DL->getTypeStoreSize(rm->getType());
				} else {
					json::Array as;
					for (auto &u : I.operands())
						as.push_back(isa<BasicBlock>(u) ? json::Value(nullptr) : op(u));
					o["as"] = std::move(as);
				}
				ins.push_back(std::move(o));
			}
			blocks.push_back(std::move(ins));
		}
		fo["blocks"] = std::move(blocks);
		funcs[F.getName().str()] = std::move(fo);
	}
	root["globals"] = std::move(globals);
	root["funcs"] = std::move(funcs);
	outs() << json::Value(std::move(root)) << "\n";
	return 0;
}
