// irx: normalise one LLVM bitcode module and dump it as JSON for the static rules.
//
// usage: irx IN.bc OUT.json [--keep REGEX]... [--limit N]
//
// Normalisation: every function of the module whose mangled name matches no --keep pattern and
// which is small enough or has only one caller is inlined into its callers, then the usual scalar
// clean-up passes run. The rules therefore see the same code whether or not a helper was
// extracted, a local was introduced, or a loop was spelled with for/while.
#include <llvm/Support/CommandLine.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LoopPeel.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace llvm;

static const DataLayout* DL;

static json::Value tyStr(Type* t)
{
	std::string s;
	raw_string_ostream os(s);
	if (auto st = dyn_cast<StructType>(t))
		if (st->hasName())
			return std::string(("%" + st->getName()).str());
	t->print(os);
	return os.str();
}

static std::string fixed(StringRef s)
{
	return json::fixUTF8(s);
}

static json::Value constBytes(const Constant* c);

static json::Value constBytes(const Constant* c)
{
	// Structural dump of initialisers.
	if (auto ci = dyn_cast<ConstantInt>(c))
	{
		if (ci->getBitWidth() <= 64)
			return json::Object{{"k", "i"}, {"v", (int64_t)ci->getZExtValue()},
				{"w", (int64_t)ci->getBitWidth()}};
		return json::Object{{"k", "x"}};
	}
	if (auto cf = dyn_cast<ConstantFP>(c))
	{
		double d = cf->getType()->isFloatTy() ? (double)cf->getValueAPF().convertToFloat() :
			cf->getType()->isDoubleTy() ? cf->getValueAPF().convertToDouble() : 0.0;
		json::Object o{{"k", "f"}, {"t", tyStr(cf->getType())}};
		std::string s;
		raw_string_ostream os(s);
		os << format("%.17g", d);
		o["v"] = os.str();
		return o;
	}
	if (isa<ConstantPointerNull>(c))
		return json::Object{{"k", "null"}};
	if (auto ca = dyn_cast<ConstantDataSequential>(c))
	{
		json::Array a;
		for (unsigned i = 0; i < ca->getNumElements(); ++i)
			a.push_back(constBytes(ca->getElementAsConstant(i)));
		return json::Object{{"k", "agg"}, {"e", std::move(a)},
			{"sz", (int64_t)DL->getTypeAllocSize(ca->getElementType())}, {"seq", true}};
	}
	if (auto ca = dyn_cast<ConstantAggregate>(c))
	{
		json::Array a, offs;
		for (unsigned i = 0; i < ca->getNumOperands(); ++i)
			a.push_back(constBytes(ca->getOperand(i)));
		json::Object o{{"k", "agg"}, {"e", std::move(a)}};
		if (auto st = dyn_cast<StructType>(ca->getType()))
		{
			auto sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i)
				offs.push_back((int64_t)(uint64_t)sl->getElementOffset(i));
			o["off"] = std::move(offs);
		}
		else
		{
			o["seq"] = true;
			o["sz"] = (int64_t)DL->getTypeAllocSize(
				isa<ArrayType>(ca->getType()) ? cast<ArrayType>(ca->getType())->getElementType() :
				cast<VectorType>(ca->getType())->getElementType());
		}
		return o;
	}
	if (isa<ConstantAggregateZero>(c))
		return json::Object{{"k", "zero"}, {"size", (int64_t)DL->getTypeAllocSize(c->getType())}};
	if (isa<UndefValue>(c))
		return json::Object{{"k", "undef"}};
	if (auto f = dyn_cast<GlobalValue>(c))
		return json::Object{{"k", "g"}, {"n", fixed(f->getName())}};
	if (auto ce = dyn_cast<ConstantExpr>(c))
	{
		if (ce->getOpcode() == Instruction::GetElementPtr)
		{
			APInt off(64, 0);
			const Value* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto g = dyn_cast<GlobalValue>(base))
				return json::Object{{"k", "g"}, {"n", fixed(g->getName())},
					{"o", (int64_t)off.getSExtValue()}};
		}
		json::Array a;
		for (auto& op : ce->operands())
			a.push_back(constBytes(cast<Constant>(op)));
		return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"e", std::move(a)}};
	}
	return json::Object{{"k", "x"}};
}

struct Numbering
{
	std::map<const Value*, int> ids;
	std::map<const BasicBlock*, int> blocks;
};

static json::Value operand(const Value* v, Numbering& n)
{
	if (auto a = dyn_cast<Argument>(v))
		return json::Object{{"k", "a"}, {"n", (int64_t)a->getArgNo()}};
	if (isa<Instruction>(v))
		return json::Object{{"k", "t"}, {"n", n.ids[v]}};
	if (auto c = dyn_cast<Constant>(v))
		return constBytes(c);
	if (auto b = dyn_cast<BasicBlock>(v))
		return json::Object{{"k", "b"}, {"n", n.blocks[b]}};
	return json::Object{{"k", "x"}};
}

static json::Value locOf(const Instruction& I)
{
	json::Array a;
	const DILocation* l = I.getDebugLoc().get();
	while (l)
	{
		auto sp = l->getScope()->getSubprogram();
		a.push_back(json::Array{fixed(l->getFilename()), (int64_t)l->getLine(),
			sp ? fixed(sp->getName()) : ""});
		l = l->getInlinedAt();
	}
	return a;
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 2;
	std::vector<std::unique_ptr<Regex>> keep;
	unsigned limit = 400, stdLimit = 60;
	std::string unroll, peel;
	unsigned peelCount = 0;
	for (int i = 3; i < argc; ++i)
	{
		if (!strcmp(argv[i], "--keep"))
			keep.emplace_back(new Regex(argv[++i]));
		else if (!strcmp(argv[i], "--limit"))
			limit = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--std-limit"))
			stdLimit = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--unroll"))
			unroll = argv[++i];
		else if (!strcmp(argv[i], "--peel"))
		{
			peelCount = atoi(argv[++i]);
			peel = argv[++i];
		}
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M)
	{
		err.print("irx", errs());
		return 2;
	}
	DL = &M->getDataLayout();

	for (auto& F : *M)
	{
		if (F.isDeclaration())
			continue;
		F.removeFnAttr(Attribute::OptimizeNone);
		F.removeFnAttr(Attribute::NoInline);
		F.removeFnAttr(Attribute::AlwaysInline);
		F.removeFnAttr("target-features");
		F.removeFnAttr("target-cpu");
	}
	// Calls through an alias (complete-object constructors) are calls of the function itself.
	for (auto& GA : M->aliases())
		if (auto* F = dyn_cast<Function>(GA.getAliasee()))
			GA.replaceAllUsesWith(F);
	// Patterns match the demangled name; an entity local to a function is not that function.
	auto ownName = [](const std::string& dem) {
		const std::string anon = "(anonymous namespace)";
		size_t start = 0;
		int depth = 0, parens = 0;
		for (size_t i = 0; i < dem.size(); ++i)
		{
			if (dem.compare(i, anon.size(), anon) == 0)
				i += anon.size() - 1;
			else if (dem[i] == '<')
				++depth;
			else if (dem[i] == '>' && depth > 0)
				--depth;
			else if (dem[i] == '(')
				++parens;
			else if (dem[i] == ')' && --parens == 0 && depth == 0)
			{
				if (dem.compare(i, 3, ")::") == 0)
					start = i + 3;
				else if (dem.compare(i, 9, ") const::") == 0)
					start = i + 9;
			}
		}
		return dem.substr(start);
	};
	std::map<std::string, bool> keptCache;
	auto kept = [&](Function& F) {
		auto it = keptCache.find(F.getName().str());
		if (it != keptCache.end())
			return it->second;
		bool res = false;
		std::string dem = ownName(demangle(F.getName().str()));
		for (auto& r : keep)
			if (r->match(dem))
				res = true;
		return keptCache[F.getName().str()] = res;
	};
	auto isStd = [](Function& F) {
		StringRef n = F.getName();
		return n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt") ||
			n.starts_with("_ZN9__gnu_cxx") || n.starts_with("_ZNK9__gnu_cxx");
	};

	PassBuilder PB;
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	auto run = [&](const char* p) {
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, p))
		{
			errs() << "irx: " << toString(std::move(e)) << "\n";
			exit(2);
		}
		MPM.run(*M, MAM);
		MAM.clear();
		FAM.clear();
	};
	run("function(sroa,early-cse,simplifycfg)");
	// Two rounds: the small leaves first, then what has become inlinable.
	for (int round = 0; round < 3; ++round)
	{
		// Functions that take part in recursion are never inlined.
		std::set<Function*> recursive;
		{
			CallGraph CG(*M);
			for (auto& F : *M)
			{
				std::set<Function*> seen;
				std::vector<Function*> work{&F};
				while (!work.empty())
				{
					Function* f = work.back();
					work.pop_back();
					for (auto& I : instructions(*f))
						if (auto cb = dyn_cast<CallBase>(&I))
							if (auto c = cb->getCalledFunction())
								if (!c->isDeclaration() && seen.insert(c).second)
									work.push_back(c);
				}
				if (seen.count(&F))
					recursive.insert(&F);
			}
		}
		for (auto& F : *M)
		{
			F.removeFnAttr(Attribute::AlwaysInline);
			F.removeFnAttr(Attribute::NoInline);
			if (F.isDeclaration())
				continue;
			unsigned uses = 0;
			for (auto u : F.users())
				if (isa<CallBase>(u))
					++uses;
			bool single = uses == 1 && F.hasLocalLinkage();
			if (kept(F) || recursive.count(&F) ||
				(!single && F.getInstructionCount() > (isStd(F) ? stdLimit : limit)))
				F.addFnAttr(Attribute::NoInline);
			else
				F.addFnAttr(Attribute::AlwaysInline);
		}
		run("always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,"
			"simplifycfg),globaldce");
	}
	run("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
		"gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,"
		"simplifycfg,loop-simplify)");

	if (!unroll.empty())
	{
		const char* uargs[] = {"irx", "-unroll-threshold=6000", "-unroll-full-max-count=64"};
		cl::ParseCommandLineOptions(3, uargs);
		for (auto& F : *M)
			for (auto& B : F)
				if (B.getTerminator())
					B.getTerminator()->setMetadata("llvm.loop", nullptr);
		// Loops with a small constant trip count (over channels, for example) are unrolled.
		std::string p = "function(loop-simplify,lcssa,loop-unroll<full-unroll-max=" + std::to_string(atoi(unroll.c_str()) * 2) +
			";no-partial;no-runtime;no-peeling;no-upperbound>,"
			"sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,gvn<no-pre;no-load-pre>,dse,adce,simplifycfg,"
			"instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)";
		run(p.c_str());
	}
	if (peelCount)
	{
		// The first iterations of the outermost loops become straight code.
		run("function(loop-simplify,lcssa)");
		Regex re(peel);
		for (auto& F : *M)
		{
			if (F.isDeclaration() || !re.match(demangle(F.getName().str())))
				continue;
			auto& LI = FAM.getResult<LoopAnalysis>(F);
			auto& DT = FAM.getResult<DominatorTreeAnalysis>(F);
			auto& AC = FAM.getResult<AssumptionAnalysis>(F);
			auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
			std::vector<Loop*> tops(LI.begin(), LI.end());
			for (auto L : tops)
			{
				if (!canPeel(L))
					continue;
				ValueToValueMapTy vmap;
				peelLoop(L, peelCount, &LI, &SE, DT, &AC, true, vmap);
			}
			FAM.invalidate(F, PreservedAnalyses::none());
		}
		run("function(loop-simplify)");
	}
	json::Object root;
	// Debug-info types: enumerators and member offsets, by qualified name.
	{
		DebugInfoFinder dif;
		dif.processModule(*M);
		json::Object enums, members;
		for (auto T : dif.types())
		{
			auto ct = dyn_cast<DICompositeType>(T);
			if (!ct || ct->getName().empty())
				continue;
			std::string q = ct->getName().str();
			for (DIScope* s = ct->getScope(); s; s = s->getScope())
			{
				if (isa<DIFile>(s) || isa<DICompileUnit>(s))
					break;
				if (isa<DINamespace>(s) || isa<DICompositeType>(s))
					q = (s->getName().empty() ? std::string("(anon)") : s->getName().str()) + "::" + q;
				else if (auto sp = dyn_cast<DISubprogram>(s))
					q = sp->getName().str() + "()::" + q;
			}
			if (ct->getTag() == dwarf::DW_TAG_enumeration_type)
			{
				json::Object e;
				for (auto el : ct->getElements())
					if (auto en = dyn_cast<DIEnumerator>(el))
						e[fixed(en->getName())] = (int64_t)en->getValue().getSExtValue();
				enums[fixed(q)] = std::move(e);
			}
			else if (ct->getTag() == dwarf::DW_TAG_structure_type ||
				ct->getTag() == dwarf::DW_TAG_class_type)
			{
				json::Array ms;
				for (auto el : ct->getElements())
					if (auto dt = dyn_cast<DIDerivedType>(el))
					{
						if (dt->getTag() == dwarf::DW_TAG_member && !dt->isStaticMember())
						{
							std::string tn;
							int64_t sz = dt->getSizeInBits();
							if (auto bt = dt->getBaseType())
							{
								tn = bt->getName().str();
								if (!sz) sz = bt->getSizeInBits();
							}
							ms.push_back(json::Array{fixed(dt->getName()),
								(int64_t)(dt->getOffsetInBits()/8), fixed(tn), sz/8});
						}
						else if (dt->getTag() == dwarf::DW_TAG_inheritance)
						{
							ms.push_back(json::Array{"<base>", (int64_t)(dt->getOffsetInBits()/8),
								fixed(dt->getBaseType() ? dt->getBaseType()->getName() : ""), 0});
						}
					}
				if (!ms.empty())
					members[fixed(q)] = std::move(ms);
			}
		}
		root["enums"] = std::move(enums);
		root["members"] = std::move(members);
	}
	json::Object globals;
	for (auto& G : M->globals())
	{
		json::Object o{{"const", G.isConstant()}, {"ty", tyStr(G.getValueType())},
			{"tls", G.isThreadLocal()}, {"local", G.hasLocalLinkage()},
			{"decl", G.isDeclaration()}};
		SmallVector<DIGlobalVariableExpression*, 1> dg;
		G.getDebugInfo(dg);
		if (!dg.empty())
		{
			o["file"] = fixed(dg[0]->getVariable()->getFilename());
			o["line"] = (int64_t)dg[0]->getVariable()->getLine();
			o["src"] = fixed(dg[0]->getVariable()->getName());
		}
		if (G.hasInitializer() && DL->getTypeAllocSize(G.getValueType()) < 65536)
		{
			if (auto cd = dyn_cast<ConstantDataArray>(G.getInitializer()); cd && cd->isString())
				o["str"] = fixed(cd->isCString() ? cd->getAsCString() : cd->getAsString());
			o["init"] = constBytes(G.getInitializer());
		}
		globals[fixed(G.getName())] = std::move(o);
	}
	root["globals"] = std::move(globals);

	json::Object funcs;
	for (auto& F : *M)
	{
		json::Object fo;
		fo["dem"] = fixed(demangle(F.getName().str()));
		fo["decl"] = F.isDeclaration();
		fo["linkage"] = F.hasLocalLinkage() ? "local" : F.isDiscardableIfUnused() ? "odr" : "ext";
		fo["ret"] = tyStr(F.getReturnType());
		fo["sret"] = F.hasStructRetAttr();
		if (auto sp = F.getSubprogram())
		{
			fo["file"] = fixed(sp->getFilename());
			fo["line"] = (int64_t)sp->getLine();
			fo["name"] = fixed(sp->getName());
			// names of the parameters, in order
			std::map<unsigned, std::string> names;
			for (auto node : sp->getRetainedNodes())
			{
				auto v = dyn_cast<DILocalVariable>(node);
				if (v && v->getArg())
					names[v->getArg()] = v->getName().str();
			}
			json::Array params;
			for (auto& p : names)
				params.push_back(fixed(p.second));
			fo["params"] = std::move(params);
		}
		json::Array args;
		for (auto& A : F.args())
			args.push_back(tyStr(A.getType()));
		fo["args"] = std::move(args);
		fo["readonly"] = F.onlyReadsMemory();
		if (F.isDeclaration())
		{
			funcs[fixed(F.getName())] = std::move(fo);
			continue;
		}
		Numbering n;
		int id = 0, bid = 0;
		for (auto& B : F)
		{
			n.blocks[&B] = bid++;
			for (auto& I : B)
				n.ids[&I] = id++;
		}
		DominatorTree DT(F);
		LoopInfo LI(DT);
		json::Array blocks;
		for (auto& B : F)
		{
			json::Object bo;
			if (Loop* L = LI.getLoopFor(&B))
			{
				bo["loop"] = n.blocks[L->getHeader()];
				bo["depth"] = (int64_t)L->getLoopDepth();
			}
			json::Array ins;
			for (auto& I : B)
			{
				if (isa<DbgInfoIntrinsic>(&I))
					continue;
				if (auto ii = dyn_cast<IntrinsicInst>(&I))
				{
					auto iid = ii->getIntrinsicID();
					if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end ||
						iid == Intrinsic::assume ||
						iid == Intrinsic::experimental_noalias_scope_decl)
						continue;
				}
				json::Object o;
				o["id"] = n.ids[&I];
				o["op"] = I.getOpcodeName();
				o["ty"] = tyStr(I.getType());
				o["loc"] = locOf(I);
				json::Array ops;
				if (auto cb = dyn_cast<CallBase>(&I))
				{
					for (auto& a : cb->args())
						ops.push_back(operand(a.get(), n));
					const Value* cv = cb->getCalledOperand()->stripPointerCasts();
					if (auto cf = dyn_cast<Function>(cv))
						o["callee"] = fixed(cf->getName());
					else
						o["fp"] = operand(cv, n);
					bool sret = cb->hasStructRetAttr();
					if (sret) o["sret"] = true;
					if (auto ms = dyn_cast<MemIntrinsic>(&I)) (void)ms;
					if (auto inv = dyn_cast<InvokeInst>(&I))
					{
						o["succ"] = json::Array{n.blocks[inv->getNormalDest()],
							n.blocks[inv->getUnwindDest()]};
					}
				}
				else if (auto gep = dyn_cast<GetElementPtrInst>(&I))
				{
					ops.push_back(operand(gep->getPointerOperand(), n));
					MapVector<Value*, APInt> var;
					APInt c(64, 0);
					if (gep->collectOffset(*DL, 64, var, c))
					{
						o["off"] = (int64_t)c.getSExtValue();
						json::Array vs;
						for (auto& kv : var)
							vs.push_back(json::Array{operand(kv.first, n),
								(int64_t)kv.second.getSExtValue()});
						o["var"] = std::move(vs);
					}
					o["gty"] = tyStr(gep->getSourceElementType());
				}
				else if (auto phi = dyn_cast<PHINode>(&I))
				{
					json::Array in;
					for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
						in.push_back(json::Array{operand(phi->getIncomingValue(i), n),
							n.blocks[phi->getIncomingBlock(i)]});
					o["in"] = std::move(in);
				}
				else if (auto sw = dyn_cast<SwitchInst>(&I))
				{
					ops.push_back(operand(sw->getCondition(), n));
					json::Array cs;
					for (auto& c : sw->cases())
						cs.push_back(json::Array{(int64_t)c.getCaseValue()->getZExtValue(),
							n.blocks[c.getCaseSuccessor()]});
					o["cases"] = std::move(cs);
					o["default"] = n.blocks[sw->getDefaultDest()];
				}
				else
				{
					for (auto& op : I.operands())
						if (!isa<BasicBlock>(op.get()))
							ops.push_back(operand(op.get(), n));
				}
				if (auto br = dyn_cast<BranchInst>(&I))
				{
					json::Array s;
					for (unsigned k = 0; k < br->getNumSuccessors(); ++k)
						s.push_back(n.blocks[br->getSuccessor(k)]);
					o["succ"] = std::move(s);
				}
				if (auto pd = dyn_cast<PossiblyDisjointInst>(&I); pd && pd->isDisjoint())
					o["disjoint"] = true;
				if (auto c = dyn_cast<CmpInst>(&I))
					o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
				if (auto a = dyn_cast<AllocaInst>(&I))
				{
					o["aty"] = tyStr(a->getAllocatedType());
					o["asize"] = (int64_t)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType());
				}
				if (auto s = dyn_cast<StoreInst>(&I))
				{
					o["sty"] = tyStr(s->getValueOperand()->getType());
					o["size"] = (int64_t)(uint64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
					if (s->isAtomic()) o["atomic"] = true;
				}
				if (auto l = dyn_cast<LoadInst>(&I))
				{
					o["size"] = (int64_t)(uint64_t)DL->getTypeStoreSize(l->getType());
					if (l->isAtomic()) o["atomic"] = true;
				}
				if (auto r = dyn_cast<AtomicRMWInst>(&I))
					o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
				if (auto ev = dyn_cast<ExtractValueInst>(&I))
				{
					json::Array ix;
					for (auto i : ev->indices()) ix.push_back((int64_t)i);
					o["idx"] = std::move(ix);
				}
				if (auto iv = dyn_cast<InsertValueInst>(&I))
				{
					json::Array ix;
					for (auto i : iv->indices()) ix.push_back((int64_t)i);
					o["idx"] = std::move(ix);
				}
				if (auto sv = dyn_cast<ShuffleVectorInst>(&I))
				{
					json::Array ix;
					for (auto i : sv->getShuffleMask()) ix.push_back((int64_t)i);
					o["mask"] = std::move(ix);
				}
				o["a"] = std::move(ops);
				ins.push_back(std::move(o));
			}
			bo["i"] = std::move(ins);
			blocks.push_back(std::move(bo));
		}
		fo["blocks"] = std::move(blocks);
		funcs[fixed(F.getName())] = std::move(fo);
	}
	root["functions"] = std::move(funcs);
	std::error_code ec;
	raw_fd_ostream os(argv[2], ec);
	if (ec)
		return 2;
	os << json::Value(std::move(root));
	if (getenv("IRX_LL"))
	{
		raw_fd_ostream ll(getenv("IRX_LL"), ec);
		M->print(ll, nullptr);
	}
	return 0;
}
