// irdump: mechanical translation of LLVM bitcode (produced by clang from the real /repo
// sources on every run) to a JSON form read by the VC generator (vcgen.py).
// It drops: debug info, metadata, alignment, fast-math flags are reported, attributes except nsw/nuw/inbounds.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <deque>
using namespace llvm;
static const DataLayout* DL;
static std::deque<const GlobalValue*> work; static std::set<const GlobalValue*> seen;
static void need(const GlobalValue* g){ if(seen.insert(g).second) work.push_back(g); }
static json::Value ty(Type* t)
{
    if(t->isVoidTy()) return "void";
    if(t->isFloatTy()) return "f32";
    if(t->isDoubleTy()) return "f64";
    if(t->isX86_FP80Ty()) return "f80";
    if(t->isPointerTy()) return "ptr";
    if(t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
    if(auto* s=dyn_cast<StructType>(t)){
        json::Array a; const StructLayout* sl=DL->getStructLayout(s);
        for(unsigned i=0;i<s->getNumElements();i++) a.push_back(json::Array{(int64_t)sl->getElementOffset(i),ty(s->getElementType(i))});
        return json::Array{"S",(int64_t)DL->getTypeAllocSize(t).getFixedValue(),std::move(a)};
    }
    if(auto* ar=dyn_cast<ArrayType>(t)){
        json::Array a; int64_t es=DL->getTypeAllocSize(ar->getElementType()).getFixedValue();
        if(ar->getNumElements()>4096) return json::Array{"BIG",(int64_t)DL->getTypeAllocSize(t).getFixedValue()};
        for(unsigned i=0;i<ar->getNumElements();i++) a.push_back(json::Array{(int64_t)(es*i),ty(ar->getElementType())});
        return json::Array{"S",(int64_t)DL->getTypeAllocSize(t).getFixedValue(),std::move(a)};
    }
    if(auto* v=dyn_cast<FixedVectorType>(t)){
        json::Array a; int64_t es=DL->getTypeStoreSize(v->getElementType()).getFixedValue();
        for(unsigned i=0;i<v->getNumElements();i++) a.push_back(json::Array{(int64_t)(es*i),ty(v->getElementType())});
        return json::Array{"S",(int64_t)DL->getTypeAllocSize(t).getFixedValue(),std::move(a)};
    }
    if(t->isLabelTy()) return "label";
    if(t->isMetadataTy()) return "meta";
    return "?";
}
static std::map<const Value*,int> ids;
static json::Value cst(const Constant* c);
static std::string bits(const APInt& v){ SmallString<64> s; v.toString(s,10,false); return std::string(s.str()); }
static json::Value cst(const Constant* c)
{
    if(auto* i=dyn_cast<ConstantInt>(c)) return json::Array{"c",ty(c->getType()),bits(i->getValue())};
    if(auto* f=dyn_cast<ConstantFP>(c)) return json::Array{"c",ty(c->getType()),bits(f->getValueAPF().bitcastToAPInt())};
    if(isa<ConstantPointerNull>(c)) return json::Array{"n"};
    if(isa<UndefValue>(c)) return json::Array{"u",ty(c->getType())};
    if(auto* a=dyn_cast<GlobalAlias>(c)){ return cst(cast<Constant>(a->getAliasee())); }
    if(auto* g=dyn_cast<GlobalValue>(c)){ need(g); return json::Array{"g",g->getName().str(),0}; }
    if(isa<ConstantAggregateZero>(c)) return json::Array{"z",ty(c->getType())};
    if(isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){
        json::Array a;
        if(auto* d=dyn_cast<ConstantDataSequential>(c)) for(unsigned i=0;i<d->getNumElements();i++) a.push_back(cst(d->getElementAsConstant(i)));
        else for(unsigned i=0;i<c->getNumOperands();i++) a.push_back(cst(cast<Constant>(c->getOperand(i))));
        return json::Array{"agg",ty(c->getType()),std::move(a)};
    }
    if(auto* ce=dyn_cast<ConstantExpr>(c)){
        if(auto* g=dyn_cast<GEPOperator>(ce)){
            APInt off(64,0); 
            const Value* b=g->stripAndAccumulateConstantOffsets(*DL,off,true);
            if(auto* gv=dyn_cast<GlobalAlias>(b)) b=gv->getAliasee();
            if(auto* gv=dyn_cast<GlobalValue>(b)){ need(gv); return json::Array{"g",gv->getName().str(),off.getSExtValue()}; }
        }
        json::Array ops; for(unsigned i=0;i<ce->getNumOperands();i++) ops.push_back(cst(ce->getOperand(i)));
        return json::Array{"ce",ce->getOpcodeName(),ty(ce->getType()),std::move(ops)};
    }
    return json::Array{"?",ty(c->getType())};
}
static json::Value opnd(const Value* v)
{
    auto it=ids.find(v); if(it!=ids.end()) return json::Array{"r",it->second};
    if(auto* c=dyn_cast<Constant>(v)) return cst(c);
    if(isa<InlineAsm>(v)) return json::Array{"asm"};
    return json::Array{"?","meta"};
}
int main(int argc,char** argv)
{
    LLVMContext ctx; SMDiagnostic err;
    auto M=parseIRFile(argv[1],err,ctx); if(!M){ err.print(argv[0],errs()); return 1; }
    DL=&M->getDataLayout();
    // roots: functions whose name starts with a given prefix list, or "*" for everything defined
    for(int i=2;i<argc;i++){ std::string p=argv[i];
        for(auto& F:*M) if(!F.isDeclaration() && (p=="*" || F.getName().starts_with(p))) need(&F); }
    if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) need(gc);
    json::Object funs, globs; 
    while(!work.empty()){
        const GlobalValue* gv=work.front(); work.pop_front();
        if(auto* g=dyn_cast<GlobalVariable>(gv)){
            json::Object o; o["size"]=(int64_t)(g->getValueType()->isSized()?DL->getTypeAllocSize(g->getValueType()).getFixedValue():0);
            o["ty"]=ty(g->getValueType()); o["const"]=g->isConstant();
            if(g->hasInitializer()){
                o["init"]=cst(g->getInitializer());
            }
            globs[g->getName()]=std::move(o); continue;
        }
        auto* F=dyn_cast<Function>(gv); if(!F) continue;
        json::Object fo; fo["ret"]=ty(F->getReturnType()); fo["vararg"]=F->isVarArg();
        ids.clear(); int n=0; json::Array args;
        for(auto& a:F->args()){ ids[&a]=n++; json::Object ao; ao["t"]=ty(a.getType()); ao["nm"]=a.getName().str();
            if(a.hasByValAttr()) ao["byval"]=(int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
            if(a.hasStructRetAttr()) ao["sret"]=true; args.push_back(std::move(ao)); }
        fo["args"]=std::move(args);
        if(F->isDeclaration()){ fo["decl"]=true; funs[F->getName()]=std::move(fo); continue; }
        std::map<const BasicBlock*,int> bid; int nb=0;
        // order: reverse post order
        std::vector<const BasicBlock*> order; { ReversePostOrderTraversal<const Function*> R(F); for(auto* b:R) order.push_back(b);} 
        for(auto* b:order) bid[b]=nb++;
        for(auto* b:order) for(auto& I:*b) if(!I.getType()->isVoidTy()) ids[&I]=n++;
        DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT);
        json::Array loops; for(auto* L:LI.getLoopsInPreorder()){ json::Array bs; for(auto* b:L->blocks()) if(bid.count(b)) bs.push_back(bid[b]);
            json::Object lo; lo["h"]=bid[L->getHeader()]; lo["d"]=(int64_t)L->getLoopDepth(); lo["b"]=std::move(bs); 
            loops.push_back(std::move(lo)); }
        fo["loops"]=std::move(loops);
        json::Object vars; // debug variable names -> register / alloca
        json::Array blocks;
        for(auto* b:order){ json::Array is;
            for(auto& I:*b){
                if(auto* dv=dyn_cast<DbgVariableIntrinsic>(&I)){
                    if(dv->getNumVariableLocationOps()>0){ const Value* v=dv->getVariableLocationOp(0); 
                    json::Object o; o["op"]="dbg"; o["name"]=dv->getVariable()->getName().str(); o["decl"]=isa<DbgDeclareInst>(&I); o["v"]=v?opnd(v):json::Value(nullptr);
                    o["line"]=(int64_t)(I.getDebugLoc()?I.getDebugLoc().getLine():0); is.push_back(std::move(o)); }
                    continue; }
                if(isa<DbgInfoIntrinsic>(&I)) continue;
                json::Object o; o["op"]=I.getOpcodeName(); if(!I.getType()->isVoidTy()){ o["id"]=ids[&I]; } o["t"]=ty(I.getType());
                if(I.getDebugLoc()) o["ln"]=(int64_t)I.getDebugLoc().getLine();
                if(auto* a=dyn_cast<AllocaInst>(&I)){ o["sz"]=(int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); o["n"]=opnd(a->getArraySize()); }
                else if(auto* g=dyn_cast<GetElementPtrInst>(&I)){
                    o["p"]=opnd(g->getPointerOperand()); APInt off(64,0); MapVector<Value*,APInt> vo;
                    if(!g->collectOffset(*DL,64,vo,off)) { o["op"]="unsupported_gep"; }
                    o["off"]=off.getSExtValue(); json::Array ix; for(auto& kv:vo) ix.push_back(json::Array{opnd(kv.first),ty(kv.first->getType()),kv.second.getSExtValue()}); o["ix"]=std::move(ix);
                    o["inb"]=g->isInBounds();
                }
                else if(auto* ph=dyn_cast<PHINode>(&I)){ json::Array in; for(unsigned i=0;i<ph->getNumIncomingValues();i++){ if(!bid.count(ph->getIncomingBlock(i))) continue; in.push_back(json::Array{bid[ph->getIncomingBlock(i)],opnd(ph->getIncomingValue(i))}); } o["in"]=std::move(in); }
                else if(auto* br=dyn_cast<BranchInst>(&I)){ json::Array s; for(unsigned q=0;q<br->getNumSuccessors();q++) s.push_back(bid[br->getSuccessor(q)]); o["s"]=std::move(s); if(br->isConditional()) o["c"]=opnd(br->getCondition()); }
                else if(auto* sw=dyn_cast<SwitchInst>(&I)){ o["c"]=opnd(sw->getCondition()); o["ct"]=ty(sw->getCondition()->getType()); json::Array cs; for(auto& c:sw->cases()) cs.push_back(json::Array{bits(c.getCaseValue()->getValue()),bid[c.getCaseSuccessor()]}); o["cs"]=std::move(cs); o["def"]=bid.count(sw->getDefaultDest())?bid[sw->getDefaultDest()]:-1; }
                else if(auto* cb=dyn_cast<CallBase>(&I)){
                    const Value* cal=cb->getCalledOperand(); o["f"]=opnd(cal); json::Array a; json::Array at;
                    for(unsigned i=0;i<cb->arg_size();i++){ a.push_back(opnd(cb->getArgOperand(i))); 
                        at.push_back(ty(cb->getArgOperand(i)->getType())); }
                    o["a"]=std::move(a); o["at"]=std::move(at);
                    json::Array bv; for(unsigned i=0;i<cb->arg_size();i++) bv.push_back(cb->isByValArgument(i)?(int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue():(int64_t)0); o["bv"]=std::move(bv);
                    if(auto* iv=dyn_cast<InvokeInst>(&I)){ o["s"]=json::Array{bid[iv->getNormalDest()]}; if(bid.count(iv->getUnwindDest())) o["uw"]=bid[iv->getUnwindDest()]; }
                }
                else if(auto* cm=dyn_cast<CmpInst>(&I)){ o["pr"]=CmpInst::getPredicateName(cm->getPredicate()).str(); o["a"]=json::Array{opnd(I.getOperand(0)),opnd(I.getOperand(1))}; o["at"]=ty(I.getOperand(0)->getType()); }
                else if(auto* ev=dyn_cast<ExtractValueInst>(&I)){ o["a"]=json::Array{opnd(ev->getAggregateOperand())}; json::Array x; for(unsigned k:ev->indices()) x.push_back((int64_t)k); o["x"]=std::move(x); }
                else if(auto* ev=dyn_cast<InsertValueInst>(&I)){ o["a"]=json::Array{opnd(ev->getAggregateOperand()),opnd(ev->getInsertedValueOperand())}; json::Array x; for(unsigned k:ev->indices()) x.push_back((int64_t)k); o["x"]=std::move(x); }
                else if(auto* sv=dyn_cast<ShuffleVectorInst>(&I)){ o["a"]=json::Array{opnd(sv->getOperand(0)),opnd(sv->getOperand(1))}; json::Array x; for(int k:sv->getShuffleMask()) x.push_back((int64_t)k); o["x"]=std::move(x); }
                else {
                    json::Array a; json::Array at; for(unsigned i=0;i<I.getNumOperands();i++){ a.push_back(opnd(I.getOperand(i))); at.push_back(ty(I.getOperand(i)->getType())); } o["a"]=std::move(a); o["at"]=std::move(at);
                    if(auto* ob=dyn_cast<OverflowingBinaryOperator>(&I)){ o["nsw"]=ob->hasNoSignedWrap(); o["nuw"]=ob->hasNoUnsignedWrap(); }
                    if(auto* ar=dyn_cast<AtomicRMWInst>(&I)) o["rmw"]=AtomicRMWInst::getOperationName(ar->getOperation()).str();
                }
                is.push_back(std::move(o));
            }
            blocks.push_back(std::move(is)); }
        fo["blocks"]=std::move(blocks); fo["nreg"]=n;
        if(auto* sp=F->getSubprogram()){ fo["file"]=sp->getFilename().str(); fo["line"]=(int64_t)sp->getLine(); }
        funs[F->getName()]=std::move(fo);
    }
    json::Object top; top["funs"]=std::move(funs); top["globs"]=std::move(globs);
    outs()<<json::Value(std::move(top))<<"\n"; return 0;
}
