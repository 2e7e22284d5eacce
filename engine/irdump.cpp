// irdump: mechanical dump of an LLVM bitcode/IR module to JSON for the VC generator.
// Nothing is dropped except debug-info intrinsics; every other instruction is emitted.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;
static const DataLayout* DL;
static json::Value ty(Type* t){
  if(t->isVoidTy()) return "void";
  if(t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
  if(t->isDoubleTy()) return "double";
  if(t->isFloatTy()) return "float";
  if(t->isX86_FP80Ty()) return "fp80";
  if(t->isPointerTy()) return "ptr";
  if(auto*s=dyn_cast<StructType>(t)){
    json::Array f; 
    if(s->isOpaque()) return json::Object{{"k","opaque"}};
    auto* L=DL->getStructLayout(s);
    for(unsigned i=0;i<s->getNumElements();++i) f.push_back(json::Array{(int64_t)L->getElementOffset(i),ty(s->getElementType(i))});
    return json::Object{{"k","s"},{"sz",(int64_t)DL->getTypeAllocSize(t)},{"f",std::move(f)}};
  }
  if(auto*a=dyn_cast<ArrayType>(t)) return json::Object{{"k","a"},{"n",(int64_t)a->getNumElements()},{"es",(int64_t)DL->getTypeAllocSize(a->getElementType())},{"e",ty(a->getElementType())},{"sz",(int64_t)DL->getTypeAllocSize(t)}};
  std::string s; raw_string_ostream o(s); t->print(o); return "?"+o.str();
}
static std::map<const Value*,int> ids; 
static json::Value operand(const Value* v);
static json::Value intc(const APInt& a){ SmallString<32> s; a.toStringSigned(s); return json::Array{"c",std::string(s.str()),(int64_t)a.getBitWidth()}; }
static json::Value gepop(const GEPOperator* g){
  // offset decomposition
  unsigned bw=DL->getIndexSizeInBits(0);
  MapVector<Value*,APInt> var; APInt c(bw,0);
  if(!g->collectOffset(*DL,bw,var,c)) return json::Array{"?","gep"};
  json::Array vs; for(auto&p:var) vs.push_back(json::Array{operand(p.first),(int64_t)p.second.getSExtValue()});
  return json::Array{"gep",operand(g->getPointerOperand()),(int64_t)c.getSExtValue(),std::move(vs)};
}
static json::Value operand(const Value* v){
  if(auto*c=dyn_cast<ConstantInt>(v)) return intc(c->getValue());
  if(auto*c=dyn_cast<ConstantFP>(v)){
    if(c->getType()->isFloatTy()||c->getType()->isDoubleTy()){
      double d = c->getType()->isFloatTy()? (double)c->getValueAPF().convertToFloat(): c->getValueAPF().convertToDouble();
      char b[64]; snprintf(b,64,"%a",d); return json::Array{"f",std::string(b)};
    }
    return json::Array{"?","fp"};
  }
  if(isa<ConstantPointerNull>(v)) return json::Array{"null"};
  if(isa<UndefValue>(v)) return json::Array{"undef",ty(v->getType())};
  if(isa<ConstantAggregateZero>(v)) return json::Array{"zero",ty(v->getType())};
  if(auto*f=dyn_cast<Function>(v)) return json::Array{"fn",f->getName().str()};
  if(auto*g=dyn_cast<GlobalVariable>(v)) return json::Array{"g",g->getName().str()};
  if(auto*g=dyn_cast<GlobalAlias>(v)) return operand(g->getAliasee());
  if(auto*c=dyn_cast<ConstantDataSequential>(v)){
    json::Array a; for(unsigned i=0;i<c->getNumElements();++i) a.push_back(operand(c->getElementAsConstant(i)));
    return json::Array{"agg",ty(v->getType()),std::move(a)};
  }
  if(auto*c=dyn_cast<ConstantAggregate>(v)){
    json::Array a; for(auto&o:c->operands()) a.push_back(operand(o));
    return json::Array{"agg",ty(v->getType()),std::move(a)};
  }
  if(auto*e=dyn_cast<ConstantExpr>(v)){
    if(auto*g=dyn_cast<GEPOperator>(e)) return gepop(g);
    json::Array a; for(auto&o:e->operands()) a.push_back(operand(o));
    return json::Array{"ce",e->getOpcodeName(),ty(e->getType()),std::move(a)};
  }
  auto it=ids.find(v);
  if(it!=ids.end()) return json::Array{"v",it->second};
  return json::Array{"?","operand"};
}
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(argv[1],e,C);
  if(!M){ e.print("irdump",errs()); return 2; }
  DataLayout dl(M.get()); DL=&dl;
  json::Object out; json::Array gl;
  for(auto&g:M->globals()){
    json::Object o{{"name",g.getName().str()},{"dem",demangle(g.getName().str())},{"type",ty(g.getValueType())},{"size",g.getValueType()->isSized()?(int64_t)dl.getTypeAllocSize(g.getValueType()):0},{"const",g.isConstant()}};
    if(g.hasInitializer()) o["init"]=operand(g.getInitializer());
    gl.push_back(std::move(o));
  }
  json::Array al; 
  for(auto&a:M->aliases()) al.push_back(json::Array{a.getName().str(),operand(a.getAliasee())});
  json::Array fns;
  for(auto&F:*M){
    json::Object fo{{"name",F.getName().str()},{"dem",demangle(F.getName().str())},{"ret",ty(F.getReturnType())}};
    json::Array attrs; if(F.doesNotReturn()) fo["noreturn"]=true;
    ids.clear(); int n=0;
    json::Array args; 
    for(auto&a:F.args()){ ids[&a]=n++; json::Object ao{{"t",ty(a.getType())}}; if(a.hasStructRetAttr()) ao["sret"]=(int64_t)dl.getTypeAllocSize(a.getParamStructRetType()); if(a.hasByValAttr()) ao["byval"]=(int64_t)dl.getTypeAllocSize(a.getParamByValType()); args.push_back(std::move(ao)); }
    fo["args"]=std::move(args);
    if(!F.isDeclaration()){
      std::map<const BasicBlock*,int> bid; int b=0;
      for(auto&BB:F) bid[&BB]=b++;
      for(auto&BB:F) for(auto&I:BB) ids[&I]=n++;
      json::Array bl;
      for(auto&BB:F){ json::Array il;
        for(auto&I:BB){
          if(isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o{{"op",I.getOpcodeName()},{"id",ids[&I]},{"t",ty(I.getType())}};
          if(auto&d=I.getDebugLoc()) { o["ln"]=(int64_t)d.getLine(); if(auto*s=d->getScope()) o["fl"]=s->getFilename().str(); }
          if(auto*ov=dyn_cast<OverflowingBinaryOperator>(&I)){ if(ov->hasNoSignedWrap()) o["nsw"]=true; if(ov->hasNoUnsignedWrap()) o["nuw"]=true; }
          if(auto*c=dyn_cast<CmpInst>(&I)) o["pred"]=CmpInst::getPredicateName(c->getPredicate()).str();
          if(auto*a=dyn_cast<AllocaInst>(&I)){ o["sz"]=(int64_t)dl.getTypeAllocSize(a->getAllocatedType()); o["n"]=operand(a->getArraySize()); o["at"]=ty(a->getAllocatedType()); }
          else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ o["x"]=gepop(cast<GEPOperator>(g)); }
          else if(auto*p=dyn_cast<PHINode>(&I)){ json::Array a; for(unsigned i=0;i<p->getNumIncomingValues();++i) a.push_back(json::Array{bid[p->getIncomingBlock(i)],operand(p->getIncomingValue(i))}); o["in"]=std::move(a); }
          else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ o["c"]=operand(br->getCondition()); o["b"]=json::Array{bid[br->getSuccessor(0)],bid[br->getSuccessor(1)]}; } else o["b"]=json::Array{bid[br->getSuccessor(0)]}; }
          else if(auto*sw=dyn_cast<SwitchInst>(&I)){ o["c"]=operand(sw->getCondition()); json::Array a; for(auto&cs:sw->cases()) a.push_back(json::Array{operand(cs.getCaseValue()),bid[cs.getCaseSuccessor()]}); o["cases"]=std::move(a); o["def"]=bid[sw->getDefaultDest()]; }
          else if(auto*cb=dyn_cast<CallBase>(&I)){
            json::Array a; for(auto&x:cb->args()) a.push_back(operand(x)); o["args"]=std::move(a);
            json::Array bv; bool anyb=false; for(unsigned i=0;i<cb->arg_size();++i){ int64_t s=0; if(cb->isByValArgument(i)){ s=dl.getTypeAllocSize(cb->getParamByValType(i)); anyb=true;} bv.push_back(s);} if(anyb) o["byval"]=std::move(bv);
            o["f"]=operand(cb->getCalledOperand());
            if(auto*iv=dyn_cast<InvokeInst>(&I)){ o["b"]=json::Array{bid[iv->getNormalDest()],bid[iv->getUnwindDest()]}; }
          }
          else if(auto*lp=dyn_cast<LandingPadInst>(&I)){ json::Array a; for(unsigned i=0;i<lp->getNumClauses();++i) a.push_back(json::Array{lp->isCatch(i)?"catch":"filter",operand(lp->getClause(i))}); o["cl"]=std::move(a); o["cleanup"]=lp->isCleanup(); }
          else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ json::Array ix; for(unsigned i:ev->indices()) ix.push_back((int64_t)i); o["ix"]=std::move(ix); o["x"]=json::Array{operand(ev->getOperand(0))}; o["ot"]=ty(ev->getOperand(0)->getType()); }
          else if(auto*iv=dyn_cast<InsertValueInst>(&I)){ json::Array ix; for(unsigned i:iv->indices()) ix.push_back((int64_t)i); o["ix"]=std::move(ix); o["x"]=json::Array{operand(iv->getOperand(0)),operand(iv->getOperand(1))}; }
          else { json::Array a; for(auto&x:I.operands()) a.push_back(operand(x)); o["x"]=std::move(a); if(I.getNumOperands()) o["ot"]=ty(I.getOperand(0)->getType()); 
            if(auto*rm=dyn_cast<AtomicRMWInst>(&I)) o["rmw"]=AtomicRMWInst::getOperationName(rm->getOperation()).str(); }
          il.push_back(std::move(o));
        }
        bl.push_back(std::move(il));
      }
      fo["blocks"]=std::move(bl);
      DominatorTree DT(F); LoopInfo LI(DT); json::Array loops;
      for(auto*L:LI.getLoopsInPreorder()){ json::Array bs; for(auto*x:L->blocks()) bs.push_back(bid[x]); loops.push_back(json::Object{{"h",bid[L->getHeader()]},{"b",std::move(bs)}}); }
      fo["loops"]=std::move(loops);
    }
    fns.push_back(std::move(fo));
  }
  out["globals"]=std::move(gl); out["fns"]=std::move(fns); out["aliases"]=std::move(al);
  outs()<<json::Value(std::move(out)); return 0;
}
