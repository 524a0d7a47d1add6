// irdump: serialises an LLVM module (bitcode) to JSON for the Python analyses.
// It performs no analysis of its own.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Passes/PassBuilder.h>
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout* DL;
static std::map<const Value*, int> Ids;
static std::map<const BasicBlock*, int> BIds;
static std::set<const DICompositeType*> Classes;
static std::string tystr(Type* t){ std::string s; raw_string_ostream o(s); t->print(o); return o.str(); }

static const DIType* strip(const DIType* t){
  while (t) { if (auto d=dyn_cast<DIDerivedType>(t)) { unsigned tag=d->getTag();
      if (tag==dwarf::DW_TAG_typedef||tag==dwarf::DW_TAG_const_type||tag==dwarf::DW_TAG_volatile_type||tag==dwarf::DW_TAG_restrict_type) { t=d->getBaseType(); continue; } }
    break; }
  return t;
}
static std::string scopeName(const DIScope* s){
  if (!s) return "";
  if (isa<DICompileUnit>(s) || isa<DIFile>(s)) return "";
  std::string p = scopeName(s->getScope());
  std::string n;
  if (auto c=dyn_cast<DICompositeType>(s)) n = c->getName().str();
  else if (auto ns=dyn_cast<DINamespace>(s)) n = ns->getName().empty()? "(anonymous)": ns->getName().str();
  else if (auto sp=dyn_cast<DISubprogram>(s)) n = sp->getName().str();
  else if (auto t=dyn_cast<DIType>(s)) n = t->getName().str();
  else return p;
  return p.empty()? n : p+"::"+n;
}
static std::string tname(const DIType* t){
  if (!t) return "void";
  if (auto d=dyn_cast<DIDerivedType>(t)) {
    std::string b = tname(d->getBaseType());
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b+"*";
      case dwarf::DW_TAG_reference_type: return b+"&";
      case dwarf::DW_TAG_rvalue_reference_type: return b+"&&";
      case dwarf::DW_TAG_const_type: return "const "+b;
      case dwarf::DW_TAG_typedef: return b;
      case dwarf::DW_TAG_ptr_to_member_type: return b+"::*";
      default: return b;
    }
  }
  if (auto c=dyn_cast<DICompositeType>(t)) {
    if (c->getTag()==dwarf::DW_TAG_array_type) {
      std::string r = tname(c->getBaseType());
      for (auto e: c->getElements()) if (auto sr=dyn_cast_or_null<DISubrange>(e)) { (void)sr; r += "[]"; }
      return r;
    }
    return scopeName(c);
  }
  return t->getName().str();
}
static uint64_t tsize(const DIType* t){
  t = strip(t); if (!t) return 0;
  if (auto d=dyn_cast<DIDerivedType>(t)) {
    unsigned tag=d->getTag();
    if (tag==dwarf::DW_TAG_pointer_type||tag==dwarf::DW_TAG_reference_type||tag==dwarf::DW_TAG_rvalue_reference_type) return 8;
  }
  return t->getSizeInBits()/8;
}
// size of what a pointer/reference type points to (0 when not a pointer)
static const DIType* pointee(const DIType* t){
  t = strip(t);
  if (auto d=dyn_cast_or_null<DIDerivedType>(t)) {
    unsigned tag=d->getTag();
    if (tag==dwarf::DW_TAG_pointer_type||tag==dwarf::DW_TAG_reference_type||tag==dwarf::DW_TAG_rvalue_reference_type) return d->getBaseType();
  }
  return nullptr;
}
static bool isConstPointee(const DIType* t){
  const DIType* p = pointee(t);
  while (p) { if (auto d=dyn_cast<DIDerivedType>(p)) {
      if (d->getTag()==dwarf::DW_TAG_const_type) return true;
      if (d->getTag()==dwarf::DW_TAG_typedef) { p=d->getBaseType(); continue; } }
    break; }
  return false;
}

static J::Value operand(const Value* v);
static J::Value constant(const Constant* c){
  if (auto ci=dyn_cast<ConstantInt>(c)) {
    unsigned w=ci->getBitWidth();
    if (w<=63) return J::Array{"c",(int64_t)ci->getZExtValue(),(int64_t)w};
    SmallString<40> s; ci->getValue().toStringUnsigned(s);
    return J::Array{"C",s.str().str(),(int64_t)w};
  }
  if (isa<ConstantPointerNull>(c)) return J::Array{"n"};
  if (isa<UndefValue>(c)) return J::Array{"u"};
  if (auto gv=dyn_cast<GlobalValue>(c)) {
    if (auto ga=dyn_cast<GlobalAlias>(gv)) return operand(ga->getAliasee());
    return J::Array{isa<Function>(gv)?"f":"g", gv->getName().str()};
  }
  if (auto ce=dyn_cast<ConstantExpr>(c)) {
    if (auto gep=dyn_cast<GEPOperator>(ce)) {
      APInt off(64,0);
      if (gep->accumulateConstantOffset(*DL,off))
        return J::Array{"ge", operand(gep->getPointerOperand()), (int64_t)off.getSExtValue()};
    }
    J::Array a{"ce", ce->getOpcodeName()};
    for (auto& o: ce->operands()) a.push_back(operand(o));
    return a;
  }
  if (auto ca=dyn_cast<ConstantAggregate>(c)) { J::Array a{"agg"}; for (auto& o: ca->operands()) a.push_back(operand(o)); return a; }
  if (isa<ConstantAggregateZero>(c)) return J::Array{"zero", (int64_t)DL->getTypeAllocSize(c->getType())};
  if (auto fp=dyn_cast<ConstantFP>(c)) { SmallString<40> s; fp->getValueAPF().toString(s); return J::Array{"fp", s.str().str()}; }
  return J::Array{"x", tystr(c->getType())};
}
static J::Value operand(const Value* v){
  if (auto a=dyn_cast<Argument>(v)) return J::Array{"p",(int64_t)a->getArgNo()};
  if (isa<Instruction>(v)) return J::Array{"i",(int64_t)Ids[v]};
  if (auto bb=dyn_cast<BasicBlock>(v)) return J::Array{"b",(int64_t)BIds[bb]};
  if (auto c=dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return J::Array{"md"};
  return J::Array{"x","?"};
}
static std::vector<std::pair<uint64_t,int64_t>> relAdd; // offsets into the targets of the last flattened initialiser's relocations
// Flatten a global's initialiser: bytes (-1 = unknown/reloc) + relocations
static void flat(const Constant* c, uint64_t off, std::vector<int>& out, std::vector<std::pair<uint64_t,std::string>>& rel){
  uint64_t n = DL->getTypeStoreSize(c->getType());
  if (auto ci=dyn_cast<ConstantInt>(c)) { APInt v=ci->getValue(); for (uint64_t i=0;i<n;i++) if (off+i<out.size()) out[off+i]=(int)v.extractBitsAsZExtValue(std::min<unsigned>(8,v.getBitWidth()-i*8<8?v.getBitWidth()-i*8:8),i*8); return; }
  if (isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) { for (uint64_t i=0;i<n;i++) if (off+i<out.size()) out[off+i]=0; return; }
  if (auto cd=dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es=cd->getElementByteSize();
    for (unsigned k=0;k<cd->getNumElements();k++) flat(cd->getElementAsConstant(k), off+k*es, out, rel);
    return; }
  if (auto cs=dyn_cast<ConstantStruct>(c)) { auto* sl=DL->getStructLayout(cs->getType()); for (unsigned k=0;k<cs->getNumOperands();k++) flat(cs->getOperand(k), off+sl->getElementOffset(k), out, rel); return; }
  if (auto ca=dyn_cast<ConstantArray>(c)) { uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned k=0;k<ca->getNumOperands();k++) flat(ca->getOperand(k), off+k*es, out, rel); return; }
  if (c->getType()->isPointerTy()) {
    APInt o(64,0); const Value* b=c->stripAndAccumulateConstantOffsets(*DL,o,true);
    if (auto gv=dyn_cast<GlobalValue>(b)) { rel.push_back({off, gv->getName().str()}); if (o.getSExtValue()) relAdd.push_back({off, o.getSExtValue()}); }
  }
}
static void flattenMembers(const DICompositeType* c, uint64_t base, std::string prefix, J::Array& out, int depth){
  for (auto* e: c->getElements()) {
    auto d=dyn_cast_or_null<DIDerivedType>(e); if (!d) continue;
    if (d->isStaticMember()) continue;
    uint64_t off=base+d->getOffsetInBits()/8;
    const DIType* bt=strip(d->getBaseType());
    if (d->getTag()==dwarf::DW_TAG_inheritance) {
      if (auto bc=dyn_cast_or_null<DICompositeType>(bt)) {
        std::string bn=tname(bc);
        if (bn.rfind("std::",0)==0) { out.push_back(J::Object{{"n",prefix+"<base "+bn+">"},{"o",(int64_t)off},{"s",(int64_t)tsize(bc)},{"t",bn}}); }
        else flattenMembers(bc, off, prefix, out, depth+1);
      }
      continue;
    }
    if (d->getTag()!=dwarf::DW_TAG_member) continue;
    std::string nm=prefix+d->getName().str();
    std::string tn=tname(d->getBaseType());
    if (d->getName().starts_with("_vptr")) { out.push_back(J::Object{{"n",nm},{"o",(int64_t)off},{"s",8},{"t","vptr"}}); continue; }
    auto ct=dyn_cast_or_null<DICompositeType>(bt);
    if (ct && (ct->getTag()==dwarf::DW_TAG_structure_type||ct->getTag()==dwarf::DW_TAG_class_type||ct->getTag()==dwarf::DW_TAG_union_type)
        && tn.rfind("std::",0)!=0 && depth<6 && ct->getElements().size() && ct->getTag()!=dwarf::DW_TAG_union_type) {
      flattenMembers(ct, off, nm+".", out, depth+1);
    } else out.push_back(J::Object{{"n",nm},{"o",(int64_t)off},{"s",(int64_t)tsize(d->getBaseType())},{"t",tn}});
  }
}
static std::string fileOf(const DIFile* f){ if (!f) return ""; std::string n=f->getFilename().str(); if (!n.empty()&&n[0]!='/') n=f->getDirectory().str()+"/"+n; return n; }

// prep: decide, per function, whether the normalised module sees it inlined or as an opaque call.
static void dropAliases(Module& M){
  std::vector<GlobalAlias*> as; for (auto& a: M.aliases()) as.push_back(&a);
  for (auto a: as) { a->replaceAllUsesWith(a->getAliasee()); a->eraseFromParent(); }
}
static int optimise(Module& M, const char* pipe){
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager MPM; if (auto e=PB.parsePassPipeline(MPM,pipe)) { errs()<<"bad pipeline\n"; return 2; }
  MPM.run(M,MAM); return 0;
}
static int prep(Module& M, const char* rules, const char* entries){
  Regex er(entries);
  std::vector<std::pair<bool,Regex>> rs;
  { auto mb=MemoryBuffer::getFile(rules); if(!mb){errs()<<"no rules\n";return 2;}
    SmallVector<StringRef,64> ls; (*mb)->getBuffer().split(ls,'\n');
    for (auto l: ls) { l=l.trim(); if (l.empty()||l[0]=='#') continue; rs.emplace_back(l[0]=='+', Regex(l.drop_front(1))); std::string er; if(!rs.back().second.isValid(er)){errs()<<"bad regex "<<l<<" "<<er<<"\n";return 2;} } }
  for (auto& f: M) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline); f.removeFnAttr(Attribute::OptimizeNone);
    std::string q;
    if (auto sp=f.getSubprogram()) { q=scopeName(sp->getScope()); if(!q.empty()) q+="::"; q+=sp->getName().str(); } else q=f.getName().str();
    bool inl=false, ent=f.getName().starts_with("e_"), keep=(ent||StringRef(entries).contains("_Z"))&&er.match(f.getName());
    if (ent&&!keep) { f.deleteBody(); f.setComdat(nullptr); continue; }
    for (auto& r: rs) if (r.second.match(q)) { inl=r.first; break; }
    for (auto& b: f) for (auto& i: b) if (auto c=dyn_cast<CallBase>(&i)) if (auto cf=c->getCalledFunction()) if (cf->getName()=="__cxa_guard_acquire") inl=false;
    if (!inl&&!keep) { f.deleteBody(); f.setComdat(nullptr); continue; }
    f.addFnAttr(inl&&!keep?Attribute::AlwaysInline:Attribute::NoInline);
    if (f.hasComdat()) f.setComdat(nullptr);
    if (keep) f.setLinkage(GlobalValue::ExternalLinkage);
    if (!keep && f.getName()!="main") { f.setLinkage(GlobalValue::InternalLinkage); f.setVisibility(GlobalValue::DefaultVisibility); }
  }
  for (const char* n: {"llvm.used","llvm.compiler.used","llvm.global_ctors"}) if (auto g=M.getGlobalVariable(n)) g->eraseFromParent();
  for (auto& g: M.globals()) { g.setComdat(nullptr); if (!g.isDeclaration()) g.setLinkage(GlobalValue::InternalLinkage); }
  for (auto& f: M) f.setComdat(nullptr);
  return optimise(M,"always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,sroa)");
}

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E;
  std::string mode=argv[1]; argv++; argc--;
  auto M=parseIRFile(argv[1],E,C);
  if(!M){E.print(argv[0],errs());return 2;}
  const char* outf;
  dropAliases(*M);
  if (mode=="norm") { if (int r=prep(*M,argv[2],argv[3])) return r; outf=argv[4]; }
  else if (mode=="raw") { if (int r=optimise(*M,"function(sroa)")) return r; outf=argv[2]; }
  else return 2;
  DataLayout dl=M->getDataLayout(); DL=&dl;
  std::error_code ec; raw_fd_ostream os(outf,ec);
  J::OStream j(os);
  j.objectBegin();
  // classes
  DebugInfoFinder F; F.processModule(*M);
  j.attributeBegin("classes"); j.arrayBegin();
  std::set<std::string> seen;
  for (auto* t: F.types()) if (auto c=dyn_cast<DICompositeType>(t)) {
    if (c->isForwardDecl()) continue;
    if (c->getTag()==dwarf::DW_TAG_enumeration_type) {
      J::Array en; for (auto*e:c->getElements()) if (auto x=dyn_cast_or_null<DIEnumerator>(e)) en.push_back(J::Array{x->getName().str(), x->getValue().getSExtValue()});
      std::string nm=tname(c);
      j.value(J::Object{{"name",nm},{"enum",std::move(en)},{"size",(int64_t)(c->getSizeInBits()/8)},{"file",fileOf(c->getFile())},{"line",(int64_t)c->getLine()}});
      continue;
    }
    if (c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_class_type) continue;
    std::string nm=tname(c);
    if (nm.find("Pire")==std::string::npos && nm.find("anonymous")==std::string::npos) continue;
    if (nm.rfind("std::",0)==0) continue;
    if (!seen.insert(nm).second) continue;
    J::Array m; flattenMembers(c,0,"",m,0);
    J::Array bases, sm;
    for (auto*e:c->getElements()) if (auto d=dyn_cast_or_null<DIDerivedType>(e)) {
      if (d->getTag()==dwarf::DW_TAG_inheritance) bases.push_back(tname(d->getBaseType()));
      if (d->isStaticMember()) { J::Object o{{"n",d->getName().str()}}; if (auto ci=dyn_cast_or_null<ConstantInt>(d->getConstant())) o["v"]=(int64_t)ci->getSExtValue(); sm.push_back(std::move(o)); }
    }
    j.value(J::Object{{"name",nm},{"size",(int64_t)(c->getSizeInBits()/8)},{"members",std::move(m)},{"bases",std::move(bases)},{"statics",std::move(sm)},{"file",fileOf(c->getFile())},{"line",(int64_t)c->getLine()}});
  }
  j.arrayEnd(); j.attributeEnd();
  j.attributeBegin("globals"); j.arrayBegin();
  for (auto& g: M->globals()) {
    J::Object o{{"name",g.getName().str()},{"dname",demangle(g.getName().str())},{"const",g.isConstant()},{"tls",g.isThreadLocal()},{"decl",g.isDeclaration()},{"internal",g.hasLocalLinkage()}};
    uint64_t sz = g.getValueType()->isSized()? (uint64_t)dl.getTypeAllocSize(g.getValueType()):0; o["size"]=(int64_t)sz;
    SmallVector<DIGlobalVariableExpression*,1> gd; g.getDebugInfo(gd);
    if (gd.size()) { auto v=gd[0]->getVariable(); o["file"]=fileOf(v->getFile()); o["line"]=(int64_t)v->getLine(); o["ty"]=tname(v->getType()); o["scope"]=scopeName(v->getScope()); o["vname"]=v->getName().str(); }
    if (g.hasInitializer() && sz<=65536) {
      std::vector<int> b(sz,-1); std::vector<std::pair<uint64_t,std::string>> r; relAdd.clear(); flat(g.getInitializer(),0,b,r);
      std::string hex; for (int x: b) { char t[3]; if (x<0) strcpy(t,"??"); else snprintf(t,3,"%02x",x&255); hex+=t; }
      if (hex.find_first_not_of('0')==std::string::npos) o["zero"]=true; else o["init"]=hex;
      J::Array ra; for (auto&p:r) ra.push_back(J::Array{(int64_t)p.first,p.second}); if (r.size()) o["rel"]=std::move(ra);
      J::Array rd; for (auto&p:relAdd) rd.push_back(J::Array{(int64_t)p.first,(int64_t)p.second}); if (rd.size()) o["reladd"]=std::move(rd);
    }
    j.value(std::move(o));
  }
  j.arrayEnd(); j.attributeEnd();
  j.attributeBegin("functions"); j.arrayBegin();
  for (auto& f: *M) {
    if (f.isIntrinsic() && f.isDeclaration()) continue;
    Ids.clear(); BIds.clear();
    int n=0,bn=0; for (auto& b: f) { BIds[&b]=bn++; for (auto& i: b) Ids[&i]=n++; }
    J::Object o{{"name",f.getName().str()},{"dname",demangle(f.getName().str())},{"decl",f.isDeclaration()},{"internal",f.hasLocalLinkage()}};
    if (f.doesNotThrow()) o["nounwind"]=true;
    if (f.doesNotReturn()) o["noreturn"]=true;
    J::Array ps; for (auto& a: f.args()) { J::Object p{{"t",tystr(a.getType())}}; if (a.hasStructRetAttr()) p["sret"]=(int64_t)dl.getTypeAllocSize(a.getParamStructRetType()); if (a.hasByValAttr()) p["byval"]=(int64_t)dl.getTypeAllocSize(a.getParamByValType()); ps.push_back(std::move(p)); }
    o["params"]=std::move(ps); o["ret"]=tystr(f.getReturnType());
    if (auto sp=f.getSubprogram()) {
      o["file"]=fileOf(sp->getFile()); o["line"]=(int64_t)sp->getLine(); o["sname"]=sp->getName().str(); o["scope"]=scopeName(sp->getScope());
      if (auto cs=dyn_cast_or_null<DICompositeType>(sp->getScope())) { o["class"]=tname(cs); o["class_size"]=(int64_t)(cs->getSizeInBits()/8); }
      J::Array tp; for (auto* e: sp->getTemplateParams()) { if (auto t=dyn_cast_or_null<DITemplateTypeParameter>(e)) tp.push_back(J::Array{t->getName().str(),tname(t->getType()),(int64_t)tsize(t->getType())}); else if (auto v=dyn_cast_or_null<DITemplateValueParameter>(e)) { J::Array a{v->getName().str(),"value"}; if (auto cm=dyn_cast_or_null<ConstantAsMetadata>(v->getValue())) if (auto ci=dyn_cast<ConstantInt>(cm->getValue())) a.push_back(ci->getSExtValue()); tp.push_back(std::move(a)); } }
      if (tp.size()) o["tparams"]=std::move(tp);
      J::Array dt; if (auto st=sp->getType()) for (auto* t: st->getTypeArray()) { if (!t) { dt.push_back(J::Array{"void",0,0,false}); continue; } auto pt=pointee(t); dt.push_back(J::Array{tname(t),(int64_t)tsize(t),(int64_t)(pt?tsize(pt):0),isConstPointee(t)}); }
      o["ditypes"]=std::move(dt);
    }
    if (!f.isDeclaration()) {
      J::Array bl;
      for (auto& b: f) {
        J::Array is;
        for (auto& i: b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          if (auto ii=dyn_cast<IntrinsicInst>(&i)) if (ii->isLifetimeStartOrEnd()||ii->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl) continue;
          J::Object x{{"i",(int64_t)Ids[&i]},{"o",i.getOpcodeName()}};
          Type* t=i.getType();
          if (t->isIntegerTy()) x["w"]=(int64_t)t->getIntegerBitWidth(); else if (t->isPointerTy()) x["w"]=64; 
          if (!t->isVoidTy()) x["t"]=tystr(t);
          if (i.getDebugLoc()) { x["l"]=(int64_t)i.getDebugLoc().getLine(); if (auto s=i.getDebugLoc()->getScope()) { std::string fn=fileOf(s->getFile()); if (auto sp=f.getSubprogram()) if (fn!=fileOf(sp->getFile())) x["lf"]=fn; if (auto ss=s->getSubprogram()) if (ss!=f.getSubprogram()) x["sf"]=(scopeName(ss->getScope())+"::"+ss->getName().str()); } }
          if (auto a=dyn_cast<AllocaInst>(&i)) { x["s"]=(int64_t)dl.getTypeAllocSize(a->getAllocatedType()); x["at"]=tystr(a->getAllocatedType()); x["cnt"]=operand(a->getArraySize()); }
          else if (auto g=dyn_cast<GetElementPtrInst>(&i)) {
            MapVector<Value*,APInt> vo; APInt co(64,0); x["a"]=J::Array{operand(g->getPointerOperand())};
            if (cast<GEPOperator>(g)->collectOffset(dl,64,vo,co)) { x["k"]=(int64_t)co.getSExtValue(); J::Array va; for (auto& p: vo) va.push_back(J::Array{operand(p.first),(int64_t)p.second.getSExtValue()}); x["v"]=std::move(va); x["ib"]=g->isInBounds(); }
            else x["bad"]=true;
          }
          else if (auto l=dyn_cast<LoadInst>(&i)) { x["a"]=J::Array{operand(l->getPointerOperand())}; x["s"]=(int64_t)dl.getTypeStoreSize(t); if (l->isVolatile()) x["vol"]=true; if (l->isAtomic()) x["at"]=true; }
          else if (auto s=dyn_cast<StoreInst>(&i)) { x["a"]=J::Array{operand(s->getValueOperand()),operand(s->getPointerOperand())}; x["s"]=(int64_t)dl.getTypeStoreSize(s->getValueOperand()->getType()); if (s->isAtomic()) x["at"]=true; }
          else if (auto c=dyn_cast<CmpInst>(&i)) { x["p"]=CmpInst::getPredicateName(c->getPredicate()).str(); x["a"]=J::Array{operand(c->getOperand(0)),operand(c->getOperand(1))}; Type* ot=c->getOperand(0)->getType(); x["ow"]=(int64_t)(ot->isPointerTy()?64:ot->isIntegerTy()?ot->getIntegerBitWidth():0); }
          else if (auto cb=dyn_cast<CallBase>(&i)) {
            auto* cv=cb->getCalledOperand()->stripPointerCasts();
            if (auto ga=dyn_cast<GlobalAlias>(cv)) cv=const_cast<Value*>((const Value*)ga->getAliasee()->stripPointerCasts());
            if (auto cf=dyn_cast<Function>(cv)) x["f"]=cf->getName().str(); else if (isa<InlineAsm>(cv)) x["asm"]=true; else x["fp"]=operand(cv);
            J::Array as; for (auto& a: cb->args()) as.push_back(operand(a)); x["a"]=std::move(as);
            if (auto ii=dyn_cast<IntrinsicInst>(&i)) x["intr"]=Intrinsic::getBaseName(ii->getIntrinsicID()).str();
            if (auto iv=dyn_cast<InvokeInst>(&i)) { x["n"]=(int64_t)BIds[iv->getNormalDest()]; x["u"]=(int64_t)BIds[iv->getUnwindDest()]; }
            if (cb->doesNotThrow()) x["nt"]=true;
            if (cb->doesNotReturn()) x["nr"]=true;
          }
          else if (auto br=dyn_cast<BranchInst>(&i)) { if (br->isConditional()) { x["a"]=J::Array{operand(br->getCondition())}; x["d"]=J::Array{(int64_t)BIds[br->getSuccessor(0)],(int64_t)BIds[br->getSuccessor(1)]}; } else x["d"]=J::Array{(int64_t)BIds[br->getSuccessor(0)]}; }
          else if (auto sw=dyn_cast<SwitchInst>(&i)) { x["a"]=J::Array{operand(sw->getCondition())}; x["df"]=(int64_t)BIds[sw->getDefaultDest()]; J::Array cs; for (auto c: sw->cases()) cs.push_back(J::Array{(int64_t)c.getCaseValue()->getZExtValue(),(int64_t)BIds[c.getCaseSuccessor()]}); x["cs"]=std::move(cs); }
          else if (auto p=dyn_cast<PHINode>(&i)) { J::Array in; for (unsigned k=0;k<p->getNumIncomingValues();k++) in.push_back(J::Array{operand(p->getIncomingValue(k)),(int64_t)BIds[p->getIncomingBlock(k)]}); x["in"]=std::move(in); }
          else if (auto lp=dyn_cast<LandingPadInst>(&i)) { x["cleanup"]=lp->isCleanup(); J::Array cl; for (unsigned k=0;k<lp->getNumClauses();k++) cl.push_back(J::Array{lp->isCatch(k)?"catch":"filter",operand(lp->getClause(k))}); x["cl"]=std::move(cl); }
          else if (auto ev=dyn_cast<ExtractValueInst>(&i)) { x["a"]=J::Array{operand(ev->getAggregateOperand())}; J::Array ix; for (unsigned k: ev->indices()) ix.push_back((int64_t)k); x["ix"]=std::move(ix); }
          else if (auto iv=dyn_cast<InsertValueInst>(&i)) { x["a"]=J::Array{operand(iv->getAggregateOperand()),operand(iv->getInsertedValueOperand())}; J::Array ix; for (unsigned k: iv->indices()) ix.push_back((int64_t)k); x["ix"]=std::move(ix); }
          else { J::Array as; for (auto& a: i.operands()) as.push_back(operand(a)); x["a"]=std::move(as); 
            if (i.getNumOperands()) { Type* ot=i.getOperand(0)->getType(); x["ow"]=(int64_t)(ot->isPointerTy()?64:ot->isIntegerTy()?ot->getIntegerBitWidth():0);} }
          is.push_back(std::move(x));
        }
        bl.push_back(std::move(is));
      }
      o["blocks"]=std::move(bl);
    }
    j.value(std::move(o));
  }
  j.arrayEnd(); j.attributeEnd();
  j.objectEnd();
  return 0;
}
