// Facts about one translation unit, from the type-checked syntax tree (one JSON object per line).
//   usage: astfacts OUT ROOT[,ROOT..] FILE -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang; using llvm::json::Object; using llvm::json::Value;
static std::vector<std::string> roots; static std::set<std::string> lines; 
static void emit(Object o){ std::string s; llvm::raw_string_ostream os(s); os<<Value(std::move(o)); os.flush(); lines.insert(s); }
struct V: RecursiveASTVisitor<V> {
  ASTContext&C; SourceManager&S; FunctionDecl*cur=nullptr; V(ASTContext&c):C(c),S(c.getSourceManager()){}
  bool shouldVisitTemplateInstantiations() const { return true; } bool shouldVisitImplicitCode() const { return true; }
  std::string where(SourceLocation l){ l=S.getExpansionLoc(l); auto p=S.getPresumedLoc(l); if(p.isInvalid()) return ""; return std::string(p.getFilename())+":"+std::to_string(p.getLine()); }
  bool ours(SourceLocation l){ std::string w=where(l); for(auto&r:roots) if(w.compare(0,r.size(),r)==0) return true; return false; }
  std::string usr(const Decl*d){ llvm::SmallString<128> b; if(index::generateUSRForDecl(d,b)) return ""; return b.str().str(); }
  std::string tname(QualType t){ PrintingPolicy p(C.getLangOpts()); p.SuppressTagKeyword=true; return t.getCanonicalType().getAsString(p); }
  std::string qn(const NamedDecl*d){ std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o); o.flush(); if(auto*c=dyn_cast<ClassTemplateSpecializationDecl>(d)) return tname(C.getRecordType(c)); return s; }
  // identity of a declaration independent of the template arguments: where its pattern is written
  std::string id(const Decl*d){ std::string n; if(auto*x=dyn_cast<NamedDecl>(d)) n=x->getNameAsString(); auto p=S.getPresumedLoc(S.getExpansionLoc(d->getLocation())); if(p.isInvalid()) return n; return std::string(p.getFilename())+":"+std::to_string(p.getLine())+":"+std::to_string(p.getColumn())+":"+n; }
  const FunctionDecl*pat(const FunctionDecl*f){ const FunctionDecl*p=f->getTemplateInstantiationPattern(); return (p?p:f)->getCanonicalDecl(); }
  std::string fid(const FunctionDecl*f){ return id(pat(f)); }
  // ---- scoping
  bool TraverseNamespaceDecl(NamespaceDecl*n){ if(n->getDeclContext()->isTranslationUnit()&&n->getName()!="fcl"&&!n->isAnonymousNamespace()) return true; return RecursiveASTVisitor::TraverseNamespaceDecl(n); }
  template<class F> bool fn(F*f,bool(V::*go)(F*)){ auto*o=cur; cur=f; bool r=(this->*go)(f); cur=o; return r; }
#define TF(K) bool base##K(K*f){ return RecursiveASTVisitor::Traverse##K(f); } bool Traverse##K(K*f){ return fn<K>(f,&V::base##K); }
  TF(FunctionDecl) TF(CXXMethodDecl) TF(CXXConstructorDecl) TF(CXXDestructorDecl) TF(CXXConversionDecl)
  std::string in(){ return cur?qn(cur):""; }
  // ---- instantiations
  void inst(const NamedDecl*d,TemplateSpecializationKind k,SourceLocation l,bool hasdef){ if(k!=TSK_ExplicitInstantiationDeclaration&&k!=TSK_ExplicitInstantiationDefinition) return; if(!ours(l)&&!ours(d->getLocation())) return;
    emit(Object{{"k","inst"},{"def",k==TSK_ExplicitInstantiationDefinition},{"usr",usr(d)},{"name",qn(d)},{"at",where(l)},{"body",hasdef}}); }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl*d){ inst(d,d->getTemplateSpecializationKind(),d->getPointOfInstantiation().isValid()?d->getPointOfInstantiation():d->getLocation(),true); return true; }
  bool VisitFunctionDecl(FunctionDecl*f){
    auto k=f->getTemplateSpecializationKind(); bool member=isa<CXXMethodDecl>(f)&&!f->getPrimaryTemplate();
    const FunctionDecl*pat=f->getTemplateInstantiationPattern(); 
    if(!member&&f->getPrimaryTemplate()) inst(f,k,f->getPointOfInstantiation().isValid()?f->getPointOfInstantiation():f->getLocation(),pat&&pat->isDefined());
    if(member&&(k==TSK_ExplicitInstantiationDeclaration||k==TSK_ExplicitInstantiationDefinition)) { auto*cls=cast<CXXMethodDecl>(f)->getParent(); auto ck=cls->getTemplateSpecializationKind(); if(ck!=TSK_ExplicitInstantiationDeclaration&&ck!=TSK_ExplicitInstantiationDefinition) inst(f,k,f->getLocation(),pat&&pat->isDefined()); }
    // declarations written in the sources, with or without a body somewhere in this unit
    if(k==TSK_Undeclared&&ours(f->getLocation())&&!f->isImplicit()){ bool pure=f->isPureVirtual(); 
      emit(Object{{"k","fn"},{"id",usr(f)},{"fid",fid(f)},{"tmpl",f->isTemplated()||f->getDescribedFunctionTemplate()!=nullptr},{"name",qn(f)},{"at",where(f->getCanonicalDecl()->getLocation())},{"def",f->isDefined()||f->isDefaulted()||f->isDeleted()||pure},{"friend",f->getFriendObjectKind()!=Decl::FOK_None},{"priv",isa<CXXMethodDecl>(f)&&f->getAccess()==AS_private}}); }
    return true; }
  void ref(const FunctionDecl*f){ if(!cur||!f) return; auto*p=pat(f); if(!ours(p->getLocation())) return; emit(Object{{"k","ref"},{"from",fid(cur)},{"to",id(p)}}); }
  bool VisitDeclRefExpr(DeclRefExpr*e){ ref(dyn_cast<FunctionDecl>(e->getDecl())); return true; }
  bool VisitMemberExpr(MemberExpr*e){ ref(dyn_cast<FunctionDecl>(e->getMemberDecl())); return true; }
  bool VisitCXXMethodDecl(CXXMethodDecl*m){ if(ours(m->getLocation())) for(auto*o:m->overridden_methods()) emit(Object{{"k","ref"},{"from",fid(o)},{"to",fid(m)}}); return true; }
  // ---- state
  static bool constant(QualType t,ASTContext&C){ t=C.getBaseElementType(t); return t.isConstQualified()||(t->isReferenceType()); }
  // does the initialiser of a function-local static depend on the call that happens to come first?
  struct Dep: RecursiveASTVisitor<Dep> { bool d=false; bool VisitDeclRefExpr(DeclRefExpr*e){ if(auto*v=dyn_cast<VarDecl>(e->getDecl())) if(v->hasLocalStorage()) d=true; return true; } bool VisitCXXThisExpr(CXXThisExpr*){ d=true; return true; } bool TraverseLambdaExpr(LambdaExpr*l){ for(auto&c:l->captures()) if(c.capturesThis()||(c.capturesVariable()&&isa<VarDecl>(c.getCapturedVar())&&cast<VarDecl>(c.getCapturedVar())->hasLocalStorage())) d=true; return true; } };
  bool initdep(VarDecl*v){ if(!v->isLocalVarDecl()||!v->getInit()||v->isConstexpr()) return false; Dep x; x.TraverseStmt(const_cast<Expr*>(v->getInit())); return x.d; }
  bool VisitVarDecl(VarDecl*v){ if(!v->hasGlobalStorage()||!ours(v->getLocation())||isa<ParmVarDecl>(v)) return true; 
    emit(Object{{"k","static"},{"id",id(v)},{"name",qn(v)},{"type",tname(v->getType())},{"const",constant(v->getType(),C)},{"constexpr",v->isConstexpr()},{"tls",v->getTLSKind()!=VarDecl::TLS_None},{"local",v->isLocalVarDecl()},{"init",initdep(v)},{"fn",cur?fid(cur):""},{"in",in()},{"at",where(v->getLocation())}}); return true; }
  bool VisitFieldDecl(FieldDecl*f){ if(f->isMutable()&&ours(f->getLocation())) emit(Object{{"k","mutable"},{"id",id(f)},{"name",qn(f)},{"at",where(f->getLocation())}}); return true; }
  // ---- casts that drop const
  bool drops(QualType a,QualType b){ for(int i=0;i<4;++i){ if(b->isReferenceType()) b=b.getNonReferenceType(); if(a->isReferenceType()) a=a.getNonReferenceType(); if(i==0&&!(b->isPointerType()&&a->isPointerType())) return a.isConstQualified()&&!b.isConstQualified(); if(!(a->isPointerType()&&b->isPointerType())) return false; a=a->getPointeeType(); b=b->getPointeeType(); if(a.isConstQualified()&&!b.isConstQualified()) return true; } return false; }
  bool dropping(const ExplicitCastExpr*e){ QualType from=e->getSubExprAsWritten()->getType(),to=e->getTypeAsWritten(); bool d=false;
    if(isa<CXXConstCastExpr>(e)||isa<CStyleCastExpr>(e)||isa<CXXFunctionalCastExpr>(e)){ if(to->isReferenceType()) d=from.isConstQualified()&&!to.getNonReferenceType().isConstQualified(); else if(to->isPointerType()&&from->isPointerType()) d=drops(from,to); } return d; }
  bool VisitExplicitCastExpr(ExplicitCastExpr*e){ if(!ours(e->getExprLoc())) return true; QualType from=e->getSubExprAsWritten()->getType(),to=e->getTypeAsWritten();
    if(dropping(e)) { std::string ft=tname(from),tt=tname(to); QualType pt=to->isPointerType()||to->isReferenceType()?to->getPointeeType():to; emit(Object{{"k","cast"},{"from",ft},{"to",tt},{"geo",geo(pt->getAsCXXRecordDecl())},{"in",in()},{"at",where(e->getExprLoc())}}); } return true; }
  // ---- what is written, and where pointers go
  bool geo(const CXXRecordDecl*r){ if(!r||!r->hasDefinition()) return false; std::string n=r->getNameAsString(); if(n=="CollisionGeometry"||n=="CollisionObject") return true; for(auto&b:r->bases()) if(geo(b.getType()->getAsCXXRecordDecl())) return true; return false; }
  static bool smart(QualType t){ auto*c=dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl()); if(!c) return false; auto n=c->getNameAsString(); if(n!="unique_ptr"&&n!="shared_ptr") return false; auto&a=c->getTemplateArgs(); return a.size()&&a[0].getKind()==TemplateArgument::Type&&!a[0].getAsType().isConstQualified(); }
  struct R { const ValueDecl*root=nullptr; bool deref=false; std::vector<std::string> via; bool cgeo=false; bool cc=false; std::string mut; };
  // the lvalue (or pointer) an expression designates: the object it is part of, and the pointers followed on the way
  void walk(const Expr*e,R&r,bool ptr){ if(!e) return; e=e->IgnoreParens();
    if(auto*c=dyn_cast<CastExpr>(e)){ if(auto*x=dyn_cast<ExplicitCastExpr>(c)) if(dropping(x)) r.cc=true; if(c->getCastKind()==CK_ArrayToPointerDecay) return walk(c->getSubExpr(),r,false); return walk(c->getSubExpr(),r,ptr||c->getCastKind()==CK_LValueToRValue); }
    if(auto*m=dyn_cast<MemberExpr>(e)){ if(auto*fd=dyn_cast<FieldDecl>(m->getMemberDecl())){ bool gm=geo(dyn_cast<CXXRecordDecl>(fd->getParent())); QualType bt=m->getBase()->getType(); if(m->isArrow()) bt=bt->getPointeeType(); bool cb=bt.isConstQualified(); if(fd->isMutable()&&cb&&gm) r.mut=id(fd);
        if(ptr){ r.via.push_back(id(fd)); r.deref=true; if(gm&&cb&&((fd->getType()->isPointerType()&&!fd->getType()->getPointeeType().isConstQualified())||smart(fd->getType()))){ r.cgeo=true; } }
        if(m->isArrow()) { walk(m->getBase(),r,true); } else walk(m->getBase(),r,false); } else if(auto*vd=dyn_cast<VarDecl>(m->getMemberDecl())) r.root=vd; return; }
    if(auto*a=dyn_cast<ArraySubscriptExpr>(e)) return walk(a->getBase(),r,true);
    if(auto*u=dyn_cast<UnaryOperator>(e)){ if(u->getOpcode()==UO_Deref) return walk(u->getSubExpr(),r,true); if(u->getOpcode()==UO_AddrOf) return walk(u->getSubExpr(),r,false); if(u->isIncrementDecrementOp()) return walk(u->getSubExpr(),r,ptr); return; }
    if(auto*b=dyn_cast<BinaryOperator>(e)){ if(b->isAssignmentOp()) return walk(b->getLHS(),r,ptr); if(b->isAdditiveOp()&&b->getLHS()->getType()->isPointerType()) return walk(b->getLHS(),r,ptr); if(b->getOpcode()==BO_Comma) return walk(b->getRHS(),r,ptr); return; }
    if(auto*c=dyn_cast<ConditionalOperator>(e)){ walk(c->getTrueExpr(),r,ptr); R q; walk(c->getFalseExpr(),q,ptr); r.cgeo|=q.cgeo; for(auto&x:q.via) r.via.push_back(x); if(!r.root) r.root=q.root; return; }
    if(auto*d=dyn_cast<DeclRefExpr>(e)){ if(ptr){ r.via.push_back(id(d->getDecl())); r.deref=true; } if(d->getDecl()->getType()->isReferenceType()) r.via.push_back(id(d->getDecl())); r.root=d->getDecl(); return; }
    if(isa<CXXThisExpr>(e)) { return; }
    if(auto*o=dyn_cast<CXXOperatorCallExpr>(e)){ auto k=o->getOperator(); if(o->getNumArgs()>0&&(k==OO_Subscript||k==OO_Call||k==OO_Star||k==OO_Arrow)) return walk(o->getArg(0),r,(k==OO_Star||k==OO_Arrow)&&(ptr||o->getArg(0)->IgnoreParenImpCasts()->getType()->isRecordType())); if(auto*f=o->getDirectCallee()){ r.via.push_back(fid(f)); } return; }
    if(auto*c=dyn_cast<CXXMemberCallExpr>(e)){ if(auto*f=c->getMethodDecl()){ if(ours(f->getLocation())||ours(f->getCanonicalDecl()->getLocation())){ r.via.push_back(fid(f)); if(f->getReturnType()->isReferenceType()) walk(c->getImplicitObjectArgument(),r,false); return; } if(f->getReturnType()->isReferenceType()||f->getReturnType()->isRecordType()||f->getReturnType()->isPointerType()) walk(c->getImplicitObjectArgument(),r,false); } return; }
    if(auto*c=dyn_cast<CallExpr>(e)){ if(auto*f=c->getDirectCallee()){ r.via.push_back(fid(f)); } return; }
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)) return walk(x->getSubExpr(),r,ptr); if(auto*x=dyn_cast<ExprWithCleanups>(e)) return walk(x->getSubExpr(),r,ptr); if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) return walk(x->getSubExpr(),r,ptr);
  }
  void sink(const Expr*e,SourceLocation l,const char*how,bool ptr=false){ if(!ours(l)) return; R r; walk(e,r,ptr); bool st=false; std::string root; if(auto*v=dyn_cast_or_null<VarDecl>(r.root)){ st=v->hasGlobalStorage(); root=id(v); }
    if(!st&&r.via.empty()&&!r.cgeo&&!r.cc&&r.mut.empty()) return; Value via=llvm::json::Array(r.via); emit(Object{{"k","write"},{"how",how},{"static",st},{"root",root},{"via",std::move(via)},{"cgeo",r.cgeo},{"cc",r.cc},{"mut",r.mut},{"fn",cur?fid(cur):""},{"in",in()},{"at",where(l)}}); }
  // p := e, a pointer (or reference) copied
  void flow(const std::string&to,QualType t,const Expr*e,SourceLocation l,const std::string&ton){ if(!e||!ours(l)) return; bool ref=t->isReferenceType(); if(!t->isPointerType()&&!ref) return; if(t->getPointeeType().isConstQualified()||t->getPointeeType()->isFunctionType()) return; R r; walk(e,r,!ref&&t->isPointerType()); if(r.via.empty()&&!r.cgeo&&r.mut.empty()&&!(r.root&&isa<VarDecl>(r.root)&&cast<VarDecl>(r.root)->hasGlobalStorage())) return;
    std::string root; bool st=false; if(auto*v=dyn_cast_or_null<VarDecl>(r.root)){ st=v->hasGlobalStorage(); root=id(v); } Value via=llvm::json::Array(r.via); emit(Object{{"k","flow"},{"to",to},{"toname",ton},{"via",std::move(via)},{"cgeo",r.cgeo||!r.mut.empty()},{"cc",r.cc},{"static",st},{"root",root},{"fn",cur?fid(cur):""},{"in",in()},{"at",where(l)}}); }
  bool VisitBinaryOperator(BinaryOperator*b){ if(!b->isAssignmentOp()) return true; { std::string lit; const Expr*rh=b->getRHS()->IgnoreParenImpCasts(); if(auto*x=dyn_cast<CXXBoolLiteralExpr>(rh)) lit=x->getValue()?"true":"false"; memop(b->getLHS(),"="+lit,b->getOperatorLoc()); } sink(b->getLHS(),b->getOperatorLoc(),"assignment"); if(b->getOpcode()==BO_Assign&&b->getLHS()->getType()->isPointerType()){ const Expr*l=b->getLHS()->IgnoreParens(); if(auto*m=dyn_cast<MemberExpr>(l)) flow(id(m->getMemberDecl()),l->getType(),b->getRHS(),b->getOperatorLoc(),m->getMemberDecl()->getNameAsString()); else if(auto*d=dyn_cast<DeclRefExpr>(l)) flow(id(d->getDecl()),l->getType(),b->getRHS(),b->getOperatorLoc(),d->getDecl()->getNameAsString()); } return true; }
  bool VisitCompoundAssignOperator(CompoundAssignOperator*b){ return true; }
  bool VisitUnaryOperator(UnaryOperator*u){ if(u->isIncrementDecrementOp()) sink(u->getSubExpr(),u->getOperatorLoc(),"increment"); return true; }
  bool VisitVarDecl2(VarDecl*v){ return true; }
  bool VisitDeclStmt(DeclStmt*s){ for(auto*d:s->decls()) if(auto*v=dyn_cast<VarDecl>(d)) if(v->getInit()) flow(id(v),v->getType(),v->getInit(),v->getLocation(),v->getNameAsString()); return true; }
  bool VisitCXXConstructorDecl(CXXConstructorDecl*c){ for(auto*i:c->inits()) if(i->isAnyMemberInitializer()&&i->getInit()) flow(id(i->getAnyMember()),i->getAnyMember()->getType(),i->getInit(),i->getSourceLocation().isValid()?i->getSourceLocation():c->getLocation(),i->getAnyMember()->getNameAsString()); return true; }
  bool VisitReturnStmt(ReturnStmt*s){ if(cur&&s->getRetValue()){ flow(fid(cur),cur->getReturnType(),s->getRetValue(),s->getReturnLoc(),cur->getNameAsString()); } return true; }
  void args(const FunctionDecl*f,llvm::ArrayRef<const Expr*> a,SourceLocation l,unsigned skip=0){ if(!f) return; const FunctionDecl*p=f->getTemplateInstantiationPattern(); const FunctionDecl*d=f; if(p) d=p; const FunctionDecl*df=nullptr; if(d->isDefined(df)) d=df; bool lib=ours(f->getCanonicalDecl()->getLocation()); static const std::set<std::string> RD={"copy","copy_n","accumulate","min_element","max_element","distance","find","find_if","count","equal","uninitialized_copy","copy_backward","move","forward","for_each","any_of","all_of","none_of"}; bool rd=!lib&&RD.count(f->getNameAsString());
    for(unsigned i=skip;i<a.size()&&i-skip<f->getNumParams();++i){ auto*pp=f->getParamDecl(i-skip); QualType t=pp->getType(); if(!(t->isPointerType()||t->isReferenceType())||t->getPointeeType().isConstQualified()||t->isRValueReferenceType()||t->getPointeeType()->isFunctionType()) continue;
      memop(a[i],"pass",l); if(rd&&i<2) continue; if(lib&&i-skip<d->getNumParams()) flow(id(d->getParamDecl(i-skip)),t,a[i],l,pp->getNameAsString()); else sink(a[i],l,"argument",t->isPointerType()); } }
  bool VisitCXXMemberCallExpr(CXXMemberCallExpr*c){ auto*f=c->getMethodDecl(); if(!f) return true; if(c->getImplicitObjectArgument()) memop(c->getImplicitObjectArgument(),f->getNameAsString(),c->getExprLoc()); afterErase(c); if(!f->isConst()&&!f->isStatic()&&!isa<CXXDestructorDecl>(f)){ bool acc=!ours(f->getCanonicalDecl()->getLocation())&&(f->getReturnType()->isReferenceType()||f->getReturnType()->isRecordType()||f->getReturnType()->isPointerType()); // accessors: what is done with the result counts
      static const std::set<std::string> A={"begin","end","rbegin","rend","data","at","front","back","get","find","row","col","block","head","tail","segment","coeffRef","linear","translation","matrix","array","transpose","top","rows","cols","diagonal","coeff","derived","noalias"}; if(!(acc&&A.count(f->getNameAsString()))) sink(c->getImplicitObjectArgument(),c->getExprLoc(),"call",c->getImplicitObjectArgument()->getType()->isPointerType()); }
    std::vector<const Expr*> a(c->arg_begin(),c->arg_end()); args(f,a,c->getExprLoc()); return true; }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr*c){ if(c->getNumArgs()>0&&(c->getOperator()==OO_Equal||c->getOperator()==OO_Subscript)) memop(c->getArg(0),c->getOperator()==OO_Equal?"=":"[]",c->getExprLoc()); auto*f=dyn_cast_or_null<CXXMethodDecl>(c->getDirectCallee()); auto k=c->getOperator(); if(f&&!f->isConst()&&c->getNumArgs()>0&&k!=OO_Subscript&&k!=OO_Call&&k!=OO_Star&&k!=OO_Arrow) sink(c->getArg(0),c->getExprLoc(),"operator");
    return true; }
  bool VisitCallExpr2(CallExpr*c){ return true; }
  bool TraverseCallExpr(CallExpr*c){ if(auto*f=c->getDirectCallee()){ std::vector<const Expr*> a(c->arg_begin(),c->arg_end()); args(f,a,c->getExprLoc()); } return RecursiveASTVisitor::TraverseCallExpr(c); }
  bool VisitCXXConstructExpr(CXXConstructExpr*c){ ref(c->getConstructor()); std::vector<const Expr*> a(c->arg_begin(),c->arg_end()); args(c->getConstructor(),a,c->getExprLoc()); return true; }
  // ---- operations on the members of the class a method belongs to
  std::string sub(const Expr*i){ if(!i) return "*"; i=i->IgnoreParenImpCasts(); Expr::EvalResult v; if(!i->isValueDependent()&&i->EvaluateAsInt(v,C)) { llvm::SmallString<16> t; v.Val.getInt().toString(t); return t.str().str(); } return "*"; }
  std::string ix; 
  const FieldDecl*member(const Expr*e,bool&idx){ idx=false; ix=""; for(int i=0;i<12&&e;++i){ e=e->IgnoreParenImpCasts(); if(auto*m=dyn_cast<MemberExpr>(e)){ auto*f=dyn_cast<FieldDecl>(m->getMemberDecl()); if(f&&isa<CXXThisExpr>(m->getBase()->IgnoreParenImpCasts())) return f; return nullptr; }
      if(auto*a=dyn_cast<ArraySubscriptExpr>(e)){ ix=sub(a->getIdx()); e=a->getBase(); idx=true; } else if(auto*u=dyn_cast<UnaryOperator>(e)) e=u->getSubExpr(); else if(auto*o=dyn_cast<CXXOperatorCallExpr>(e)){ if(o->getNumArgs()&&(o->getOperator()==OO_Subscript||o->getOperator()==OO_Star||o->getOperator()==OO_Arrow)) { e=o->getArg(0); idx=true; } else return nullptr; }
      else if(auto*d=dyn_cast<DeclRefExpr>(e)){ auto*v=dyn_cast<VarDecl>(d->getDecl()); if(v&&v->getType()->isReferenceType()&&v->hasInit()&&v->hasLocalStorage()) e=v->getInit(); else return nullptr; }
      else return nullptr; } return nullptr; }
  // fields named anywhere in an initialiser list a range-for loop runs over: for(auto* v : {&a, &b}) v->op(..)
  void fieldsIn(const Stmt*s,std::vector<const FieldDecl*>&o){ if(!s) return; if(auto*m=dyn_cast<MemberExpr>(s)) if(auto*f=dyn_cast<FieldDecl>(m->getMemberDecl())) o.push_back(f); for(auto*c:s->children()) fieldsIn(c,o); }
  std::vector<const FieldDecl*> aliased(const Expr*e){ std::vector<const FieldDecl*> o; e=e->IgnoreParenImpCasts(); if(auto*u=dyn_cast<UnaryOperator>(e)) e=u->getSubExpr()->IgnoreParenImpCasts(); auto*d=dyn_cast<DeclRefExpr>(e); if(!d) return o; auto*v=dyn_cast<VarDecl>(d->getDecl()); if(!v||!v->hasLocalStorage()) return o;
    DynTypedNodeList ps=C.getParents(*v); for(int k=0;k<3&&!ps.empty();++k){ if(auto*f=ps[0].get<CXXForRangeStmt>()){ fieldsIn(f->getRangeInit(),o); return o; } ps=C.getParents(ps[0]); } if(v->hasInit()&&(v->getType()->isPointerType()||v->getType()->isReferenceType())) fieldsIn(v->getInit(),o); return o; }
  void memop(const Expr*obj,const std::string&op,SourceLocation l,QualType ft=QualType()){ if(!cur||!ours(l)) return; bool ixb; std::vector<const FieldDecl*> fs; std::string ix2; if(auto*f=member(obj,ixb)) { fs.push_back(f); ix2=ix; } else fs=aliased(obj); for(auto*f:fs){ auto*cls=dyn_cast<CXXRecordDecl>(f->getParent()); emit(Object{{"k","memop"},{"field",id(f)},{"name",f->getNameAsString()},{"cls",cls?cls->getNameAsString():""},{"type",tname(f->getType())},{"ix",fs.size()==1&&ix2.size()?ix2:"*"},{"op",op},{"fn",fid(cur)},{"in",in()},{"at",where(l)}}); } }
  bool VisitArraySubscriptExpr(ArraySubscriptExpr*a){ return true; }
  // ---- iterators used after the element was erased
  bool refs(const Stmt*s,const VarDecl*v,bool&assigned){ if(!s) return false; if(auto*b=dyn_cast<BinaryOperator>(s)) if(b->getOpcode()==BO_Assign) if(auto*d=dyn_cast<DeclRefExpr>(b->getLHS()->IgnoreParenImpCasts())) if(d->getDecl()==v){ if(refs(b->getRHS(),v,assigned)) return true; assigned=true; return false; }
    if(auto*o=dyn_cast<CXXOperatorCallExpr>(s)) if(o->getOperator()==OO_Equal&&o->getNumArgs()==2) if(auto*d=dyn_cast<DeclRefExpr>(o->getArg(0)->IgnoreParenImpCasts())) if(d->getDecl()==v){ if(refs(o->getArg(1),v,assigned)) return true; assigned=true; return false; }
    if(auto*d=dyn_cast<DeclRefExpr>(s)) return d->getDecl()==v; for(auto*c:s->children()){ if(refs(c,v,assigned)) return true; if(assigned) return false; } return false; }
  static bool jumps(const Stmt*s){ return isa<ReturnStmt>(s)||isa<BreakStmt>(s)||isa<ContinueStmt>(s)||isa<CXXThrowExpr>(s); }
  void afterErase(CXXMemberCallExpr*c){ auto*f=c->getMethodDecl(); if(!f||f->getNameAsString()!="erase"||c->getNumArgs()!=1||!ours(c->getExprLoc())||ours(f->getLocation())) return; const Expr*a=c->getArg(0)->IgnoreParenImpCasts(); for(int k=0;k<4;++k){ if(auto*x=dyn_cast<CXXConstructExpr>(a)){ if(!x->getNumArgs()) return; a=x->getArg(0)->IgnoreParenImpCasts(); } else if(auto*m=dyn_cast<MaterializeTemporaryExpr>(a)) a=m->getSubExpr()->IgnoreParenImpCasts(); } auto*d=dyn_cast<DeclRefExpr>(a); if(!d) return; auto*v=dyn_cast<VarDecl>(d->getDecl()); if(!v||!v->hasLocalStorage()) return; std::string tn=tname(v->getType()); if(tn.find("terator")==std::string::npos) return;
    emit(Object{{"k","erase"},{"at",where(c->getExprLoc())},{"in",in()},{"var",v->getNameAsString()}});
    DynTypedNode n=DynTypedNode::create(*c); const Stmt*child=c; bool brk=false; for(int depth=0;depth<60;++depth){ auto ps=C.getParents(n); if(ps.empty()) return; const Stmt*p=ps[0].get<Stmt>(); if(!p){ if(ps[0].get<Decl>()&&isa<VarDecl>(ps[0].get<Decl>())){ n=ps[0]; continue; } return; }
      bool as=false; if(auto*o=dyn_cast<CXXOperatorCallExpr>(p)) if(o->getOperator()==OO_Equal) if(auto*l=dyn_cast<DeclRefExpr>(o->getArg(0)->IgnoreParenImpCasts())) if(l->getDecl()==v) return;
      if(auto*cs=dyn_cast<CompoundStmt>(p)){ bool on=false; for(auto*s:cs->body()){ if(s==child){ on=true; continue; } if(!on) continue; if(isa<BreakStmt>(s)){ brk=true; break; } if(isa<ContinueStmt>(s)) { brk=false; on=false; break; } if(refs(s,v,as)){ emit(Object{{"k","aftererase"},{"at",where(s->getBeginLoc())},{"in",in()},{"var",v->getNameAsString()}}); return; } if(as||jumps(s)) return; } }
      else if(auto*fs=dyn_cast<ForStmt>(p)){ if(!brk&&child==fs->getBody()){ if(refs(fs->getInc(),v,as)||(!as&&refs(fs->getCond(),v,as))){ emit(Object{{"k","aftererase"},{"at",where(fs->getBeginLoc())},{"in",in()},{"var",v->getNameAsString()}}); return; } if(as) return; } brk=false; }
      else if(auto*ws=dyn_cast<WhileStmt>(p)){ if(!brk&&child==ws->getBody()){ if(refs(ws->getCond(),v,as)||refs(ws->getBody(),v,as)){ emit(Object{{"k","aftererase"},{"at",where(ws->getBeginLoc())},{"in",in()},{"var",v->getNameAsString()}}); return; } if(as) return; } brk=false; }
      child=p; n=DynTypedNode::create(*p); } }
  bool VisitCXXDeleteExpr(CXXDeleteExpr*e){ sink(e->getArgument(),e->getExprLoc(),"delete",true); memop(e->getArgument(),e->isArrayForm()?"delete[]":"delete",e->getExprLoc()); return true; }
};
struct Con: ASTConsumer { void HandleTranslationUnit(ASTContext&c) override { V v(c); v.TraverseDecl(c.getTranslationUnitDecl()); } };
struct Act: ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,llvm::StringRef) override { return std::make_unique<Con>(); } };
int main(int n,char**v){ std::string out=v[1],r=v[2]; size_t i=0; while(i<=r.size()){ size_t j=r.find(',',i); if(j==std::string::npos) j=r.size(); roots.push_back(r.substr(i,j-i)); i=j+1; }
  std::string file=v[3]; std::vector<std::string> fl; for(int k=5;k<n;++k) fl.push_back(v[k]); fl.push_back("-fsyntax-only"); fl.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
  tooling::FixedCompilationDatabase db(".",fl); tooling::ClangTool t(db,{file}); int rc=t.run(tooling::newFrontendActionFactory<Act>().get());
  std::error_code ec; llvm::raw_fd_ostream o(out,ec); for(auto&s:lines) o<<s<<"\n"; return rc; }
