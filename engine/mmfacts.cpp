// mmfacts: dumps the resolved program (AST after template instantiation, CFGs, records) of the functions
// whose definitions lie under given path prefixes, as JSON.  A libTooling front end; the rules are in Python.
//
//   mmfacts OUT.json PREFIX[,PREFIX...] FILE -- clang-args
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutPath;
static bool HadErrors = false;

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> Ids;
    std::map<std::string, int> TypeIds;
    std::vector<std::pair<std::string, std::string>> Types;
    std::map<std::string, int> FileIds;
    std::vector<std::string> Files;
    json::Array Functions, Records, Globals;
    std::set<const Decl *> DoneF, DoneR, DoneG;
    std::vector<const Decl *> ExtQueue;
    std::map<const Stmt *, int> StmtIds;
    int NextStmt = 0;

    Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    bool mine(SourceLocation L) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        StringRef F = SM.getFilename(L);
        for (auto &P : Prefixes)
            if (F.starts_with(P)) return true;
        return false;
    }
    int fileId(SourceLocation L) {
        std::string F = SM.getFilename(SM.getExpansionLoc(L)).str();
        auto it = FileIds.find(F);
        if (it != FileIds.end()) return it->second;
        int n = Files.size();
        FileIds[F] = n;
        Files.push_back(F);
        return n;
    }
    int line(SourceLocation L) {
        if (L.isInvalid()) return 0;
        return SM.getExpansionLineNumber(L);
    }
    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = Ids.size() + 1;
        Ids[D] = n;
        if (isa<FunctionDecl>(D)) ExtQueue.push_back(D);
        return n;
    }
    int type(QualType T) {
        if (T.isNull()) return -1;
        std::string w = T.getAsString(PP), c = T.getCanonicalType().getAsString(PP);
        std::string key = w + "\x01" + c;
        auto it = TypeIds.find(key);
        if (it != TypeIds.end()) return it->second;
        int n = Types.size();
        TypeIds[key] = n;
        Types.push_back({w, c});
        return n;
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string pattern(const FunctionDecl *F) {
        // qualified name without template arguments of enclosing classes
        std::string s = F->getNameAsString();
        const DeclContext *DC = F->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamedDecl>(DC)) {
                std::string n = N->getNameAsString();
                if (!n.empty()) s = n + "::" + s;
                else if (isa<CXXRecordDecl>(N)) s = "(lambda)::" + s;
            }
            DC = DC->getParent();
        }
        return s;
    }

    static const Stmt *strip(const Stmt *S) {
        while (S) {
            if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
            else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) S = E->getSubExpr();
            else if (auto *E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
            else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
            else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (!E->getSourceExpr()) return S; S = E->getSourceExpr(); }
            else return S;
        }
        return S;
    }
    int sid(const Stmt *S) {
        auto it = StmtIds.find(S);
        if (it != StmtIds.end()) return it->second;
        return StmtIds[S] = NextStmt++;
    }

    json::Value varNode(const VarDecl *V) {
        json::Object o;
        o["k"] = "Var";
        o["d"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        o["l"] = line(V->getLocation());
        if (V->isStaticLocal()) o["static"] = true;
        json::Array c;
        if (V->hasInit()) c.push_back(node(V->getInit()));
        o["c"] = std::move(c);
        return json::Value(std::move(o));
    }

    json::Value node(const Stmt *S0) {
        if (!S0) return nullptr;
        bool rv = false, implicitConv = false;
        std::string ck;
        for (const Stmt *S = S0; S;) {  // note lvalue-to-rvalue conversions on the way
            if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
                if (E->getCastKind() == CK_LValueToRValue) rv = true;
                else if (E->getCastKind() == CK_IntegralToBoolean || E->getCastKind() == CK_PointerToBoolean) implicitConv = true;
                if (E->getCastKind() == CK_UserDefinedConversion || E->getCastKind() == CK_IntegralCast ||
                    E->getCastKind() == CK_FloatingToIntegral || E->getCastKind() == CK_IntegralToFloating)
                    ck = E->getCastKindName();
                S = E->getSubExpr();
            } else if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
            else break;
        }
        const Stmt *S = strip(S0);
        json::Object o;
        o["i"] = sid(S);
        o["k"] = S->getStmtClassName();
        o["l"] = line(S->getBeginLoc());
        if (rv) o["rv"] = 1;
        if (!ck.empty()) o["ick"] = ck;
        (void)implicitConv;
        if (auto *E = dyn_cast<Expr>(S)) o["t"] = type(E->getType());
        json::Array c;
        auto kids = [&]() {
            for (const Stmt *K : S->children()) c.push_back(node(K));
        };
        if (auto *E = dyn_cast<DeclRefExpr>(S)) {
            o["d"] = id(E->getDecl());
            o["n"] = E->getDecl()->getNameAsString();
            o["dk"] = E->getDecl()->getDeclKindName();
            if (!isa<ParmVarDecl>(E->getDecl()) && !(isa<VarDecl>(E->getDecl()) && cast<VarDecl>(E->getDecl())->isLocalVarDecl()))
                o["q"] = qname(E->getDecl());
            if (auto *EC = dyn_cast<EnumConstantDecl>(E->getDecl())) o["v"] = (int64_t)EC->getInitVal().getExtValue();
        } else if (auto *E = dyn_cast<MemberExpr>(S)) {
            o["d"] = id(E->getMemberDecl());
            o["n"] = E->getMemberDecl()->getNameAsString();
            o["dk"] = E->getMemberDecl()->getDeclKindName();
            if (E->isArrow()) o["arrow"] = 1;
            o["q"] = qname(E->getMemberDecl());
            kids();
        } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
            o["f"] = id(E->getCallOperator());
            json::Array caps;
            auto it = E->capture_init_begin();
            for (auto &C : E->captures()) {
                json::Object co;
                if (C.capturesThis()) co["by"] = "this";
                else if (C.capturesVariable()) {
                    co["by"] = C.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    co["d"] = id(C.getCapturedVar());
                    co["n"] = C.getCapturedVar()->getNameAsString();
                }
                if (it != E->capture_init_end()) { co["init"] = node(*it); ++it; }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto *E = dyn_cast<CallExpr>(S)) {
            if (auto *F = E->getDirectCallee()) {
                o["f"] = id(F);
                o["q"] = qname(F);
                o["n"] = F->getNameAsString();
                if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
                    if (M->isVirtual()) {
                        bool qual = false;
                        if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParenImpCasts())) qual = ME->hasQualifier();
                        if (!qual) o["virt"] = 1;
                    }
                }
            }
            if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
            kids();
        } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
            o["f"] = id(E->getConstructor());
            o["q"] = qname(E->getConstructor());
            o["cls"] = qname(E->getConstructor()->getParent());
            if (E->isElidable()) o["elide"] = 1;
            kids();
        } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
            o["op"] = E->getOpcodeStr().str();
            kids();
        } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
            o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
            o["post"] = E->isPostfix();
            kids();
        } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
            llvm::SmallString<32> s;
            E->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
        } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
            o["v"] = E->getValueAsApproximateDouble();
        } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
            o["v"] = E->getValue() ? "true" : "false";
        } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
            o["v"] = std::to_string(E->getValue());
        } else if (auto *E = dyn_cast<StringLiteral>(S)) {
            if (E->isOrdinary() || E->isUTF8()) {
                std::string v = E->getString().str();
                if (!json::isUTF8(v)) v = json::fixUTF8(v);
                o["v"] = v;
            }
        } else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
            o["ck"] = E->getCastKindName();
            o["to"] = type(E->getTypeAsWritten());
            kids();
        } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
            c.push_back(node(E->getExpr()));
        } else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
            c.push_back(node(E->getExpr()));
        } else if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
            if (E->getSubExpr()) o["et"] = type(E->getSubExpr()->getType());
            kids();
        } else if (auto *E = dyn_cast<CXXCatchStmt>(S)) {
            if (!E->getCaughtType().isNull()) o["et"] = type(E->getCaughtType());
            kids();
        } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
            o["array"] = E->isArray();
            o["at"] = type(E->getAllocatedType());
            kids();
        } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
            o["array"] = E->isArrayForm();
            kids();
        } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            if (E->isArgumentType()) o["at"] = type(E->getArgumentType());
            else kids();
        } else if (auto *D = dyn_cast<DeclStmt>(S)) {
            for (auto *X : D->decls())
                if (auto *V = dyn_cast<VarDecl>(X)) c.push_back(varNode(V));
        } else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
            // children: range-init, loop variable, body
            c.push_back(R->getRangeInit() ? node(R->getRangeInit()) : json::Value(nullptr));
            c.push_back(varNode(R->getLoopVariable()));
            c.push_back(node(R->getBody()));
        } else if (auto *F = dyn_cast<ForStmt>(S)) {
            c.push_back(node(F->getInit()));
            c.push_back(node(F->getCond()));
            c.push_back(node(F->getInc()));
            c.push_back(node(F->getBody()));
        } else if (auto *F = dyn_cast<IfStmt>(S)) {
            if (F->isConstexpr()) o["constexpr"] = 1;
            c.push_back(node(F->getInit()));
            if (F->getConditionVariable()) c.push_back(varNode(F->getConditionVariable()));
            else c.push_back(node(F->getCond()));
            c.push_back(node(F->getThen()));
            c.push_back(node(F->getElse()));
        } else if (auto *F = dyn_cast<WhileStmt>(S)) {
            c.push_back(node(F->getCond()));
            c.push_back(node(F->getBody()));
        } else if (auto *F = dyn_cast<SwitchStmt>(S)) {
            c.push_back(node(F->getCond()));
            c.push_back(node(F->getBody()));
        } else if (auto *T = dyn_cast<InitListExpr>(S)) {
            for (auto *K : T->inits()) c.push_back(node(K));
        } else {
            kids();
        }
        if (!c.empty()) o["c"] = std::move(c);
        return json::Value(std::move(o));
    }

    static const Stmt *realStmt(const Stmt *S) { return S ? strip(S) : nullptr; }

    json::Value cfg(const FunctionDecl *F) {
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddTemporaryDtors = false;
        BO.AddInitializers = true;
        BO.AddEHEdges = false;
        BO.AddScopes = false;
        BO.PruneTriviallyFalseEdges = false;
        auto C = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
        if (!C) return nullptr;
        json::Array blocks;
        for (const CFGBlock *B : *C) {
            json::Object b;
            b["b"] = (int)B->getBlockID();
            json::Array es;
            for (auto &E : *B) {
                if (auto S = E.getAs<CFGStmt>()) {
                    const Stmt *R = realStmt(S->getStmt());
                    if (R == S->getStmt() && StmtIds.count(R)) es.push_back(StmtIds[R]);
                    else if (auto *DS = dyn_cast<DeclStmt>(S->getStmt())) {
                        // synthesised by the CFG builder for multi-declarations and range-for
                        if (DS->isSingleDecl())
                            if (auto *V = dyn_cast<VarDecl>(DS->getSingleDecl())) {
                                json::Object o;
                                o["decl"] = id(V);
                                es.push_back(std::move(o));
                            }
                    }
                } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
                    json::Object o;
                    o["dtor"] = id(D->getVarDecl());
                    es.push_back(std::move(o));
                } else if (auto I = E.getAs<CFGInitializer>()) {
                    json::Object o;
                    auto *CI = I->getInitializer();
                    if (CI->isAnyMemberInitializer()) o["init"] = CI->getAnyMember()->getNameAsString();
                    else o["init"] = "(base)";
                    es.push_back(std::move(o));
                }
            }
            b["e"] = std::move(es);
            if (const Stmt *L = B->getLabel()) {
                if (auto *CS = dyn_cast<CaseStmt>(L)) {
                    Expr::EvalResult R;
                    if (CS->getLHS() && CS->getLHS()->EvaluateAsInt(R, Ctx)) b["case"] = R.Val.getInt().getExtValue();
                    else b["case"] = "?";
                } else if (isa<DefaultStmt>(L)) b["case"] = "default";
            }
            if (const Stmt *T = B->getTerminatorStmt()) {
                b["tk"] = T->getStmtClassName();
                b["tl"] = line(T->getBeginLoc());
                const Stmt *R = realStmt(T);
                if (StmtIds.count(R)) b["ti"] = StmtIds[R];
                if (auto *Cnd = B->getTerminatorCondition(false)) {
                    const Stmt *RC = realStmt(Cnd);
                    if (StmtIds.count(RC)) b["tc"] = StmtIds[RC];
                }
            }
            json::Array ss;
            for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
                if (const CFGBlock *X = *It) ss.push_back((int)X->getBlockID());
                else if (const CFGBlock *X = It->getPossiblyUnreachableBlock()) ss.push_back((int)X->getBlockID());
                else ss.push_back(nullptr);
            }
            b["s"] = std::move(ss);
            if (B->hasNoReturnElement()) b["nr"] = 1;
            blocks.push_back(std::move(b));
        }
        json::Object o;
        o["entry"] = (int)C->getEntry().getBlockID();
        o["exit"] = (int)C->getExit().getBlockID();
        o["blocks"] = std::move(blocks);
        return json::Value(std::move(o));
    }

    json::Object declInfo(const FunctionDecl *F) {
        json::Object o;
        o["id"] = id(F);
        o["q"] = qname(F);
        o["p"] = pattern(F);
        o["n"] = F->getNameAsString();
        o["ret"] = type(F->getReturnType());
        json::Array ps;
        for (auto *P : F->parameters()) {
            json::Object po;
            po["d"] = id(P);
            po["n"] = P->getNameAsString();
            po["t"] = type(P->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
            auto E = FPT->getExceptionSpecType();
            bool nx = false;
            if (E != EST_Unevaluated && E != EST_Uninstantiated && E != EST_DependentNoexcept && E != EST_Unparsed)
                nx = FPT->isNothrow();
            else if (isa<CXXDestructorDecl>(F)) nx = true;
            o["noexcept"] = nx;
        }
        if (F->isVariadic()) o["variadic"] = 1;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["clsid"] = id(M->getParent());
            if (M->isVirtual()) o["virtual"] = 1;
            if (M->isStatic()) o["static"] = 1;
            if (M->isConst()) o["const"] = 1;
            json::Array ov;
            for (auto *X : M->overridden_methods()) ov.push_back(id(X));
            if (!ov.empty()) o["ov"] = std::move(ov);
            if (isa<CXXConstructorDecl>(M)) {
                o["kind"] = "ctor";
                auto *CD = cast<CXXConstructorDecl>(M);
                if (CD->isCopyConstructor()) o["copyctor"] = 1;
                if (CD->isMoveConstructor()) o["movector"] = 1;
            }
            else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
            else o["kind"] = "method";
            if (M->isCopyAssignmentOperator()) o["copyassign"] = 1;
            if (M->isMoveAssignmentOperator()) o["moveassign"] = 1;
            o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
        } else o["kind"] = "function";
        if (F->isDeleted()) o["deleted"] = 1;
        if (F->isDefaulted()) o["defaulted"] = 1;
        if (F->isImplicit()) o["implicit"] = 1;
        o["file"] = fileId(F->getLocation());
        o["line"] = line(F->getLocation());
        return o;
    }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
        if (F->isDependentContext()) return true;
        if (!mine(F->getLocation())) return true;
        if (!DoneF.insert(F->getCanonicalDecl()).second) return true;
        dumpFunction(F);
        return true;
    }
    void dumpFunction(const FunctionDecl *F) {
        json::Object o = declInfo(F);
        o["eline"] = line(F->getEndLoc());
        StmtIds.clear();
        NextStmt = 0;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array is;
            for (auto *I : CD->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) {
                    io["field"] = I->getAnyMember()->getNameAsString();
                    io["d"] = id(I->getAnyMember());
                } else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
                else io["delegate"] = 1;
                io["written"] = I->isWritten();
                io["e"] = node(I->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = node(F->getBody());
        o["cfg"] = cfg(F);
        Functions.push_back(std::move(o));
    }
    bool VisitLambdaExpr(LambdaExpr *L) {
        auto *F = L->getCallOperator();
        if (F && !F->isDependentContext() && F->hasBody() && mine(F->getLocation()) &&
            DoneF.insert(F->getCanonicalDecl()).second)
            dumpFunction(F);
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        return record(R);
    }
    bool VisitRecordDecl(RecordDecl *R) {
        if (isa<CXXRecordDecl>(R)) return true;
        if (!R->isThisDeclarationADefinition() || !mine(R->getLocation())) return true;
        if (!DoneR.insert(R->getCanonicalDecl()).second) return true;
        json::Object o;
        o["id"] = id(R);
        o["q"] = qname(R);
        o["n"] = R->getNameAsString();
        o["file"] = fileId(R->getLocation());
        o["line"] = line(R->getLocation());
        fields(R, o);
        Records.push_back(std::move(o));
        return true;
    }
    void fields(const RecordDecl *R, json::Object &o) {
        json::Array fs;
        for (auto *F : R->fields()) {
            json::Object fo;
            fo["d"] = id(F);
            fo["n"] = F->getNameAsString();
            fo["t"] = type(F->getType());
            fo["l"] = line(F->getLocation());
            if (F->isMutable()) fo["mutable"] = 1;
            if (F->hasInClassInitializer()) {
                if (auto *I = F->getInClassInitializer()) { StmtIds.clear(); NextStmt = 0; fo["init"] = node(I); }
                else fo["init"] = nullptr;
            }
            QualType T = F->getType();
            fo["pod"] = T->isScalarType();
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
    }
    bool record(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
        if (!mine(R->getLocation())) return true;
        if (!DoneR.insert(R->getCanonicalDecl()).second) return true;
        json::Object o;
        o["id"] = id(R);
        o["q"] = qname(R);
        o["n"] = R->getNameAsString();
        o["file"] = fileId(R->getLocation());
        o["line"] = line(R->getLocation());
        if (R->isLambda()) o["lambda"] = 1;
        json::Array bs;
        for (auto &B : R->bases()) {
            json::Object bo;
            bo["t"] = type(B.getType());
            if (auto *BR = B.getType()->getAsCXXRecordDecl()) { bo["id"] = id(BR); bo["q"] = qname(BR); }
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        fields(R, o);
        json::Array ms;
        for (auto *M : R->methods()) ms.push_back(id(M));
        o["methods"] = std::move(ms);
        bool copyDel = false;
        for (auto *C : R->ctors()) if (C->isCopyConstructor() && C->isDeleted()) copyDel = true;
        o["copyable"] = !(copyDel) && (R->hasSimpleCopyConstructor() || !R->defaultedCopyConstructorIsDeleted());
        o["userdtor"] = R->hasUserDeclaredDestructor();
        o["usercopy"] = R->hasUserDeclaredCopyConstructor();
        o["usercopyassign"] = R->hasUserDeclaredCopyAssignment();
        Records.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal() || !mine(V->getLocation())) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        if (!DoneG.insert(V->getCanonicalDecl()).second) return true;
        json::Object o;
        o["id"] = id(V);
        o["q"] = qname(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        o["file"] = fileId(V->getLocation());
        o["line"] = line(V->getLocation());
        o["const"] = V->getType().isConstQualified();
        StmtIds.clear();
        NextStmt = 0;
        if (V->hasInit()) o["init"] = node(V->getInit());
        Globals.push_back(std::move(o));
        return true;
    }

    void finish() {
        json::Array ext;
        for (size_t i = 0; i < ExtQueue.size(); i++) {
            auto *F = cast<FunctionDecl>(ExtQueue[i]);
            if (DoneF.count(F->getCanonicalDecl())) continue;
            ext.push_back(declInfo(F));
        }
        json::Array ty;
        for (auto &p : Types) ty.push_back(json::Array{p.first, p.second});
        json::Array fl;
        for (auto &f : Files) fl.push_back(f);
        json::Object root;
        root["functions"] = std::move(Functions);
        root["records"] = std::move(Records);
        root["globals"] = std::move(Globals);
        root["ext"] = std::move(ext);
        root["types"] = std::move(ty);
        root["files"] = std::move(fl);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << json::Value(std::move(root));
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { HadErrors = true; return; }
        Dumper D(C);
        D.TraverseDecl(C.getTranslationUnitDecl());
        D.finish();
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char **argv) {
    if (argc < 5) { llvm::errs() << "usage: mmfacts OUT PREFIXES FILE -- args\n"; return 2; }
    OutPath = argv[1];
    StringRef P = argv[2];
    llvm::SmallVector<StringRef, 8> parts;
    P.split(parts, ',', -1, false);
    for (auto &s : parts) Prefixes.push_back(s.str());
    std::string File = argv[3];
    std::vector<std::string> Args;
    for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Args);
    tooling::ClangTool T(DB, {File});
    int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
    if (HadErrors) return 1;
    return rc;
}
