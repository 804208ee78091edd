// tecsx: dumps the instantiated (non-dependent) function bodies of a translation unit as a typed JSON IR.
// Everything outside system headers is dumped; functions of system headers are referenced by qualified name only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace J = llvm::json;

namespace {
class Dumper {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    J::Object types, records, functions, globals;
    std::map<const Decl *, int> declIds;
    std::deque<const FunctionDecl *> todo;
    std::set<const FunctionDecl *> seenFn, refFn;
    std::set<const CXXRecordDecl *> seenRec;
    std::set<const VarDecl *> seenGlob;

    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
    }

    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int n = (int)declIds.size() + 1;
        declIds[D] = n;
        return n;
    }

    bool inSystem(const Decl *D) {
        SourceLocation L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return true;
        return SM.isInSystemHeader(L);
    }

    J::Value loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return nullptr;
        return (llvm::StringRef(P.getFilename()) + ":" + std::to_string(P.getLine())).str();
    }

    void templArg(J::Array &A, const TemplateArgument &T) {
        switch (T.getKind()) {
        case TemplateArgument::Type: A.push_back(J::Object{{"t", type(T.getAsType())}}); break;
        case TemplateArgument::Integral: { auto iv = T.getAsIntegral(); A.push_back(J::Object{{"i", iv.isRepresentableByInt64() ? (int64_t)iv.getExtValue() : (int64_t)-1}}); break; }
        case TemplateArgument::Pack:
            for (auto &X : T.pack_elements()) templArg(A, X);
            break;
        case TemplateArgument::Template: {
            std::string s; llvm::raw_string_ostream os(s); T.getAsTemplate().print(os, PP); A.push_back(J::Object{{"tmpl", s}}); break;
        }
        default: A.push_back(J::Object{{"?", (int)T.getKind()}});
        }
    }

    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P2 = PP;
        P2.SuppressInlineNamespace = true;
        // context without template args
        std::vector<std::string> parts;
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
            } else if (auto *R = dyn_cast<CXXRecordDecl>(DC)) {
                parts.push_back(R->isLambda() ? "<lambda>" : R->getNameAsString());
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(F->getNameAsString());
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        if (isa<CXXConstructorDecl>(D)) os << "(ctor)";
        else if (isa<CXXDestructorDecl>(D)) os << "(dtor)";
        else os << D->getNameAsString();
        os.flush();
        return s;
    }

    std::string type(QualType T) {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        if (auto *RT = T->getAs<RecordType>()) {
            if (auto *RD = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
                if (RD->isLambda()) {
                    std::string key = (T.isConstQualified() ? "const " : "") + std::string("lambda#") + std::to_string(id(RD));
                    if (!types.get(key)) {
                        types[key] = nullptr;
                        types[key] = J::Object{{"k", "rec"}, {"name", "lambda"}, {"rid", id(RD)}, {"user", true}, {"args", J::Array{}}, {"const", T.isConstQualified()}};
                        record(RD);
                    }
                    return key;
                }
            }
        }
        std::string key = T.getAsString(PP);
        if (types.get(key)) return key;
        types[key] = nullptr;
        J::Object o;
        o["const"] = T.isConstQualified();
        const Type *ty = T.getTypePtr();
        if (ty->isVoidType()) o["k"] = "void";
        else if (ty->isBooleanType()) o["k"] = "bool";
        else if (ty->isNullPtrType()) o["k"] = "nullptr";
        else if (auto *ET = ty->getAs<EnumType>()) {
            o["k"] = "enum"; o["name"] = qname(ET->getDecl());
            QualType U = ET->getDecl()->getIntegerType();
            if (!U.isNull()) { o["w"] = (int64_t)C.getTypeSize(U); o["s"] = U->isSignedIntegerType(); }
        } else if (ty->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(T); o["s"] = ty->isSignedIntegerType(); }
        else if (ty->isFloatingType()) o["k"] = "float";
        else if (ty->isPointerType()) { o["k"] = "ptr"; o["to"] = type(ty->getPointeeType()); }
        else if (ty->isLValueReferenceType()) { o["k"] = "lref"; o["to"] = type(ty->getPointeeType()); }
        else if (ty->isRValueReferenceType()) { o["k"] = "rref"; o["to"] = type(ty->getPointeeType()); }
        else if (auto *AT = C.getAsConstantArrayType(T)) { o["k"] = "arr"; o["to"] = type(AT->getElementType()); o["n"] = (int64_t)AT->getSize().getZExtValue(); }
        else if (ty->isFunctionProtoType()) o["k"] = "func";
        else if (auto *RT = ty->getAs<RecordType>()) {
            o["k"] = "rec";
            auto *D = RT->getDecl();
            o["name"] = qname(D);
            J::Array args;
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D))
                for (auto &A : S->getTemplateArgs().asArray()) templArg(args, A);
            o["args"] = std::move(args);
            o["rid"] = id(D);
            o["user"] = !inSystem(D);
            if (!inSystem(D)) if (auto *RD = dyn_cast<CXXRecordDecl>(D)) record(RD);
        } else o["k"] = "other";
        types[key] = std::move(o);
        return key;
    }

    void record(const CXXRecordDecl *RD) {
        RD = RD->getDefinition() ? RD->getDefinition() : RD;
        if (!seenRec.insert(RD).second) return;
        if (RD->isDependentContext()) return;
        J::Object o;
        o["name"] = RD->isLambda() ? "lambda" : qname(RD);
        o["lambda"] = RD->isLambda();
        if (RD->hasDefinition()) {
            J::Array bases, fields;
            for (auto &B : RD->bases()) bases.push_back(type(B.getType()));
            for (auto *F : RD->fields()) {
                J::Object f{{"name", F->getNameAsString()}, {"t", type(F->getType())}, {"id", id(F)}};
                if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
                fields.push_back(std::move(f));
            }
            J::Array methods;
            auto addM = [&](const FunctionDecl *M) {
                if (M->isDependentContext()) return;
                methods.push_back(J::Object{{"name", qname(M)}, {"f", fref(M)}});
            };
            for (auto *D : RD->decls()) {
                if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
                    const FunctionDecl *Def = nullptr;
                    if (isa<CXXDestructorDecl>(M) || M->isLambdaStaticInvoker()) { if (isa<CXXDestructorDecl>(M)) addM(M); continue; }
                    if (M->hasBody(Def)) addM(M);
                }
                else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
                    for (auto *S : FT->specializations()) { if (isa<CXXConstructorDecl>(S)) addM(S); else addM(S); }
            }
            o["bases"] = std::move(bases); o["fields"] = std::move(fields); o["methods"] = std::move(methods);
            if (auto *DD = RD->getDestructor()) { o["dtor"] = fref(DD); o["dtorUser"] = DD->isUserProvided(); }
        }
        records[std::to_string(id(RD))] = std::move(o);
    }

    J::Value fref(const FunctionDecl *F) {
        const FunctionDecl *Can = F->getCanonicalDecl();
        int n = id(Can);
        if (seenFn.insert(Can).second) todo.push_back(F);
        return n;
    }

    void function(const FunctionDecl *F) {
        J::Object o;
        const FunctionDecl *Def = nullptr;
        F->hasBody(Def);
        o["name"] = F->getNameAsString();
        o["q"] = qname(F);
        o["loc"] = loc((Def ? Def : F)->getLocation());
        if (Def) o["end"] = loc(Def->getEndLoc());
        o["user"] = !inSystem(F);
        J::Array ta;
        if (auto *A = F->getTemplateSpecializationArgs()) for (auto &X : A->asArray()) templArg(ta, X);
        o["targs"] = std::move(ta);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["parent"] = type(C.getTypeDeclType(M->getParent()));
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["virtual"] = M->isVirtual();
            if (auto *CC = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = CC->isCopyConstructor() ? "copy" : CC->isMoveConstructor() ? "move" : CC->isDefaultConstructor() ? "default" : "other"; }
            if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
            if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
            if (M->isMoveAssignmentOperator()) o["assign"] = "move";
        }
        o["implicit"] = F->isImplicit();
        o["defaulted"] = F->isDefaulted();
        o["ret"] = type(F->getReturnType());
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (isa<CXXConversionDecl>(F)) o["conv"] = true;
        J::Array ps;
        const FunctionDecl *PF = Def ? Def : F;
        for (auto *P : PF->parameters()) ps.push_back(J::Object{{"name", P->getNameAsString()}, {"t", type(P->getType())}, {"id", id(P)}});
        o["params"] = std::move(ps);
        bool user = !inSystem(F);
        if (Def && user && !Def->isDependentContext()) {
            if (auto *CC = dyn_cast<CXXConstructorDecl>(Def)) {
                J::Array inits;
                for (auto *I : CC->inits()) {
                    J::Object i;
                    if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
                    else if (I->isAnyMemberInitializer()) { i["field"] = I->getAnyMember()->getNameAsString(); }
                    else if (I->isDelegatingInitializer()) i["delegating"] = true;
                    i["init"] = expr(I->getInit());
                    inits.push_back(std::move(i));
                }
                o["inits"] = std::move(inits);
            }
            if (Def->getBody()) o["body"] = stmt(Def->getBody());
        }
        functions[std::to_string(id(F))] = std::move(o);
    }

    J::Value var(const VarDecl *V) {
        J::Object o{{"id", id(V)}, {"name", V->getNameAsString()}, {"t", type(V->getType())}};
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = expr(V->getInit());
        return std::move(o);
    }

    void global(const VarDecl *V) {
        V = V->getCanonicalDecl();
        if (!seenGlob.insert(V).second) return;
        J::Object o{{"name", V->getNameAsString()}, {"q", qname(V)}, {"t", type(V->getType())}, {"user", !inSystem(V)}};
        const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
        if (D->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (D->getInit() && !D->isTemplated() && !inSystem(V)) o["init"] = expr(D->getInit());
        globals[std::to_string(id(V))] = std::move(o);
    }

    J::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return J::Object{{"k", "Expr"}, {"e", expr(E)}, {"l", loc(E->getBeginLoc())}};
        J::Object o;
        o["l"] = loc(S->getBeginLoc());
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["k"] = "Block"; J::Array a;
            for (auto *X : cast<CompoundStmt>(S)->body()) a.push_back(stmt(X));
            o["b"] = std::move(a); break;
        }
        case Stmt::DeclStmtClass: {
            o["k"] = "Decl"; J::Array a;
            for (auto *D : cast<DeclStmt>(S)->decls()) {
                if (auto *V = dyn_cast<VarDecl>(D)) {
                    J::Object vo = std::move(*var(V).getAsObject());
                    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
                        J::Array bs;
                        for (auto *B : DD->bindings()) {
                            J::Object b{{"id", id(B)}};
                            if (auto *HV = B->getHoldingVar()) b["var"] = var(HV);
                            else if (B->getBinding()) b["e"] = expr(B->getBinding());
                            bs.push_back(std::move(b));
                        }
                        vo["bind"] = std::move(bs);
                    }
                    a.push_back(std::move(vo));
                }
            }
            o["d"] = std::move(a); break;
        }
        case Stmt::IfStmtClass: {
            auto *I = cast<IfStmt>(S);
            o["k"] = "If";
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable());
            if (I->isConstexpr()) o["cx"] = true;
            o["c"] = expr(I->getCond()); o["t"] = stmt(I->getThen());
            if (I->getElse()) o["e"] = stmt(I->getElse());
            break;
        }
        case Stmt::WhileStmtClass: { auto *W = cast<WhileStmt>(S); o["k"] = "While"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody());
            if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable()); break; }
        case Stmt::DoStmtClass: { auto *W = cast<DoStmt>(S); o["k"] = "Do"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); break; }
        case Stmt::ForStmtClass: { auto *F = cast<ForStmt>(S); o["k"] = "For";
            if (F->getInit()) o["init"] = stmt(F->getInit());
            if (F->getCond()) o["c"] = expr(F->getCond());
            if (F->getInc()) o["inc"] = expr(F->getInc());
            if (F->getConditionVariable()) o["cv"] = var(F->getConditionVariable());
            o["b"] = stmt(F->getBody()); break; }
        case Stmt::CXXForRangeStmtClass: { auto *F = cast<CXXForRangeStmt>(S); o["k"] = "ForRange";
            if (F->getInit()) o["init"] = stmt(F->getInit());
            o["range"] = stmt(F->getRangeStmt()); o["begin"] = stmt(F->getBeginStmt()); o["end"] = stmt(F->getEndStmt());
            o["c"] = expr(F->getCond()); o["inc"] = expr(F->getInc()); o["var"] = stmt(F->getLoopVarStmt()); o["b"] = stmt(F->getBody()); break; }
        case Stmt::ReturnStmtClass: { auto *R = cast<ReturnStmt>(S); o["k"] = "Return"; if (R->getRetValue()) o["e"] = expr(R->getRetValue()); break; }
        case Stmt::BreakStmtClass: o["k"] = "Break"; break;
        case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
        case Stmt::NullStmtClass: o["k"] = "Null"; break;
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
        case Stmt::CXXTryStmtClass: { auto *T = cast<CXXTryStmt>(S); o["k"] = "Try"; o["b"] = stmt(T->getTryBlock()); J::Array h;
            for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); J::Object ho; 
                if (H->getExceptionDecl()) ho["v"] = var(H->getExceptionDecl()); ho["b"] = stmt(H->getHandlerBlock()); h.push_back(std::move(ho)); }
            o["h"] = std::move(h); break; }
        case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(S); o["k"] = "Switch"; if (W->getInit()) o["init"] = stmt(W->getInit()); o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); break; }
        case Stmt::CaseStmtClass: { auto *W = cast<CaseStmt>(S); o["k"] = "Case"; o["c"] = expr(W->getLHS()); o["b"] = stmt(W->getSubStmt()); break; }
        case Stmt::DefaultStmtClass: { o["k"] = "Default"; o["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt()); break; }
        default: o["k"] = "Unsupported"; o["cls"] = S->getStmtClassName();
        }
        return std::move(o);
    }

    J::Value args(const CallExpr *E, unsigned from = 0) {
        J::Array a;
        for (unsigned i = from; i < E->getNumArgs(); i++) a.push_back(expr(E->getArg(i)));
        return std::move(a);
    }

    J::Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent wrappers
        for (;;) {
            if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
            else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
            else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
            else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) break; E = P->getSourceExpr(); }
            else break;
        }
        J::Object o;
        o["t"] = type(E->getType());
        if (E->isGLValue()) o["lv"] = E->isXValue() ? 2 : 1;
        QualType T = E->getType();
        if (!E->isGLValue() && !E->isValueDependent() && (T->isIntegralOrEnumerationType())) {
            Expr::EvalResult R;
            if (E->EvaluateAsRValue(R, C) && R.Val.isInt() && !R.HasSideEffects) {
                if (T->isBooleanType()) { o["k"] = "Bool"; o["v"] = R.Val.getInt().getBoolValue(); }
                else { o["k"] = "Int"; llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s.str()); }
                return std::move(o);
            }
        }
        switch (E->getStmtClass()) {
        case Stmt::StringLiteralClass: o["k"] = "Str"; o["v"] = cast<StringLiteral>(E)->isOrdinary() ? J::fixUTF8(cast<StringLiteral>(E)->getString()) : ""; break;
        case Stmt::CXXNullPtrLiteralExprClass: o["k"] = "Null"; break;
        case Stmt::FloatingLiteralClass: o["k"] = "Float"; break;
        case Stmt::CXXThisExprClass: o["k"] = "This"; break;
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(E)->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "Fn"; o["f"] = fref(F); break; }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "Int"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); break; }
            o["k"] = "Var"; o["id"] = id(D); o["n"] = D->getNameAsString();
            if (auto *V = dyn_cast<VarDecl>(D)) if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"] = true; global(V); }
            break;
        }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(E);
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { o["k"] = "MemFn"; o["f"] = fref(F); o["o"] = expr(M->getBase()); o["arrow"] = M->isArrow(); break; }
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { o["k"] = "Var"; o["id"] = id(V); o["n"] = V->getNameAsString(); o["g"] = true; global(V); break; }
            o["k"] = "Mem"; o["n"] = M->getMemberDecl()->getNameAsString(); o["arrow"] = M->isArrow(); o["o"] = expr(M->getBase());
            break;
        }
        case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(E); o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix(); o["e"] = expr(U->getSubExpr()); break; }
        case Stmt::CompoundAssignOperatorClass: { auto *B = cast<CompoundAssignOperator>(E); o["k"] = "CAssign"; o["op"] = B->getOpcodeStr().str(); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
            o["ct"] = type(B->getComputationLHSType()); o["rt"] = type(B->getComputationResultType()); o["l"] = loc(E->getExprLoc()); break; }
        case Stmt::BinaryOperatorClass: { auto *B = cast<BinaryOperator>(E); o["k"] = "Bin"; o["op"] = B->getOpcodeStr().str(); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); o["l"] = loc(E->getExprLoc()); break; }
        case Stmt::ConditionalOperatorClass: { auto *B = cast<ConditionalOperator>(E); o["k"] = "Cond"; o["c"] = expr(B->getCond()); o["a"] = expr(B->getTrueExpr()); o["b"] = expr(B->getFalseExpr()); break; }
        case Stmt::ArraySubscriptExprClass: { auto *B = cast<ArraySubscriptExpr>(E); o["k"] = "Sub"; o["a"] = expr(B->getBase()); o["i"] = expr(B->getIdx()); break; }
        case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
            auto *B = cast<CastExpr>(E); o["k"] = "Cast"; o["ck"] = B->getCastKindName(); o["e"] = expr(B->getSubExpr()); break; }
        case Stmt::MaterializeTemporaryExprClass: { o["k"] = "Temp"; o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); 
            break; }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: { auto *X = cast<CXXConstructExpr>(E); o["k"] = "Ctor"; o["f"] = fref(X->getConstructor()); J::Array a;
            for (auto *A : X->arguments()) a.push_back(expr(A)); o["a"] = std::move(a); o["l"] = loc(E->getExprLoc());
            o["elide"] = X->isElidable(); o["zero"] = X->requiresZeroInitialization(); o["list"] = X->isListInitialization(); break; }
        case Stmt::CXXInheritedCtorInitExprClass: o["k"] = "Unsupported"; o["cls"] = "CXXInheritedCtorInit"; break;
        case Stmt::InitListExprClass: { auto *X = cast<InitListExpr>(E); if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm(); o["k"] = "IList"; J::Array a;
            bool di = X->getNumInits() > 0; for (auto *A : X->inits()) { a.push_back(expr(A)); if (!isa<CXXDefaultInitExpr>(A)) di = false; } o["a"] = std::move(a);
            if (di) o["di"] = true;
            if (X->getArrayFiller()) o["filler"] = true; break; }
        case Stmt::CXXStdInitializerListExprClass: { o["k"] = "SIL"; o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr()); break; }
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "Zero"; break;
        case Stmt::LambdaExprClass: {
            auto *L = cast<LambdaExpr>(E); o["k"] = "Lambda"; J::Array caps;
            auto initIt = L->capture_init_begin();
            for (auto &Cp : L->captures()) {
                J::Object c;
                if (Cp.capturesThis()) { c["this"] = true; c["byref"] = Cp.getCaptureKind() == LCK_This; }
                else if (Cp.capturesVariable()) { c["id"] = id(Cp.getCapturedVar()); c["n"] = Cp.getCapturedVar()->getNameAsString(); c["byref"] = Cp.getCaptureKind() == LCK_ByRef; c["init"] = expr(*initIt);
                    c["vt"] = type(Cp.getCapturedVar()->getType()); }
                caps.push_back(std::move(c)); ++initIt;
            }
            o["caps"] = std::move(caps); o["rid"] = id(L->getLambdaClass()); record(L->getLambdaClass());
            break;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *X = cast<CXXOperatorCallExpr>(E); o["k"] = "OpCall"; o["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) { o["f"] = fref(F); o["mem"] = isa<CXXMethodDecl>(F); }
            o["a"] = args(X); o["l"] = loc(E->getExprLoc()); break;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *X = cast<CXXMemberCallExpr>(E); o["k"] = "MCall";
            if (auto *F = X->getMethodDecl()) o["f"] = fref(F);
            auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            if (ME) { o["arrow"] = ME->isArrow(); o["o"] = expr(ME->getBase()); }
            else { o["k"] = "Unsupported"; o["cls"] = "MemberPointerCall"; }
            o["a"] = args(X); o["l"] = loc(E->getExprLoc()); break;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *X = cast<CallExpr>(E); o["k"] = "Call";
            if (auto *F = X->getDirectCallee()) o["f"] = fref(F); else o["fe"] = expr(X->getCallee());
            o["a"] = args(X); o["l"] = loc(E->getExprLoc()); break;
        }
        case Stmt::CXXThrowExprClass: { auto *X = cast<CXXThrowExpr>(E); o["k"] = "Throw"; if (X->getSubExpr()) o["e"] = expr(X->getSubExpr()); o["l"] = loc(E->getExprLoc()); break; }
        case Stmt::CXXNewExprClass: o["k"] = "New"; break;
        case Stmt::CXXTypeidExprClass: o["k"] = "Typeid"; break;
        case Stmt::PredefinedExprClass: o["k"] = "Str"; o["v"] = "__FUNCTION__"; break;
        case Stmt::SourceLocExprClass: o["k"] = "Str"; o["v"] = "srcloc"; break;
        case Stmt::CXXNoexceptExprClass: o["k"] = "Bool"; o["v"] = cast<CXXNoexceptExpr>(E)->getValue(); break;
        default: o["k"] = "Unsupported"; o["cls"] = E->getStmtClassName(); o["l"] = loc(E->getExprLoc());
        }
        return std::move(o);
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper &D;
    V(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext() || D.inSystem(F)) return true;
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def == F) D.fref(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *X) {
        if (X->hasGlobalStorage() && !X->isStaticLocal() && !D.inSystem(X) && !X->getDeclContext()->isDependentContext() && !X->getType()->isDependentType() && !X->isTemplated() && !isa<ParmVarDecl>(X))
            if (!isa<VarTemplateSpecializationDecl>(X)) D.global(X);
        return true;
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance &CI;
public:
    Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        while (!D.todo.empty()) { auto *F = D.todo.front(); D.todo.pop_front(); D.function(F); }
        J::Object o{{"types", std::move(D.types)}, {"records", std::move(D.records)}, {"functions", std::move(D.functions)}, {"globals", std::move(D.globals)}};
        llvm::outs() << J::Value(std::move(o)) << "\n";
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

int main(int argc, const char **argv) {
    // tecsx file.cpp flags...
    std::vector<std::string> flags;
    for (int i = 2; i < argc; i++) flags.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase DB(".", flags);
    clang::tooling::ClangTool T(DB, {argv[1]});
    return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
