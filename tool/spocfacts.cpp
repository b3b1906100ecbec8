// Dumps the type-checked program of one translation unit as JSON.
//
// usage: spocfacts ROOTS FILE -- clang arguments
//
// ROOTS is a ':' separated list of path prefixes.  Functions whose definition
// lies under one of them are dumped with their bodies (template
// instantiations, lambdas and special members included); every other function
// that is referred to is dumped as a declaration only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;

namespace
{

static std::vector<std::pair<SourceLocation, std::string>> Errors;

struct Dumper
{
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const void *, int> TypeId;
    Array Types;
    std::map<const Decl *, int> VarId;
    std::map<int, Object> Vars;
    std::map<const FunctionDecl *, int> FnId;
    std::deque<const FunctionDecl *> Work;
    std::map<int, Object> Fns;
    std::map<const RecordDecl *, int> RecId;
    std::map<int, Object> Recs;
    std::map<const EnumDecl *, int> EnumId;
    std::map<int, Object> Enums;
    std::set<std::string> Unsupported;
    std::vector<std::string> Files;
    std::map<std::string, int> FileId;

    explicit Dumper (ASTContext &C)
        : C (C), SM (C.getSourceManager ()), PP (C.getLangOpts ())
    {
        PP.SuppressInlineNamespace = true;
        PP.SuppressScope = false;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }

    std::string fileOf (SourceLocation L)
    {
        L = SM.getExpansionLoc (L);
        PresumedLoc P = SM.getPresumedLoc (L);
        if (P.isInvalid ()) return "";
        return P.getFilename ();
    }
    bool inRoots (SourceLocation L)
    {
        std::string f = fileOf (L);
        for (auto &r : Roots)
            if (f.compare (0, r.size (), r) == 0) return true;
        return false;
    }
    int fid (const std::string &f)
    {
        auto i = FileId.find (f);
        if (i != FileId.end ()) return i->second;
        int n = Files.size ();
        Files.push_back (f);
        FileId[f] = n;
        return n;
    }
    void loc (Object &o, SourceLocation L)
    {
        L = SM.getExpansionLoc (L);
        PresumedLoc P = SM.getPresumedLoc (L);
        if (P.isInvalid ()) return;
        o["l"] = Array {fid (P.getFilename ()), (int64_t) P.getLine ()};
    }

    std::string qname (const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream os (s);
        // skip inline namespaces and template arguments
        std::vector<std::string> parts;
        const DeclContext *dc = D->getDeclContext ();
        std::string self = D->getNameAsString ();
        parts.push_back (self);
        while (dc)
        {
            if (auto *ns = dyn_cast<NamespaceDecl> (dc))
            {
                if (!ns->isInline ())
                    parts.push_back (ns->isAnonymousNamespace () ? "(anon)" : ns->getNameAsString ());
            }
            else if (auto *rd = dyn_cast<RecordDecl> (dc))
            {
                if (auto *cr = dyn_cast<CXXRecordDecl> (rd); cr && cr->isLambda ())
                    parts.push_back ("(lambda)");
                else
                    parts.push_back (rd->getNameAsString ());
            }
            else if (auto *fd = dyn_cast<FunctionDecl> (dc))
                parts.push_back (fd->getNameAsString ());
            dc = dc->getParent ();
        }
        for (auto i = parts.rbegin (); i != parts.rend (); ++i)
        {
            if (i != parts.rbegin ()) os << "::";
            os << *i;
        }
        return os.str ();
    }

    //----------------------------------------------------------------- types
    Value targ (const TemplateArgument &A)
    {
        switch (A.getKind ())
        {
            case TemplateArgument::Type: return type (A.getAsType ());
            case TemplateArgument::Integral:
            {
                llvm::SmallString<32> s;
                A.getAsIntegral ().toString (s, 10);
                return Object {{"int", s.str ().str ()}};
            }
            case TemplateArgument::Pack:
            {
                Array a;
                for (auto &p : A.pack_elements ()) a.push_back (targ (p));
                return Object {{"pack", std::move (a)}};
            }
            default: return Object {{"other", true}};
        }
    }
    int type (QualType Q)
    {
        if (Q.isNull ()) return -1;
        Q = Q.getCanonicalType ();
        const void *key = Q.getAsOpaquePtr ();
        auto it = TypeId.find (key);
        if (it != TypeId.end ()) return it->second;
        int id = Types.size ();
        TypeId[key] = id;
        Types.push_back (nullptr);
        Object o;
        o["c"] = Q.isConstQualified ();
        o["s"] = Q.getAsString (PP);
        QualType U = Q.getUnqualifiedType ();
        const Type *T = U.getTypePtr ();
        if (auto *B = dyn_cast<BuiltinType> (T))
        {
            if (B->getKind () == BuiltinType::Bool) o["k"] = "bool";
            else if (B->isInteger ())
            {
                o["k"] = "int";
                o["bits"] = (int64_t) C.getTypeSize (U);
                o["sg"] = B->isSignedInteger ();
                if (B->getKind () == BuiltinType::Char_S || B->getKind () == BuiltinType::Char_U) o["char"] = true;
            }
            else if (B->isFloatingPoint ()) { o["k"] = "float"; o["bits"] = (int64_t) C.getTypeSize (U); }
            else if (B->isVoidType ()) o["k"] = "void";
            else if (B->isNullPtrType ()) o["k"] = "ptr";
            else o["k"] = "other";
        }
        else if (auto *P = dyn_cast<PointerType> (T)) { o["k"] = "ptr"; o["e"] = type (P->getPointeeType ()); }
        else if (auto *P = dyn_cast<ReferenceType> (T))
        {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType> (T);
            o["e"] = type (P->getPointeeType ());
        }
        else if (auto *A = dyn_cast<ConstantArrayType> (T))
        {
            o["k"] = "arr";
            o["n"] = (int64_t) A->getSize ().getZExtValue ();
            o["e"] = type (A->getElementType ());
        }
        else if (auto *E = dyn_cast<EnumType> (T))
        {
            o["k"] = "enum";
            o["en"] = enumId (E->getDecl ());
            QualType I = E->getDecl ()->getIntegerType ();
            if (!I.isNull ())
            {
                o["bits"] = (int64_t) C.getTypeSize (I);
                o["sg"] = I->isSignedIntegerType ();
            }
        }
        else if (auto *R = dyn_cast<RecordType> (T)) { o["k"] = "rec"; o["r"] = recId (R->getDecl ()); }
        else if (auto *F = dyn_cast<FunctionProtoType> (T))
        {
            o["k"] = "fn";
            o["ret"] = type (F->getReturnType ());
        }
        else if (auto *M = dyn_cast<MemberPointerType> (T))
        {
            o["k"] = "memptr";
            o["e"] = type (M->getPointeeType ());
        }
        else o["k"] = "other";
        if (auto *A = dyn_cast<ArrayType> (T); A && !isa<ConstantArrayType> (T))
        {
            o["k"] = "arr";
            o["n"] = -1;
            o["e"] = type (A->getElementType ());
        }
        Types[id] = std::move (o);
        return id;
    }
    int enumId (const EnumDecl *D)
    {
        D = D->getDefinition () ? D->getDefinition () : D;
        auto it = EnumId.find (D);
        if (it != EnumId.end ()) return it->second;
        int id = EnumId.size ();
        EnumId[D] = id;
        Object o;
        o["name"] = qname (D);
        Array v;
        for (auto *e : D->enumerators ())
        {
            llvm::SmallString<32> s;
            e->getInitVal ().toString (s, 10);
            v.push_back (Array {e->getNameAsString (), s.str ().str ()});
        }
        o["vals"] = std::move (v);
        loc (o, D->getLocation ());
        Enums[id] = std::move (o);
        return id;
    }
    int recId (const RecordDecl *D)
    {
        if (auto *Def = D->getDefinition ()) D = Def;
        auto it = RecId.find (D);
        if (it != RecId.end ()) return it->second;
        int id = RecId.size ();
        RecId[D] = id;
        Object o;
        auto *CR = dyn_cast<CXXRecordDecl> (D);
        o["name"] = CR && CR->isLambda () ? std::string ("(lambda)") : qname (D);
        o["lambda"] = CR && CR->isLambda ();
        bool mine = inRoots (D->getLocation ());
        o["mine"] = mine;
        loc (o, D->getLocation ());
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl> (D))
        {
            Array a;
            for (auto &x : S->getTemplateArgs ().asArray ()) a.push_back (targ (x));
            o["targs"] = std::move (a);
        }
        if (D->isCompleteDefinition () && !D->isInvalidDecl () && !D->isDependentType ())
        {
            std::string n = qname (D);
            bool std_ = n.compare (0, 5, "std::") == 0 || n.compare (0, 2, "__") == 0;
            const ASTRecordLayout &L = C.getASTRecordLayout (D);
            o["size"] = (int64_t) L.getSize ().getQuantity ();
            Array fs;
            if (!std_ || n == "std::pair")
                for (auto *f : D->fields ())
                    fs.push_back (Object {{"n", f->getNameAsString ()},
                        {"t", type (f->getType ())},
                        {"off", (int64_t) (L.getFieldOffset (f->getFieldIndex ()) / 8)},
                        {"acc", (int64_t) f->getAccess ()},
                        {"mut", f->isMutable ()},
                        {"bf", f->isBitField ()}});
            o["fields"] = std::move (fs);
            if (CR)
            {
                Array bs;
                for (auto &b : CR->bases ()) bs.push_back (type (b.getType ()));
                o["bases"] = std::move (bs);
                o["udcopy"] = CR->hasUserDeclaredCopyConstructor ();
                o["udcopyassign"] = CR->hasUserDeclaredCopyAssignment ();
                o["uddtor"] = CR->hasUserDeclaredDestructor ();
                o["agg"] = CR->isAggregate ();
                if (mine)
                {
                    Array ms;
                    for (auto *m : CR->methods ())
                        ms.push_back (Object {{"n", m->getNameAsString ()}, {"fn", fnId (m)},
                            {"acc", (int64_t) m->getAccess ()}, {"del", m->isDeleted ()},
                            {"const", m->isConst ()}, {"implicit", m->isImplicit ()}});
                    o["methods"] = std::move (ms);
                }
            }
        }
        Recs[id] = std::move (o);
        return id;
    }

    //-------------------------------------------------------------- variables
    int varId (const ValueDecl *D)
    {
        if (auto *V = dyn_cast<VarDecl> (D))
            if (!isa<ParmVarDecl> (V) && V->hasGlobalStorage ())
            {
                const VarDecl *Def = V->getDefinition ();
                D = Def ? Def : V->getCanonicalDecl ();
            }
        auto it = VarId.find (D);
        if (it != VarId.end ()) return it->second;
        int id = VarId.size ();
        VarId[D] = id;
        Object o;
        o["n"] = D->getNameAsString ();
        o["t"] = type (D->getType ());
        loc (o, D->getLocation ());
        if (auto *V = dyn_cast<VarDecl> (D))
        {
            o["kind"] = isa<ParmVarDecl> (V) ? "param" : V->hasGlobalStorage () ? (V->isStaticLocal () ? "slocal" : "global") : "local";
            if (V->hasGlobalStorage ())
            {
                o["q"] = qname (V);
                o["mine"] = inRoots (V->getLocation ());
                o["external"] = V->hasExternalFormalLinkage ();
                o["inline"] = V->isInline ();
                o["constexpr"] = V->isConstexpr ();
                o["tmpl"] = V->getTemplateSpecializationKind () != TSK_Undeclared;
                o["isdef"] = V->isThisDeclarationADefinition () != VarDecl::DeclarationOnly;
                o["smember"] = V->isStaticDataMember ();
                Vars[id] = std::move (o);
                if (V->hasInit () && (inRoots (V->getLocation ())))
                {
                    Value e = expr (V->getInit ());
                    Vars[id]["init"] = std::move (e);
                }
                return id;
            }
        }
        else if (auto *E = dyn_cast<EnumConstantDecl> (D))
        {
            o["kind"] = "enumc";
            llvm::SmallString<32> s;
            E->getInitVal ().toString (s, 10);
            o["v"] = s.str ().str ();
        }
        else if (auto *B = dyn_cast<BindingDecl> (D))
        {
            o["kind"] = "binding";
            Vars[id] = Object ();
            if (B->getBinding ()) o["e"] = expr (B->getBinding ());
        }
        else o["kind"] = "other";
        Vars[id] = std::move (o);
        return id;
    }

    //-------------------------------------------------------------- functions
    const FunctionDecl *resolve (const FunctionDecl *F)
    {
        const FunctionDecl *Def = nullptr;
        if (F->isDefined (Def) && Def) return Def;
        return F->getCanonicalDecl ();
    }
    int fnId (const FunctionDecl *F)
    {
        F = resolve (F);
        auto it = FnId.find (F);
        if (it != FnId.end ()) return it->second;
        int id = FnId.size ();
        FnId[F] = id;
        Work.push_back (F);
        return id;
    }
    void dumpFn (const FunctionDecl *F)
    {
        int id = FnId[F];
        Object o;
        o["n"] = F->getNameAsString ();
        o["q"] = qname (F);
        loc (o, F->getLocation ());
        bool mine = inRoots (F->getLocation ());
        o["mine"] = mine;
        if (!Errors.empty () && F->getSourceRange ().isValid ())
        {
            auto &SM = C.getSourceManager ();
            auto b = SM.getExpansionRange (F->getBeginLoc ()).getBegin ();
            auto e = SM.getExpansionRange (F->getEndLoc ()).getEnd ();
            for (auto &x : Errors)
            {
                auto l = SM.getExpansionLoc (x.first);
                if (SM.getFileID (l) == SM.getFileID (b) && SM.getFileOffset (l) >= SM.getFileOffset (b) && SM.getFileOffset (l) <= SM.getFileOffset (e))
                    o["errors"] = true;
            }
        }
        o["ret"] = type (F->getReturnType ());
        Array ps;
        for (auto *p : F->parameters ())
        {
            Object po {{"v", varId (p)}, {"n", p->getNameAsString ()}, {"t", type (p->getType ())}};
            ps.push_back (std::move (po));
        }
        o["params"] = std::move (ps);
        o["variadic"] = F->isVariadic ();
        o["inline"] = F->isInlined ();
        o["external"] = F->hasExternalFormalLinkage ();
        o["tsk"] = (int64_t) F->getTemplateSpecializationKind ();
        o["constexpr"] = F->isConstexpr ();
        o["deleted"] = F->isDeleted ();
        o["defaulted"] = F->isDefaulted ();
        o["implicit"] = F->isImplicit ();
        o["noreturn"] = F->isNoReturn ();
        if (auto *FP = F->getType ()->getAs<FunctionProtoType> ())
            {
            auto es = FP->getExceptionSpecType ();
            o["noexcept"] = es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow;
        }
        if (auto *A = F->getTemplateSpecializationArgs ())
        {
            Array a;
            for (auto &x : A->asArray ()) a.push_back (targ (x));
            o["targs"] = std::move (a);
        }
        if (auto *M = dyn_cast<CXXMethodDecl> (F))
        {
            o["rec"] = recId (M->getParent ());
            o["static"] = M->isStatic ();
            o["const"] = M->isConst ();
            o["virtual"] = M->isVirtual ();
            o["acc"] = (int64_t) M->getAccess ();
            if (M->isCopyAssignmentOperator ()) o["special"] = "copyassign";
            if (M->isMoveAssignmentOperator ()) o["special"] = "moveassign";
        }
        if (auto *K = dyn_cast<CXXConstructorDecl> (F))
        {
            o["kind"] = "ctor";
            if (K->isCopyConstructor ()) o["special"] = "copy";
            else if (K->isMoveConstructor ()) o["special"] = "move";
            else if (K->isDefaultConstructor ()) o["special"] = "default";
        }
        else if (isa<CXXDestructorDecl> (F)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl> (F)) o["kind"] = "conv";
        const bool isimpl = F->isDefaulted () || F->isImplicit ();
        if (mine && F->doesThisDeclarationHaveABody () && !F->isDependentContext () && !(isimpl && !isLambdaCall (F)))
        {
            if (auto *K = dyn_cast<CXXConstructorDecl> (F))
            {
                Array in;
                for (auto *I : K->inits ())
                {
                    Object io;
                    if (I->isMemberInitializer ()) io["f"] = I->getMember ()->getNameAsString ();
                    else if (I->isIndirectMemberInitializer ()) io["f"] = I->getIndirectMember ()->getNameAsString ();
                    else if (I->isDelegatingInitializer ()) io["deleg"] = true;
                    else if (I->isBaseInitializer ()) io["base"] = type (QualType (I->getBaseClass (), 0));
                    io["written"] = I->isWritten ();
                    io["e"] = expr (I->getInit ());
                    in.push_back (std::move (io));
                }
                o["inits"] = std::move (in);
            }
            o["body"] = stmt (F->getBody ());
        }
        else if (mine && isimpl)
        {
            if (auto *K = dyn_cast<CXXConstructorDecl> (F); K && K->isDefaultConstructor () && F->doesThisDeclarationHaveABody ())
            {
                Array in;
                for (auto *I : K->inits ())
                {
                    Object io;
                    if (I->isMemberInitializer ()) io["f"] = I->getMember ()->getNameAsString ();
                    else if (I->isBaseInitializer ()) io["base"] = type (QualType (I->getBaseClass (), 0));
                    else continue;
                    io["written"] = I->isWritten ();
                    io["e"] = expr (I->getInit ());
                    in.push_back (std::move (io));
                }
                o["inits"] = std::move (in);
                o["body"] = stmt (F->getBody ());
            }
        }
        Fns[id] = std::move (o);
    }
    static bool isLambdaCall (const FunctionDecl *F)
    {
        auto *M = dyn_cast<CXXMethodDecl> (F);
        return M && M->getParent ()->isLambda () && M->getOverloadedOperator () == OO_Call;
    }

    //-------------------------------------------------------------- statements
    Value stmt (const Stmt *S)
    {
        if (!S) return nullptr;
        Object o;
        loc (o, S->getBeginLoc ());
        if (auto *X = dyn_cast<CompoundStmt> (S))
        {
            o["k"] = "block";
            Array a;
            for (auto *c : X->body ()) a.push_back (stmt (c));
            o["s"] = std::move (a);
        }
        else if (auto *X = dyn_cast<DeclStmt> (S))
        {
            o["k"] = "decl";
            Array a;
            for (auto *d : X->decls ())
            {
                if (auto *V = dyn_cast<VarDecl> (d))
                {
                    Object v {{"v", varId (V)}, {"n", V->getNameAsString ()}, {"t", type (V->getType ())},
                        {"static", V->isStaticLocal ()}, {"ext", V->hasExternalStorage ()}};
                    if (V->hasInit ()) v["init"] = expr (V->getInit ());
                    if (auto *D = dyn_cast<DecompositionDecl> (V))
                    {
                        Array bs;
                        for (auto *b : D->bindings ())
                        {
                            Object bo {{"v", varId (b)}};
                            if (auto *hv = b->getHoldingVar ())
                            {
                                bo["hv"] = varId (hv);
                                bo["ht"] = type (hv->getType ());
                                if (hv->hasInit ()) bo["hinit"] = expr (hv->getInit ());
                            }
                            bs.push_back (std::move (bo));
                        }
                        v["bindings"] = std::move (bs);
                    }
                    a.push_back (std::move (v));
                }
            }
            o["d"] = std::move (a);
        }
        else if (auto *X = dyn_cast<IfStmt> (S))
        {
            o["k"] = "if";
            if (X->getInit ()) o["init"] = stmt (X->getInit ());
            if (X->getConditionVariableDeclStmt ()) o["cv"] = stmt (X->getConditionVariableDeclStmt ());
            o["c"] = expr (X->getCond ());
            if (X->isConstexpr ())
            {
                o["cx"] = true;
                auto nd = X->getNondiscardedCase (C);
                if (nd)
                {
                    // only the branch that is kept
                    if (*nd == X->getThen ()) { o["then"] = stmt (X->getThen ()); o["else"] = nullptr; }
                    else { o["then"] = nullptr; o["else"] = *nd ? stmt (*nd) : Value (nullptr); }
                    return std::move (o);
                }
            }
            o["then"] = stmt (X->getThen ());
            o["else"] = stmt (X->getElse ());
        }
        else if (auto *X = dyn_cast<ForStmt> (S))
        {
            o["k"] = "for";
            o["init"] = stmt (X->getInit ());
            if (X->getConditionVariableDeclStmt ()) o["cv"] = stmt (X->getConditionVariableDeclStmt ());
            o["c"] = X->getCond () ? expr (X->getCond ()) : Value (nullptr);
            o["inc"] = X->getInc () ? expr (X->getInc ()) : Value (nullptr);
            o["body"] = stmt (X->getBody ());
        }
        else if (auto *X = dyn_cast<WhileStmt> (S))
        {
            o["k"] = "while";
            if (X->getConditionVariableDeclStmt ()) o["cv"] = stmt (X->getConditionVariableDeclStmt ());
            o["c"] = expr (X->getCond ());
            o["body"] = stmt (X->getBody ());
        }
        else if (auto *X = dyn_cast<DoStmt> (S))
        {
            o["k"] = "do";
            o["c"] = expr (X->getCond ());
            o["body"] = stmt (X->getBody ());
        }
        else if (auto *X = dyn_cast<CXXForRangeStmt> (S))
        {
            o["k"] = "rfor";
            if (X->getInit ()) o["init"] = stmt (X->getInit ());
            const VarDecl *R = cast<VarDecl> (X->getRangeStmt ()->getSingleDecl ());
            o["range"] = expr (R->getInit ());
            o["rt"] = type (R->getType ());
            o["var"] = stmt (X->getLoopVarStmt ());
            o["body"] = stmt (X->getBody ());
            // the way the loop obtains its iterators
            o["beg"] = X->getBeginStmt () ? stmt (X->getBeginStmt ()) : Value (nullptr);
        }
        else if (auto *X = dyn_cast<SwitchStmt> (S))
        {
            o["k"] = "switch";
            if (X->getInit ()) o["init"] = stmt (X->getInit ());
            if (X->getConditionVariableDeclStmt ()) o["cv"] = stmt (X->getConditionVariableDeclStmt ());
            o["c"] = expr (X->getCond ());
            o["body"] = stmt (X->getBody ());
        }
        else if (auto *X = dyn_cast<CaseStmt> (S))
        {
            o["k"] = "case";
            o["v"] = expr (X->getLHS ());
            if (X->getRHS ()) o["v2"] = expr (X->getRHS ());
            o["s"] = stmt (X->getSubStmt ());
        }
        else if (auto *X = dyn_cast<DefaultStmt> (S)) { o["k"] = "default"; o["s"] = stmt (X->getSubStmt ()); }
        else if (isa<BreakStmt> (S)) o["k"] = "break";
        else if (isa<ContinueStmt> (S)) o["k"] = "continue";
        else if (auto *X = dyn_cast<ReturnStmt> (S))
        {
            o["k"] = "ret";
            o["e"] = X->getRetValue () ? expr (X->getRetValue ()) : Value (nullptr);
        }
        else if (isa<NullStmt> (S)) o["k"] = "null";
        else if (auto *X = dyn_cast<CXXTryStmt> (S))
        {
            o["k"] = "try";
            o["body"] = stmt (X->getTryBlock ());
            Array hs;
            for (unsigned i = 0; i < X->getNumHandlers (); ++i)
            {
                auto *h = X->getHandler (i);
                Object ho;
                loc (ho, h->getBeginLoc ());
                if (auto *V = h->getExceptionDecl ())
                {
                    ho["v"] = varId (V);
                    ho["t"] = type (V->getType ());
                }
                ho["body"] = stmt (h->getHandlerBlock ());
                hs.push_back (std::move (ho));
            }
            o["h"] = std::move (hs);
        }
        else if (auto *X = dyn_cast<AttributedStmt> (S)) return stmt (X->getSubStmt ());
        else if (auto *X = dyn_cast<CapturedStmt> (S)) return stmt (X->getCapturedStmt ());
        else if (auto *X = dyn_cast<OMPExecutableDirective> (S))
        {
            o["k"] = "omp";
            o["d"] = llvm::omp::getOpenMPDirectiveName (X->getDirectiveKind ()).str ();
            Array cl;
            for (auto *c : X->clauses ())
            {
                if (c->isImplicit ()) continue;
                Object co;
                co["c"] = llvm::omp::getOpenMPClauseName (c->getClauseKind ()).str ();
                Array vs;
                for (auto *ch : c->children ())
                    if (ch)
                        if (auto *e = dyn_cast<Expr> (ch))
                            vs.push_back (expr (e));
                co["e"] = std::move (vs);
                if (auto *R = dyn_cast<OMPReductionClause> (c)) co["op"] = R->getNameInfo ().getAsString ();
                cl.push_back (std::move (co));
            }
            o["cl"] = std::move (cl);
            if (X->hasAssociatedStmt ())
            {
                const Stmt *A = X->getAssociatedStmt ();
                while (auto *cs = dyn_cast_or_null<CapturedStmt> (A)) A = cs->getCapturedStmt ();
                o["s"] = stmt (A);
            }
        }
        else if (auto *X = dyn_cast<OMPCanonicalLoop> (S)) return stmt (X->getLoopStmt ());
        else if (auto *X = dyn_cast<LabelStmt> (S)) { o["k"] = "label"; o["s"] = stmt (X->getSubStmt ()); }
        else if (auto *E = dyn_cast<Expr> (S)) { o["k"] = "expr"; o["e"] = expr (E); }
        else
        {
            o["k"] = "unsup";
            o["n"] = S->getStmtClassName ();
            Unsupported.insert (S->getStmtClassName ());
        }
        return std::move (o);
    }

    //-------------------------------------------------------------- expressions
    bool constant (const Expr *E, Object &o)
    {
        if (E->isValueDependent () || E->isTypeDependent ()) return false;
        QualType T = E->getType ();
        if (!(T->isIntegralOrEnumerationType () || T->isRealFloatingType ())) return false;
        if (E->isGLValue ()) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsRValue (R, C)) return false;
        if (R.HasSideEffects) return false;
        if (R.Val.isInt ())
        {
            llvm::SmallString<32> s;
            R.Val.getInt ().toString (s, 10);
            o["cv"] = s.str ().str ();
            return true;
        }
        if (R.Val.isFloat ())
        {
            llvm::APFloat f = R.Val.getFloat ();
            bool lossy;
            f.convert (llvm::APFloat::IEEEdouble (), llvm::APFloat::rmNearestTiesToEven, &lossy);
            uint64_t b = f.bitcastToAPInt ().getZExtValue ();
            o["cf"] = llvm::utohexstr (b);
            return true;
        }
        return false;
    }
    Value exprs (llvm::ArrayRef<const Expr *> es)
    {
        Array a;
        for (auto *e : es) a.push_back (expr (e));
        return std::move (a);
    }
    Value expr (const Expr *E)
    {
        if (!E) return nullptr;
        // transparent nodes
        if (auto *X = dyn_cast<ParenExpr> (E)) return expr (X->getSubExpr ());
        if (auto *X = dyn_cast<ExprWithCleanups> (E)) return expr (X->getSubExpr ());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr> (E)) return mat (X);
        if (auto *X = dyn_cast<CXXBindTemporaryExpr> (E)) return expr (X->getSubExpr ());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr> (E)) return expr (X->getReplacement ());
        if (auto *X = dyn_cast<CXXDefaultArgExpr> (E)) return expr (X->getExpr ());
        if (auto *X = dyn_cast<CXXDefaultInitExpr> (E)) return expr (X->getExpr ());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator> (E)) return expr (X->getSemanticForm ());
        if (auto *X = dyn_cast<OpaqueValueExpr> (E)) if (X->getSourceExpr ()) return expr (X->getSourceExpr ());

        Object o;
        loc (o, E->getExprLoc ());
        o["t"] = type (E->getType ());
        if (E->isLValue ()) o["lv"] = 1;
        else if (E->isXValue ()) o["lv"] = 2;
        constant (E, o);

        if (auto *X = dyn_cast<ConstantExpr> (E))
        {
            Value v = expr (X->getSubExpr ());
            return v;
        }
        if (auto *X = dyn_cast<DeclRefExpr> (E))
        {
            if (auto *F = dyn_cast<FunctionDecl> (X->getDecl ()))
            {
                o["k"] = "fnref";
                o["fn"] = fnId (F);
            }
            else
            {
                o["k"] = "ref";
                o["v"] = varId (X->getDecl ());
                o["n"] = X->getDecl ()->getNameAsString ();
            }
        }
        else if (auto *X = dyn_cast<MemberExpr> (E))
        {
            if (auto *F = dyn_cast<FieldDecl> (X->getMemberDecl ()))
            {
                o["k"] = "mem";
                o["arrow"] = X->isArrow ();
                o["f"] = F->getNameAsString ();
                o["b"] = expr (X->getBase ());
            }
            else if (auto *V = dyn_cast<VarDecl> (X->getMemberDecl ()))
            {
                o["k"] = "ref";
                o["v"] = varId (V);
                o["n"] = V->getNameAsString ();
            }
            else if (auto *M = dyn_cast<FunctionDecl> (X->getMemberDecl ()))
            {
                o["k"] = "memfn";
                o["fn"] = fnId (M);
                o["b"] = expr (X->getBase ());
            }
            else if (auto *M = dyn_cast<EnumConstantDecl> (X->getMemberDecl ()))
            {
                o["k"] = "ref";
                o["v"] = varId (M);
                o["n"] = M->getNameAsString ();
            }
        }
        else if (isa<CXXThisExpr> (E)) o["k"] = "this";
        else if (isa<IntegerLiteral> (E) || isa<FloatingLiteral> (E) || isa<CXXBoolLiteralExpr> (E) || isa<CharacterLiteral> (E)) o["k"] = "lit";
        else if (auto *X = dyn_cast<StringLiteral> (E))
        {
            o["k"] = "str";
            std::string s;
            for (unsigned i = 0; i < X->getLength (); ++i)
            {
                unsigned c = X->getCodeUnit (i);
                if (c < 128) s += (char) c;
                else { o["nonascii"] = true; s += '?'; }
            }
            o["s"] = s;
        }
        else if (isa<PredefinedExpr> (E)) { o["k"] = "str"; o["s"] = "(function)"; }
        else if (isa<CXXNullPtrLiteralExpr> (E) || isa<GNUNullExpr> (E)) o["k"] = "null";
        else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr> (E)) { o["k"] = "sizeof"; if (!X->isArgumentType ()) o["e"] = expr (X->getArgumentExpr ()); }
        else if (auto *X = dyn_cast<UnaryOperator> (E))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr (X->getOpcode ()).str ();
            if (X->isPostfix ()) o["post"] = true;
            o["e"] = expr (X->getSubExpr ());
        }
        else if (auto *X = dyn_cast<CompoundAssignOperator> (E))
        {
            o["k"] = "casgn";
            o["op"] = BinaryOperator::getOpcodeStr (BinaryOperator::getOpForCompoundAssignment (X->getOpcode ())).str ();
            o["ct"] = type (X->getComputationResultType ());
            o["clt"] = type (X->getComputationLHSType ());
            o["a"] = expr (X->getLHS ());
            o["b"] = expr (X->getRHS ());
        }
        else if (auto *X = dyn_cast<BinaryOperator> (E))
        {
            o["k"] = X->getOpcode () == BO_Assign ? "asgn" : "bin";
            o["op"] = X->getOpcodeStr ().str ();
            o["a"] = expr (X->getLHS ());
            o["b"] = expr (X->getRHS ());
        }
        else if (auto *X = dyn_cast<ConditionalOperator> (E))
        {
            o["k"] = "cond";
            o["c"] = expr (X->getCond ());
            o["a"] = expr (X->getTrueExpr ());
            o["b"] = expr (X->getFalseExpr ());
        }
        else if (auto *X = dyn_cast<ArraySubscriptExpr> (E))
        {
            o["k"] = "idx";
            o["a"] = expr (X->getBase ());
            o["b"] = expr (X->getIdx ());
        }
        else if (auto *X = dyn_cast<CXXOperatorCallExpr> (E))
        {
            o["k"] = "call";
            call (o, X);
            auto *F = X->getDirectCallee ();
            if (F && isa<CXXMethodDecl> (F) && !cast<CXXMethodDecl> (F)->isStatic ())
            {
                o["obj"] = expr (X->getArg (0));
                Array a;
                for (unsigned i = 1; i < X->getNumArgs (); ++i) a.push_back (expr (X->getArg (i)));
                o["args"] = std::move (a);
            }
            else
            {
                Array a;
                for (unsigned i = 0; i < X->getNumArgs (); ++i) a.push_back (expr (X->getArg (i)));
                o["args"] = std::move (a);
            }
        }
        else if (auto *X = dyn_cast<CXXMemberCallExpr> (E))
        {
            o["k"] = "call";
            call (o, X);
            auto *Cal = X->getCallee ()->IgnoreParens ();
            if (auto *M = dyn_cast<MemberExpr> (Cal))
            {
                o["obj"] = expr (M->getBase ());
                if (M->isArrow ()) o["objarrow"] = true;
            }
            else o["callee"] = expr (X->getCallee ());
            Array a;
            for (auto *x : X->arguments ()) a.push_back (expr (x));
            o["args"] = std::move (a);
        }
        else if (auto *X = dyn_cast<CallExpr> (E))
        {
            o["k"] = "call";
            call (o, X);
            if (!X->getDirectCallee ()) o["callee"] = expr (X->getCallee ());
            Array a;
            for (auto *x : X->arguments ()) a.push_back (expr (x));
            o["args"] = std::move (a);
        }
        else if (auto *X = dyn_cast<CXXConstructExpr> (E))
        {
            o["k"] = "ctor";
            o["fn"] = fnId (X->getConstructor ());
            if (X->isListInitialization ()) o["list"] = true;
            Array a;
            for (auto *x : X->arguments ()) a.push_back (expr (x));
            o["args"] = std::move (a);
        }
        else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr> (E)) { (void) X; o["k"] = "unsup"; o["n"] = "inheritedctor"; }
        else if (auto *X = dyn_cast<InitListExpr> (E))
        {
            if (X->isSyntacticForm () && X->getSemanticForm ()) X = X->getSemanticForm ();
            if (X->isTransparent ()) return expr (X->getInit (0));
            o["k"] = "init";
            Array a;
            for (unsigned i = 0; i < X->getNumInits (); ++i) a.push_back (expr (X->getInit (i)));
            o["args"] = std::move (a);
            if (X->hasArrayFiller ()) o["filler"] = expr (X->getArrayFiller ());
            if (X->getType ()->isRecordType ())
            {
                Array fn;
                if (auto *RD = X->getType ()->getAsRecordDecl ())
                {
                    if (X->getInitializedFieldInUnion ()) o["unsup"] = true;
                    if (auto *CR = dyn_cast<CXXRecordDecl> (RD)) o["nbases"] = (int64_t) CR->getNumBases ();
                    for (auto *f : RD->fields ()) fn.push_back (f->getNameAsString ());
                }
                o["fields"] = std::move (fn);
            }
        }
        else if (auto *X = dyn_cast<CXXParenListInitExpr> (E))
        {
            o["k"] = "init";
            Array a;
            for (auto *i : X->getInitExprs ()) a.push_back (expr (i));
            o["args"] = std::move (a);
            Array fn;
            if (auto *RD = X->getType ()->getAsRecordDecl ())
                for (auto *f : RD->fields ()) fn.push_back (f->getNameAsString ());
            o["fields"] = std::move (fn);
        }
        else if (isa<ImplicitValueInitExpr> (E) || isa<CXXScalarValueInitExpr> (E)) o["k"] = "zero";
        else if (auto *X = dyn_cast<CXXStdInitializerListExpr> (E)) { o["k"] = "ilist"; o["e"] = expr (X->getSubExpr ()); }
        else if (auto *X = dyn_cast<LambdaExpr> (E))
        {
            o["k"] = "lambda";
            o["fn"] = fnId (X->getCallOperator ());
            o["generic"] = X->isGenericLambda ();
            o["mut"] = X->isMutable ();
            o["rec"] = recId (X->getLambdaClass ());
            Array cs;
            auto ie = X->capture_init_begin ();
            for (auto &c : X->captures ())
            {
                Object co;
                if (c.capturesThis ()) co["this"] = true;
                else if (c.capturesVariable ())
                {
                    auto *V = c.getCapturedVar ();
                    co["v"] = varId (V);
                    co["n"] = V->getNameAsString ();
                    co["init"] = isa<VarDecl> (V) && cast<VarDecl> (V)->isInitCapture ();
                }
                co["ref"] = c.getCaptureKind () == LCK_ByRef || c.getCaptureKind () == LCK_This;
                co["e"] = expr (*ie);
                ++ie;
                cs.push_back (std::move (co));
            }
            o["caps"] = std::move (cs);
        }
        else if (auto *X = dyn_cast<CXXThrowExpr> (E))
        {
            o["k"] = "throw";
            o["e"] = X->getSubExpr () ? expr (X->getSubExpr ()) : Value (nullptr);
        }
        else if (auto *X = dyn_cast<CXXTypeidExpr> (E))
        {
            o["k"] = "typeid";
            if (X->isTypeOperand ()) o["ty"] = type (X->getTypeOperand (C));
            else o["e"] = expr (X->getExprOperand ());
        }
        else if (auto *X = dyn_cast<CastExpr> (E))
        {
            o["k"] = "cast";
            o["ck"] = X->getCastKindName ();
            if (isa<ExplicitCastExpr> (X))
                o["sty"] = isa<CXXReinterpretCastExpr> (X) ? "reinterpret" : isa<CXXConstCastExpr> (X) ? "const" : isa<CXXStaticCastExpr> (X) ? "static" : isa<CXXFunctionalCastExpr> (X) ? "functional" : isa<CXXDynamicCastExpr> (X) ? "dynamic" : "c";
            o["e"] = expr (X->getSubExpr ());
        }
        else if (auto *X = dyn_cast<CXXNewExpr> (E))
        {
            o["k"] = "new";
            o["ty"] = type (X->getAllocatedType ());
            o["e"] = X->getInitializer () ? expr (X->getInitializer ()) : Value (nullptr);
            o["array"] = X->isArray ();
        }
        else if (auto *X = dyn_cast<CXXDeleteExpr> (E)) { o["k"] = "delete"; o["e"] = expr (X->getArgument ()); }
        else if (auto *X = dyn_cast<ArrayInitLoopExpr> (E)) { o["k"] = "arrcopy"; o["e"] = expr (X->getCommonExpr ()); }
        else if (auto *X = dyn_cast<BinaryConditionalOperator> (E)) { (void) X; o["k"] = "unsup"; o["n"] = "?:"; }
        else if (auto *X = dyn_cast<SourceLocExpr> (E)) { (void) X; o["k"] = "unsup"; o["n"] = "sourceloc"; }
        else if (auto *X = dyn_cast<CXXNoexceptExpr> (E)) { (void) X; o["k"] = "lit"; }
        else if (isa<TypeTraitExpr> (E) || isa<RequiresExpr> (E) || isa<ConceptSpecializationExpr> (E) || isa<SizeOfPackExpr> (E) || isa<OffsetOfExpr> (E)) o["k"] = "lit";
        else
        {
            o["k"] = "unsup";
            o["n"] = E->getStmtClassName ();
            Unsupported.insert (E->getStmtClassName ());
        }
        return std::move (o);
    }
    Value mat (const MaterializeTemporaryExpr *X)
    {
        Object o;
        loc (o, X->getExprLoc ());
        o["k"] = "mat";
        o["t"] = type (X->getType ());
        o["lv"] = X->isLValue () ? 1 : 2;
        o["e"] = expr (X->getSubExpr ());
        return std::move (o);
    }
    void call (Object &o, const CallExpr *X)
    {
        if (auto *F = X->getDirectCallee ())
        {
            o["fn"] = fnId (F);
            o["q"] = qname (F);
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper &D;
    Array NonInline;
    explicit Visitor (Dumper &D) : D (D) {}
    bool shouldVisitTemplateInstantiations () const { return true; }
    bool shouldVisitImplicitCode () const { return true; }
    bool VisitFunctionDecl (FunctionDecl *F)
    {
        if (!D.inRoots (F->getLocation ())) return true;
        if (F->isDependentContext ()) return true;
        if (F->doesThisDeclarationHaveABody ()) D.fnId (F);
        return true;
    }
    bool VisitVarDecl (VarDecl *V)
    {
        if (isa<ParmVarDecl> (V) || !V->hasGlobalStorage ()) return true;
        if (!D.inRoots (V->getLocation ())) return true;
        if (V->getDeclContext ()->isDependentContext () || V->getType ()->isDependentType ()) return true;
        D.varId (V);
        return true;
    }
    bool VisitRecordDecl (RecordDecl *R)
    {
        if (!D.inRoots (R->getLocation ()) || R->isDependentType ()) return true;
        if (R->isThisDeclarationADefinition ()) D.recId (R);
        return true;
    }
};

// every textual inclusion, for the header rules
struct Incl : PPCallbacks
{
    SourceManager &SM;
    Array &Out;
    Incl (SourceManager &SM, Array &Out) : SM (SM), Out (Out) {}
    void InclusionDirective (SourceLocation L, const Token &, StringRef Name, bool angled, CharSourceRange,
        OptionalFileEntryRef F, StringRef, StringRef, const Module *, SrcMgr::CharacteristicKind) override
    {
        PresumedLoc P = SM.getPresumedLoc (L);
        if (P.isInvalid ()) return;
        std::string f = P.getFilename ();
        for (auto &r : Roots)
            if (f.compare (0, r.size (), r) == 0)
                Out.push_back (Object {{"from", f}, {"name", Name.str ()}, {"to", F ? F->getName ().str () : std::string ()}});
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance &CI;
    Array &Includes;
    Consumer (CompilerInstance &CI, Array &Includes) : CI (CI), Includes (Includes) {}
    void HandleTranslationUnit (ASTContext &C) override
    {
        if (CI.getDiagnostics ().hasFatalErrorOccurred () || CI.getDiagnostics ().hasUnrecoverableErrorOccurred () && Errors.empty ()) return;
        Dumper D (C);
        Visitor V (D);
        V.TraverseDecl (C.getTranslationUnitDecl ());
        while (!D.Work.empty ())
        {
            auto *F = D.Work.front ();
            D.Work.pop_front ();
            D.dumpFn (F);
        }
        Object o;
        auto dump = [] (std::map<int, Object> &m)
        {
            Array a;
            for (auto &i : m)
            {
                while ((int) a.size () < i.first) a.push_back (nullptr);
                a.push_back (std::move (i.second));
            }
            return a;
        };
        o["fns"] = dump (D.Fns);
        o["vars"] = dump (D.Vars);
        o["recs"] = dump (D.Recs);
        o["enums"] = dump (D.Enums);
        o["types"] = std::move (D.Types);
        Array fs;
        for (auto &f : D.Files) fs.push_back (f);
        o["files"] = std::move (fs);
        Array us;
        for (auto &u : D.Unsupported) us.push_back (u);
        o["unsupported"] = std::move (us);
        o["includes"] = std::move (Includes);
        Array es;
        for (auto &e : Errors) es.push_back (e.second);
        o["errors"] = std::move (es);
        llvm::outs () << Value (std::move (o)) << "\n";
    }
};

struct ErrorLog : DiagnosticConsumer
{
    void HandleDiagnostic (DiagnosticsEngine::Level L, const Diagnostic &I) override
    {
        DiagnosticConsumer::HandleDiagnostic (L, I);
        if (L < DiagnosticsEngine::Error) return;
        SmallString<200> m;
        I.FormatDiagnostic (m);
        std::string w;
        if (I.hasSourceManager () && I.getLocation ().isValid ())
            w = I.getLocation ().printToString (I.getSourceManager ());
        w += ": " + std::string (m);
        llvm::errs () << w << "\n";
        Errors.push_back ({I.getLocation (), w});
    }
};

struct Action : ASTFrontendAction
{
    Array Includes;
    std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &CI, StringRef) override
    {
        CI.getPreprocessor ().addPPCallbacks (std::make_unique<Incl> (CI.getSourceManager (), Includes));
        return std::make_unique<Consumer> (CI, Includes);
    }
};

} // namespace

int main (int argc, const char **argv)
{
    if (argc < 4) { llvm::errs () << "usage: spocfacts ROOTS FILE -- args\n"; return 2; }
    std::string r = argv[1];
    size_t p = 0;
    while (p <= r.size ())
    {
        size_t q = r.find (':', p);
        if (q == std::string::npos) q = r.size ();
        if (q > p) Roots.push_back (r.substr (p, q - p));
        p = q + 1;
    }
    std::vector<std::string> args (argv + 4, argv + argc);
    args.push_back ("-fno-spell-checking");
    args.push_back ("-ferror-limit=0");
    tooling::FixedCompilationDatabase db (".", args);
    tooling::ClangTool t (db, {argv[2]});
    ErrorLog log;
    t.setDiagnosticConsumer (&log);
    return t.run (tooling::newFrontendActionFactory<Action> ().get ());
}
