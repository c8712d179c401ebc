// Fact extractor: parses one translation unit with the clang front end and
// prints, for every function defined under the given source prefixes, its
// resolved syntax tree and its control-flow graph, plus class, enum and
// global-table records.  One JSON object per line.  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;

static std::string usr(const Decl *D) {
	llvm::SmallString<256> buf;
	if (!D || index::generateUSRForDecl(D, buf)) return "";
	return std::string(buf);
}

namespace {

struct Ctx {
	ASTContext &AC;
	SourceManager &SM;
	PrintingPolicy PP;
	std::set<std::string> *seen;
	Ctx(ASTContext &ac) : AC(ac), SM(ac.getSourceManager()), PP(ac.getPrintingPolicy()) {
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.Bool = true;
	}
	std::string file(SourceLocation L) const {
		L = SM.getExpansionLoc(L);
		PresumedLoc P = SM.getPresumedLoc(L);
		return P.isValid() ? P.getFilename() : "";
	}
	unsigned line(SourceLocation L) const {
		L = SM.getExpansionLoc(L);
		PresumedLoc P = SM.getPresumedLoc(L);
		return P.isValid() ? P.getLine() : 0;
	}
	bool mine(SourceLocation L) const {
		if (L.isInvalid()) return false;
		std::string f = file(L);
		llvm::SmallString<256> real(f);
		for (auto &p : Prefixes)
			if (llvm::StringRef(real).starts_with(p)) return true;
		return false;
	}
	std::string type(QualType T) const {
		if (T.isNull()) return "";
		return T.getCanonicalType().getAsString(PP);
	}
	std::string qname(const NamedDecl *D) const {
		std::string s;
		llvm::raw_string_ostream os(s);
		D->printQualifiedName(os, PP);
		return os.str();
	}
};

struct FnDump {
	Ctx &C;
	json::Array nodes;
	llvm::DenseMap<const Stmt *, int> ids;
	std::map<const VarDecl *, std::string> locals;
	unsigned nlocal = 0;
	const FunctionDecl *FD;
	std::string ffile;

	FnDump(Ctx &c, const FunctionDecl *fd) : C(c), FD(fd) { ffile = C.file(fd->getLocation()); }

	std::string declKey(const ValueDecl *D) {
		if (const VarDecl *V = dyn_cast<VarDecl>(D)) {
			if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
				auto it = locals.find(V);
				if (it != locals.end()) return it->second;
				std::string k = "L" + std::to_string(nlocal++) + ":" + V->getNameAsString();
				locals[V] = k;
				return k;
			}
		}
		return usr(D);
	}

	void calleeInfo(json::Object &o, const FunctionDecl *F) {
		if (!F) return;
		o["fn"] = usr(F);
		o["fq"] = C.qname(F);
		const FunctionProtoType *PT = F->getType()->getAs<FunctionProtoType>();
		bool nt = false;
		if (PT) {
			ExceptionSpecificationType est = PT->getExceptionSpecType();
			if (!isUnresolvedExceptionSpec(est)) nt = PT->isNothrow();
			else if (isa<CXXDestructorDecl>(F)) nt = true;
			else if (est == EST_Unevaluated) {
				// implicit or defaulted member: trivially nothrow only when trivial
				nt = F->isTrivial();
			}
		}
		if (F->hasAttr<NoThrowAttr>()) nt = true;
		if (nt) o["nt"] = true;
		if (F->isExternC()) o["xc"] = true;
		if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<CXX11NoReturnAttr>()) o["nr"] = true;
		if (C.SM.isInSystemHeader(F->getLocation())) o["sys"] = true;
		if (const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(F)) {
			if (M->isConst()) o["cm"] = true;
			if (M->isStatic()) o["stm"] = true;
			o["cls"] = C.qname(M->getParent());
		}
		json::Array pt;
		for (const ParmVarDecl *P : F->parameters()) pt.push_back(C.type(P->getType()));
		o["pt"] = std::move(pt);
		if (F->isVariadic()) o["va"] = true;
	}

	int ref(const Stmt *S) { return S ? node(S) : -1; }

	int node(const Stmt *S) {
		auto it = ids.find(S);
		if (it != ids.end()) return it->second;
		int id = nodes.size();
		ids[S] = id;
		nodes.push_back(nullptr);
		json::Object o;
		o["k"] = S->getStmtClassName();
		o["l"] = (int64_t)C.line(S->getBeginLoc());
		std::string f = C.file(S->getBeginLoc());
		if (f != ffile && !f.empty()) o["f"] = f;
		if (S->getBeginLoc().isMacroID()) o["mac"] = true;
		json::Array ch;
		bool generic = true;
		if (const Expr *E = dyn_cast<Expr>(S)) {
			o["t"] = C.type(E->getType());
			if (E->isGLValue()) o["lv"] = true;
			if (!E->isValueDependent() && !E->isTypeDependent() && !E->isInstantiationDependent()) {
				Expr::EvalResult R;
				if (E->getType()->isIntegralOrEnumerationType() && E->isPRValue() &&
						E->EvaluateAsInt(R, C.AC, Expr::SE_NoSideEffects)) {
					llvm::SmallString<32> s;
					R.Val.getInt().toString(s, 10);
					o["cv"] = std::string(s);
				}
			}
		}
		if (const DeclRefExpr *D = dyn_cast<DeclRefExpr>(S)) {
			o["d"] = declKey(D->getDecl());
			o["dn"] = D->getDecl()->getNameAsString();
			o["dk"] = D->getDecl()->getDeclKindName();
			if (isa<FunctionDecl>(D->getDecl()) || isa<EnumConstantDecl>(D->getDecl()) ||
					(isa<VarDecl>(D->getDecl()) && !cast<VarDecl>(D->getDecl())->isLocalVarDeclOrParm()))
				o["dq"] = C.qname(D->getDecl());
			if (const VarDecl *V = dyn_cast<VarDecl>(D->getDecl())) {
				if (V->isStaticLocal()) o["sl"] = true;
				o["dt"] = C.type(V->getType());
			}
		} else if (const MemberExpr *M = dyn_cast<MemberExpr>(S)) {
			o["m"] = M->getMemberDecl()->getNameAsString();
			o["mq"] = C.qname(M->getMemberDecl());
			o["mk"] = M->getMemberDecl()->getDeclKindName();
			if (M->isArrow()) o["arrow"] = true;
			if (M->hasQualifier()) o["qual"] = true;
			if (const FieldDecl *FDl = dyn_cast<FieldDecl>(M->getMemberDecl()))
				o["dt"] = C.type(FDl->getType());
		} else if (const BinaryOperator *B = dyn_cast<BinaryOperator>(S)) {
			o["op"] = B->getOpcodeStr().str();
		} else if (const UnaryOperator *U = dyn_cast<UnaryOperator>(S)) {
			std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
			if (U->isPostfix()) op = "post" + op;
			o["op"] = op;
		} else if (const CastExpr *CE = dyn_cast<CastExpr>(S)) {
			o["ck"] = CE->getCastKindName();
			if (const ExplicitCastExpr *EC = dyn_cast<ExplicitCastExpr>(S))
				o["wt"] = EC->getTypeAsWritten().getAsString(C.PP);
			if (CE->getCastKind() == CK_UserDefinedConversion || CE->getCastKind() == CK_ConstructorConversion)
				if (const FunctionDecl *F = dyn_cast_or_null<FunctionDecl>(CE->getConversionFunction()))
					o["conv"] = usr(F);
		} else if (const IntegerLiteral *I = dyn_cast<IntegerLiteral>(S)) {
			llvm::SmallString<32> s; I->getValue().toString(s, 10, false); o["v"] = std::string(s);
		} else if (const CharacterLiteral *CL = dyn_cast<CharacterLiteral>(S)) {
			o["v"] = std::to_string(CL->getValue());
		} else if (const FloatingLiteral *FL = dyn_cast<FloatingLiteral>(S)) {
			llvm::SmallString<32> s; FL->getValue().toString(s); o["v"] = std::string(s);
		} else if (const CXXBoolLiteralExpr *BL = dyn_cast<CXXBoolLiteralExpr>(S)) {
			o["v"] = BL->getValue() ? "1" : "0";
		} else if (const clang::StringLiteral *SL = dyn_cast<clang::StringLiteral>(S)) {
			std::string b = SL->getBytes().str();
			if (!json::isUTF8(b)) { o["bin"] = true; b = json::fixUTF8(b); }
			if (b.size() > 4096) { o["len"] = (int64_t)b.size(); b.resize(256); b = json::fixUTF8(b); }
			o["v"] = b;
		} else if (const UnaryExprOrTypeTraitExpr *UE = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
			o["trait"] = (int)UE->getKind();
			if (UE->isArgumentType()) o["at"] = C.type(UE->getArgumentType());
		} else if (const DeclStmt *DS = dyn_cast<DeclStmt>(S)) {
			generic = false;
			json::Array vars;
			for (const Decl *D : DS->decls()) {
				if (const VarDecl *V = dyn_cast<VarDecl>(D)) {
					json::Object v;
					v["d"] = declKey(V);
					v["n"] = V->getNameAsString();
					v["t"] = C.type(V->getType());
					if (V->isStaticLocal()) v["static"] = true;
					if (V->getInit()) { int c = node(V->getInit()); v["init"] = c; ch.push_back(c); }
					vars.push_back(std::move(v));
				}
			}
			o["vars"] = std::move(vars);
		} else if (const CXXCatchStmt *CS = dyn_cast<CXXCatchStmt>(S)) {
			o["ct"] = CS->getCaughtType().isNull() ? "..." : C.type(CS->getCaughtType());
			if (CS->getExceptionDecl()) o["cd"] = declKey(CS->getExceptionDecl());
		} else if (const CaseStmt *CaS = dyn_cast<CaseStmt>(S)) {
			Expr::EvalResult R;
			if (CaS->getLHS()->EvaluateAsInt(R, C.AC)) {
				llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["lo"] = std::string(s);
			}
			if (CaS->getRHS() && CaS->getRHS()->EvaluateAsInt(R, C.AC)) {
				llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["hi"] = std::string(s);
			}
		} else if (const SwitchStmt *SS = dyn_cast<SwitchStmt>(S)) {
			o["st"] = C.type(SS->getCond()->IgnoreImpCasts()->getType());
		} else if (const LabelStmt *LS = dyn_cast<LabelStmt>(S)) {
			o["label"] = LS->getName();
		} else if (const GotoStmt *GS = dyn_cast<GotoStmt>(S)) {
			o["label"] = GS->getLabel()->getNameAsString();
		} else if (const CXXNewExpr *NE = dyn_cast<CXXNewExpr>(S)) {
			o["at"] = C.type(NE->getAllocatedType());
			if (NE->isArray()) o["arr"] = true;
			if (NE->shouldNullCheckAllocation()) o["nt"] = true;
		} else if (const CXXDeleteExpr *DE = dyn_cast<CXXDeleteExpr>(S)) {
			if (DE->isArrayForm()) o["arr"] = true;
		} else if (const CXXThrowExpr *TE = dyn_cast<CXXThrowExpr>(S)) {
			if (TE->getSubExpr()) o["tt"] = C.type(TE->getSubExpr()->getType());
			else o["rethrow"] = true;
		} else if (const CXXDefaultArgExpr *DA = dyn_cast<CXXDefaultArgExpr>(S)) {
			generic = false;
			ch.push_back(ref(DA->getExpr()));
		} else if (const CXXDefaultInitExpr *DI = dyn_cast<CXXDefaultInitExpr>(S)) {
			generic = false;
			ch.push_back(ref(DI->getExpr()));
		} else if (const LambdaExpr *LE = dyn_cast<LambdaExpr>(S)) {
			generic = false;
			o["lam"] = usr(LE->getCallOperator());
			for (const Expr *I : LE->capture_inits()) ch.push_back(ref(I));
		} else if (const OpaqueValueExpr *OV = dyn_cast<OpaqueValueExpr>(S)) {
			generic = false;
			if (OV->getSourceExpr()) ch.push_back(ref(OV->getSourceExpr()));
		}
		if (const CallExpr *CE = dyn_cast<CallExpr>(S)) {
			const FunctionDecl *F = CE->getDirectCallee();
			calleeInfo(o, F);
			json::Array args;
			generic = false;
			if (const CXXOperatorCallExpr *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
				o["oop"] = getOperatorSpelling(OC->getOperator());
				ch.push_back(ref(CE->getCallee()));
				bool mem = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
				for (unsigned i = 0; i < CE->getNumArgs(); ++i) {
					int a = ref(CE->getArg(i));
					ch.push_back(a);
					if (mem && i == 0) o["obj"] = a; else args.push_back(a);
				}
			} else {
				ch.push_back(ref(CE->getCallee()));
				if (const CXXMemberCallExpr *MC = dyn_cast<CXXMemberCallExpr>(S)) {
					if (MC->getImplicitObjectArgument()) o["obj"] = ref(MC->getImplicitObjectArgument());
					if (const CXXMethodDecl *MD = MC->getMethodDecl()) {
						bool qual = false;
						if (const MemberExpr *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()))
							qual = ME->hasQualifier();
						if (MD->isVirtual() && !qual) o["virt"] = true;
					}
				}
				for (const Expr *A : CE->arguments()) { int a = ref(A); ch.push_back(a); args.push_back(a); }
			}
			o["args"] = std::move(args);
		} else if (const CXXConstructExpr *CC = dyn_cast<CXXConstructExpr>(S)) {
			generic = false;
			calleeInfo(o, CC->getConstructor());
			json::Array args;
			for (const Expr *A : CC->arguments()) { int a = ref(A); ch.push_back(a); args.push_back(a); }
			o["args"] = std::move(args);
			if (CC->getConstructor()->isCopyConstructor()) o["copy"] = true;
			if (CC->getConstructor()->isMoveConstructor()) o["move"] = true;
			if (CC->isElidable()) o["elide"] = true;
		}
		if (const IfStmt *IS = dyn_cast<IfStmt>(S)) {
			o["cond"] = ref(IS->getCond()); o["then"] = ref(IS->getThen()); o["else"] = ref(IS->getElse());
		} else if (const WhileStmt *WS = dyn_cast<WhileStmt>(S)) {
			o["cond"] = ref(WS->getCond()); o["body"] = ref(WS->getBody());
		} else if (const DoStmt *DoS = dyn_cast<DoStmt>(S)) {
			o["cond"] = ref(DoS->getCond()); o["body"] = ref(DoS->getBody());
		} else if (const ForStmt *FS = dyn_cast<ForStmt>(S)) {
			o["init"] = ref(FS->getInit()); o["cond"] = ref(FS->getCond()); o["inc"] = ref(FS->getInc()); o["body"] = ref(FS->getBody());
		} else if (const SwitchStmt *SS = dyn_cast<SwitchStmt>(S)) {
			o["cond"] = ref(SS->getCond()); o["body"] = ref(SS->getBody());
		} else if (const CXXForRangeStmt *FR = dyn_cast<CXXForRangeStmt>(S)) {
			o["body"] = ref(FR->getBody());
			o["range"] = ref(FR->getRangeInit());
		}
		if (generic)
			for (const Stmt *c : S->children()) ch.push_back(ref(c));
		if (!ch.empty()) o["c"] = std::move(ch);
		nodes[id] = std::move(o);
		return id;
	}

	json::Object run() {
		json::Object r;
		r["rec"] = "func";
		r["id"] = usr(FD);
		r["q"] = C.qname(FD);
		r["n"] = FD->getNameAsString();
		r["file"] = ffile;
		r["line"] = (int64_t)C.line(FD->getLocation());
		r["ret"] = C.type(FD->getReturnType());
		for (const FunctionDecl *D : FD->redecls()) {
			std::string df = C.file(D->getLocation());
			if (df.find("/include/Variant/") != std::string::npos) { r["pub"] = true; break; }
		}
		if (FD->isTemplateInstantiation()) r["inst"] = true;
		if (FD->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(FD)) r["static"] = true;
		if (FD->isInAnonymousNamespace()) r["anon"] = true;
		if (FD->isExternC()) r["xc"] = true;
		if (FD->isImplicit()) r["implicit"] = true;
		if (FD->isDefaulted()) r["defaulted"] = true;
		if (const FunctionProtoType *PT = FD->getType()->getAs<FunctionProtoType>())
			if (!isUnresolvedExceptionSpec(PT->getExceptionSpecType()) && PT->isNothrow()) r["nt"] = true;
		if (isa<CXXDestructorDecl>(FD)) { r["kind"] = "dtor"; r["nt"] = true; }
		else if (isa<CXXConstructorDecl>(FD)) r["kind"] = "ctor";
		else if (isa<CXXConversionDecl>(FD)) r["kind"] = "conv";
		else if (isa<CXXMethodDecl>(FD)) r["kind"] = "method";
		else r["kind"] = "func";
		if (const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(FD)) {
			r["cls"] = C.qname(M->getParent());
			r["clsusr"] = usr(M->getParent());
			if (M->isVirtual()) r["virt"] = true;
			if (M->isConst()) r["const"] = true;
			if (M->isStatic()) r["smeth"] = true;
			json::Array ov;
			for (const CXXMethodDecl *O : M->overridden_methods()) ov.push_back(usr(O));
			if (!ov.empty()) r["over"] = std::move(ov);
			static const char *acc[] = {"public", "protected", "private", "none"};
			r["access"] = acc[M->getAccess()];
		}
		if (FD->isOverloadedOperator()) r["opname"] = getOperatorSpelling(FD->getOverloadedOperator());
		json::Array ps;
		for (const ParmVarDecl *P : FD->parameters()) {
			json::Object p;
			p["d"] = declKey(P);
			p["n"] = P->getNameAsString();
			p["t"] = C.type(P->getType());
			ps.push_back(std::move(p));
		}
		r["params"] = std::move(ps);
		const Stmt *Body = FD->getBody();
		r["body"] = ref(Body);
		if (const CXXConstructorDecl *CD = dyn_cast<CXXConstructorDecl>(FD)) {
			json::Array in;
			for (const CXXCtorInitializer *I : CD->inits()) {
				json::Object io;
				if (I->isAnyMemberInitializer()) io["m"] = I->getAnyMember()->getNameAsString();
				else if (I->isBaseInitializer()) io["base"] = C.type(QualType(I->getBaseClass(), 0));
				else if (I->isDelegatingInitializer()) io["deleg"] = true;
				io["e"] = ref(I->getInit());
				if (I->isWritten()) io["w"] = true;
				in.push_back(std::move(io));
			}
			r["inits"] = std::move(in);
		}
		CFG::BuildOptions BO;
		BO.setAllAlwaysAdd();
		BO.AddImplicitDtors = true;
		BO.AddTemporaryDtors = true;
		BO.AddInitializers = true;
		BO.AddEHEdges = false;
		BO.PruneTriviallyFalseEdges = true;
		std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &C.AC, BO);
		if (G) {
			json::Array blocks;
			for (CFGBlock *B : *G) {
				json::Object bo;
				bo["id"] = (int64_t)B->getBlockID();
				json::Array el;
				for (const CFGElement &E : *B) {
					if (auto S = E.getAs<CFGStmt>()) {
						el.push_back(node(S->getStmt()));
					} else if (auto I = E.getAs<CFGInitializer>()) {
						json::Object io;
						const CXXCtorInitializer *CI = I->getInitializer();
						if (CI->isAnyMemberInitializer()) io["m"] = CI->getAnyMember()->getNameAsString();
						else if (CI->isBaseInitializer()) io["base"] = C.type(QualType(CI->getBaseClass(), 0));
						io["e"] = ref(CI->getInit());
						io["x"] = "init";
						el.push_back(std::move(io));
					} else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
						json::Object io;
						io["x"] = "dtor";
						io["d"] = declKey(D->getVarDecl());
						io["t"] = C.type(D->getVarDecl()->getType());
						const CXXDestructorDecl *DD = D->getDestructorDecl(C.AC);
						if (DD) io["fn"] = usr(DD);
						el.push_back(std::move(io));
					} else if (auto D = E.getAs<CFGTemporaryDtor>()) {
						json::Object io;
						io["x"] = "tdtor";
						io["t"] = C.type(D->getBindTemporaryExpr()->getType());
						io["e"] = node(D->getBindTemporaryExpr());
						el.push_back(std::move(io));
					} else if (auto D = E.getAs<CFGDeleteDtor>()) {
						json::Object io;
						io["x"] = "ddtor";
						el.push_back(std::move(io));
					} else if (auto D = E.getAs<CFGMemberDtor>()) {
						json::Object io;
						io["x"] = "mdtor";
						io["m"] = D->getFieldDecl()->getNameAsString();
						el.push_back(std::move(io));
					} else if (auto D = E.getAs<CFGBaseDtor>()) {
						json::Object io;
						io["x"] = "bdtor";
						io["t"] = C.type(D->getBaseSpecifier()->getType());
						el.push_back(std::move(io));
					}
				}
				bo["e"] = std::move(el);
				if (const Stmt *T = B->getTerminatorStmt()) {
					bo["term"] = node(T);
					if (B->getTerminator().isTemporaryDtorsBranch()) bo["tdb"] = true;
				}
				if (const Stmt *T = B->getTerminatorCondition()) bo["cond"] = node(T);
				if (const Stmt *L = B->getLabel()) bo["label"] = node(L);
				if (B->hasNoReturnElement()) bo["noret"] = true;
				json::Array su;
				for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
					const CFGBlock *S = it->getReachableBlock();
					su.push_back(S ? (int64_t)S->getBlockID() : (int64_t)-1);
					// the default of a switch naming every enumerator: taken only by values that are none of them
					if (!S && B->getTerminatorStmt() && isa<SwitchStmt>(B->getTerminatorStmt()) && it->getPossiblyUnreachableBlock())
						bo["du"] = (int64_t)it->getPossiblyUnreachableBlock()->getBlockID();
				}
				bo["s"] = std::move(su);
				blocks.push_back(std::move(bo));
			}
			json::Object g;
			g["entry"] = (int64_t)G->getEntry().getBlockID();
			g["exit"] = (int64_t)G->getExit().getBlockID();
			g["b"] = std::move(blocks);
			r["cfg"] = std::move(g);
		}
		r["nodes"] = std::move(nodes);
		return r;
	}
};

class V : public RecursiveASTVisitor<V> {
	Ctx &C;
	std::set<std::string> seenF, seenC;
	json::Value constInit(const APValue &A, unsigned depth = 0) {
		if (A.isInt()) { return (int64_t)A.getInt().getExtValue(); }
		if (A.isArray()) {
			json::Array a;
			unsigned n = A.getArraySize(), k = A.getArrayInitializedElts();
			for (unsigned i = 0; i < n && i < 100000; ++i) {
				if (i < k) a.push_back(constInit(A.getArrayInitializedElt(i), depth + 1));
				else if (A.hasArrayFiller()) a.push_back(constInit(A.getArrayFiller(), depth + 1));
				else a.push_back(nullptr);
			}
			return json::Value(std::move(a));
		}
		if (A.isStruct()) {
			json::Array a;
			for (unsigned i = 0; i < A.getStructNumFields(); ++i) a.push_back(constInit(A.getStructField(i), depth + 1));
			return json::Value(std::move(a));
		}
		if (A.isLValue()) {
			if (A.isNullPointer()) return nullptr;
			if (const Expr *E = A.getLValueBase().dyn_cast<const Expr *>())
				if (const clang::StringLiteral *SL = dyn_cast<clang::StringLiteral>(E)) {
					std::string b = SL->getBytes().str();
					return json::Object{{"str", json::isUTF8(b) ? b : json::fixUTF8(b)}};
				}
			if (const ValueDecl *D = A.getLValueBase().dyn_cast<const ValueDecl *>())
				return json::Object{{"decl", usr(D)}};
			return nullptr;
		}
		return nullptr;
	}
public:
	V(Ctx &c) : C(c) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	bool VisitFunctionDecl(FunctionDecl *FD) {
		if (!FD->isThisDeclarationADefinition() && !(FD->isDefaulted() && FD->getBody())) return true;
		if (!FD->getBody()) return true;
		if (FD->isDependentContext()) return true;
		if (!C.mine(FD->getLocation())) return true;
		std::string id = usr(FD);
		if (!seenF.insert(id).second) return true;
		FnDump d(C, FD);
		llvm::outs() << json::Value(d.run()) << "\n";
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
		if (!RD->isThisDeclarationADefinition() || RD->isDependentContext()) return true;
		if (!C.mine(RD->getLocation())) return true;
		std::string id = usr(RD);
		if (!seenC.insert(id).second) return true;
		json::Object r;
		r["rec"] = "class";
		r["id"] = id;
		r["q"] = C.qname(RD);
		r["file"] = C.file(RD->getLocation());
		r["line"] = (int64_t)C.line(RD->getLocation());
		if (RD->isUnion()) r["union"] = true;
		if (RD->isAnonymousStructOrUnion()) r["anon"] = true;
		if (RD->isPolymorphic()) r["poly"] = true;
		if (RD->hasUserDeclaredCopyConstructor()) r["ucc"] = true;
		if (RD->hasUserDeclaredCopyAssignment()) r["uca"] = true;
		if (RD->hasUserDeclaredDestructor()) r["udtor"] = true;
		json::Array bs;
		for (const CXXBaseSpecifier &B : RD->bases()) bs.push_back(C.type(B.getType()));
		r["bases"] = std::move(bs);
		json::Array fs;
		for (const FieldDecl *F : RD->fields()) {
			json::Object f;
			f["n"] = F->getNameAsString();
			f["t"] = C.type(F->getType());
			f["l"] = (int64_t)C.line(F->getLocation());
			if (F->hasInClassInitializer()) f["init"] = true;
			if (F->isAnonymousStructOrUnion()) f["anon"] = true;
			QualType T = F->getType();
			if (T->isScalarType()) f["scalar"] = true;
			if (T.isPODType(C.AC)) f["pod"] = true;
			fs.push_back(std::move(f));
		}
		r["fields"] = std::move(fs);
		json::Array ms;
		for (const CXXMethodDecl *M : RD->methods()) {
			json::Object m;
			m["id"] = usr(M);
			m["n"] = M->getNameAsString();
			m["ret"] = C.type(M->getReturnType());
			if (M->isVirtual()) m["virt"] = true;
			if (M->isPureVirtual()) m["pure"] = true;
			if (M->isConst()) m["const"] = true;
			if (M->isStatic()) m["static"] = true;
			if (M->isImplicit()) m["implicit"] = true;
			if (M->isDeleted()) m["deleted"] = true;
			if (M->isDefaulted()) m["defaulted"] = true;
			static const char *acc[] = {"public", "protected", "private", "none"};
			m["access"] = acc[M->getAccess()];
			json::Array pt;
			for (const ParmVarDecl *P : M->parameters()) pt.push_back(C.type(P->getType()));
			m["pt"] = std::move(pt);
			json::Array ov;
			for (const CXXMethodDecl *O : M->overridden_methods()) ov.push_back(usr(O));
			if (!ov.empty()) m["over"] = std::move(ov);
			if (isa<CXXDestructorDecl>(M)) m["kind"] = "dtor";
			else if (isa<CXXConstructorDecl>(M)) m["kind"] = "ctor";
			ms.push_back(std::move(m));
		}
		r["methods"] = std::move(ms);
		llvm::outs() << json::Value(std::move(r)) << "\n";
		return true;
	}
	bool VisitRecordDecl(RecordDecl *RD) {
		if (isa<CXXRecordDecl>(RD)) return true;
		if (!RD->isThisDeclarationADefinition() || !C.mine(RD->getLocation())) return true;
		json::Object r;
		r["rec"] = "class"; r["id"] = usr(RD); r["q"] = C.qname(RD); r["c"] = true;
		r["file"] = C.file(RD->getLocation()); r["line"] = (int64_t)C.line(RD->getLocation());
		json::Array fs;
		for (const FieldDecl *F : RD->fields()) {
			json::Object f; f["n"] = F->getNameAsString(); f["t"] = C.type(F->getType());
			if (F->getType()->isScalarType()) f["scalar"] = true;
			fs.push_back(std::move(f));
		}
		r["fields"] = std::move(fs); r["bases"] = json::Array(); r["methods"] = json::Array();
		llvm::outs() << json::Value(std::move(r)) << "\n";
		return true;
	}
	bool VisitEnumDecl(EnumDecl *ED) {
		if (!ED->isThisDeclarationADefinition() || !C.mine(ED->getLocation())) return true;
		json::Object r;
		r["rec"] = "enum";
		r["q"] = C.qname(ED);
		r["t"] = C.type(C.AC.getTypeDeclType(ED));
		r["file"] = C.file(ED->getLocation());
		r["line"] = (int64_t)C.line(ED->getLocation());
		json::Array es;
		for (const EnumConstantDecl *E : ED->enumerators()) {
			json::Object e; e["n"] = E->getNameAsString(); e["v"] = (int64_t)E->getInitVal().getExtValue(); e["u"] = usr(E);
			es.push_back(std::move(e));
		}
		r["e"] = std::move(es);
		llvm::outs() << json::Value(std::move(r)) << "\n";
		return true;
	}
	bool VisitVarDecl(VarDecl *VD) {
		if (!(VD->hasGlobalStorage()) || !VD->isThisDeclarationADefinition()) return true;
		if (VD->getDeclContext()->isDependentContext()) return true;
		if (!C.mine(VD->getLocation())) return true;
		json::Object r;
		r["rec"] = "var";
		r["id"] = usr(VD);
		r["q"] = C.qname(VD);
		r["t"] = C.type(VD->getType());
		r["file"] = C.file(VD->getLocation());
		r["line"] = (int64_t)C.line(VD->getLocation());
		if (VD->getType().isConstQualified()) r["const"] = true;
		if (const Expr *I = VD->getInit()) {
			if (!I->isValueDependent()) {
				if (const clang::StringLiteral *SL = dyn_cast<clang::StringLiteral>(I->IgnoreImpCasts())) {
					std::string b = SL->getBytes().str();
					r["str"] = json::isUTF8(b) ? b : json::fixUTF8(b);
				} else if (const APValue *A = VD->evaluateValue()) {
					r["val"] = constInit(*A);
				}
			}
		}
		llvm::outs() << json::Value(std::move(r)) << "\n";
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext &AC) override {
		if (AC.getDiagnostics().hasErrorOccurred()) { return; }
		Ctx C(AC);
		V v(C);
		v.TraverseDecl(AC.getTranslationUnitDecl());
		llvm::outs() << "{\"rec\":\"end\"}\n";
	}
};


class Action2 : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
		return std::make_unique<Consumer>();
	}
};

} // namespace

int main(int argc, const char **argv) {
	// extract PREFIX[,PREFIX...] FILE -- flags
	if (argc < 4) { llvm::errs() << "usage: extract PREFIXES FILE -- FLAGS\n"; return 2; }
	llvm::SmallVector<StringRef, 4> ps;
	StringRef(argv[1]).split(ps, ',');
	for (auto p : ps) Prefixes.push_back(p.str());
	std::string file = argv[2];
	std::vector<std::string> flags;
	for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase DB(".", flags);
	tooling::ClangTool T(DB, {file});
	return T.run(tooling::newFrontendActionFactory<Action2>().get());
}
