// Fact exporter: parses one translation unit with clang and dumps, as JSON lines, every
// function defined in the project (typed syntax trees with resolved callees, evaluated
// constants), every record and every enum.  All the analyses read this dump.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <unordered_map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;
static llvm::raw_ostream *gOut;

namespace
{
   class Dumper
   {
   public:
      explicit Dumper( ASTContext &c ) : C( c ), SM( c.getSourceManager() ), PP( c.getPrintingPolicy() )
      {
         PP.SuppressTagKeyword = true;
         PP.FullyQualifiedName = true;
         PP.SuppressUnwrittenScope = true;
         PP.TerseOutput = true;
      }

      ASTContext &C;
      SourceManager &SM;
      PrintingPolicy PP;
      std::unordered_map<const Decl *, int> ids;
      int nextId = 1;
      const FunctionDecl *curFn = nullptr;

      int idOf( const Decl *d )
      {
         d = d->getCanonicalDecl();
         auto it = ids.find( d );
         if ( it != ids.end() )
            return it->second;
         int i = nextId++;
         ids[d] = i;
         return i;
      }

      std::string fileOf( SourceLocation l )
      {
         l = SM.getExpansionLoc( l );
         if ( l.isInvalid() )
            return "";
         return SM.getFilename( l ).str();
      }
      unsigned lineOf( SourceLocation l )
      {
         l = SM.getExpansionLoc( l );
         return l.isValid() ? SM.getSpellingLineNumber( l ) : 0;
      }
      bool inProject( const Decl *d )
      {
         std::string f = fileOf( d->getLocation() );
         if ( f.rfind( gRoot + "/src/", 0 ) == 0 )
            return true;
         if ( f.rfind( gRoot + "/include/", 0 ) == 0 )
            return true;
         return false;
      }

      std::string usr( const Decl *d )
      {
         // A top-level const on a parameter of the definition must not change the name
         if ( auto *fd = dyn_cast<FunctionDecl>( d ) )
            d = fd->getCanonicalDecl();
         llvm::SmallString<128> buf;
         if ( index::generateUSRForDecl( d, buf ) )
            return "";
         return std::string( buf.str() );
      }

      std::string tyStr( QualType t )
      {
         t = t.getCanonicalType().getUnqualifiedType();
         return t.getAsString( PP );
      }

      // short type code
      std::string ty( QualType t )
      {
         if ( t.isNull() )
            return "?";
         t = t.getCanonicalType();
         if ( t->isReferenceType() )
            return "&" + ty( t->getPointeeType() );
         if ( t->isPointerType() )
            return "*" + ty( t->getPointeeType() );
         t = t.getUnqualifiedType();
         if ( t->isBooleanType() )
            return "b";
         if ( t->isVoidType() )
            return "v";
         if ( const auto *e = t->getAs<EnumType>() )
            return "E:" + e->getDecl()->getQualifiedNameAsString();
         if ( t->isIntegerType() )
            return std::string( t->isSignedIntegerType() ? "i" : "u" ) + std::to_string( C.getTypeSize( t ) );
         if ( t->isRealFloatingType() )
            return "f" + std::to_string( C.getTypeSize( t ) );
         if ( const auto *r = t->getAsCXXRecordDecl() )
            return "R:" + recName( r );
         if ( const auto *a = C.getAsArrayType( t ) )
         {
            if ( const auto *ca = dyn_cast<ConstantArrayType>( a ) )
               return "A" + std::to_string( ca->getSize().getZExtValue() ) + ":" + ty( a->getElementType() );
            return "A:" + ty( a->getElementType() );
         }
         return "?" + t.getAsString( PP );
      }

      std::string recName( const CXXRecordDecl *r )
      {
         std::string s;
         llvm::raw_string_ostream os( s );
         if ( r->isLambda() )
            return "lambda@" + std::to_string( lineOf( r->getLocation() ) );
         r->getNameForDiagnostic( os, PP, true );
         return os.str();
      }

      std::string qn( const NamedDecl *d )
      {
         std::string s;
         llvm::raw_string_ostream os( s );
         if ( const auto *m = dyn_cast<CXXMethodDecl>( d ) )
         {
            return recName( m->getParent() ) + "::" + m->getNameAsString();
         }
         if ( const auto *f = dyn_cast<FieldDecl>( d ) )
         {
            if ( const auto *r = dyn_cast<CXXRecordDecl>( f->getParent() ) )
               return recName( r ) + "::" + f->getNameAsString();
         }
         d->getNameForDiagnostic( os, PP, true );
         return os.str();
      }

      void setLoc( Object &o, SourceLocation l )
      {
         o["l"] = (int64_t)lineOf( l );
      }

      // constant evaluation
      void constInfo( const Expr *e, Object &o )
      {
         if ( e->isValueDependent() || e->isTypeDependent() )
            return;
         QualType t = e->getType();
         if ( t.isNull() )
            return;
         if ( t->isIntegralOrEnumerationType() && e->isPRValue() )
         {
            Expr::EvalResult r;
            if ( e->EvaluateAsInt( r, C, Expr::SE_NoSideEffects ) )
            {
               llvm::SmallString<32> s;
               r.Val.getInt().toString( s, 10 );
               o["cv"] = std::string( s.str() );
            }
         }
         else if ( t->isRealFloatingType() && e->isPRValue() )
         {
            llvm::APFloat f( 0.0 );
            if ( e->EvaluateAsFloat( f, C, Expr::SE_NoSideEffects ) )
            {
               llvm::SmallString<64> s;
               f.toString( s, 40, 0 );
               o["cf"] = std::string( s.str() );
            }
         }
      }

      // positions of the arguments a callee may change through a reference
      void mutableArgs( Object &o, const FunctionDecl *f, unsigned shift )
      {
         Array r;
         for ( unsigned i = 0; i < f->getNumParams(); ++i )
         {
            QualType t = f->getParamDecl( i )->getType();
            if ( t->isLValueReferenceType() && !t.getNonReferenceType().isConstQualified() )
               r.push_back( static_cast<int64_t>( i + shift ) );
         }
         if ( !r.empty() )
            o["mr"] = std::move( r );
      }

      Value ex( const Expr *e )
      {
         if ( !e )
            return nullptr;
         const Expr *outer = e;
         // strip transparent wrappers
         for ( ;; )
         {
            if ( auto *p = dyn_cast<ParenExpr>( e ) )
               e = p->getSubExpr();
            else if ( auto *p = dyn_cast<ExprWithCleanups>( e ) )
               e = p->getSubExpr();
            else if ( auto *p = dyn_cast<MaterializeTemporaryExpr>( e ) )
               e = p->getSubExpr();
            else if ( auto *p = dyn_cast<CXXBindTemporaryExpr>( e ) )
               e = p->getSubExpr();
            else if ( auto *p = dyn_cast<ConstantExpr>( e ) )
               e = p->getSubExpr();
            else if ( auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>( e ) )
               e = p->getReplacement();
            else if ( auto *p = dyn_cast<CXXDefaultArgExpr>( e ) )
               e = p->getExpr();
            else if ( auto *p = dyn_cast<CXXDefaultInitExpr>( e ) )
               e = p->getExpr();
            else if ( auto *p = dyn_cast<CXXStdInitializerListExpr>( e ) )
               e = p->getSubExpr();
            else if ( auto *c = dyn_cast<CastExpr>( e ) )
            {
               CastKind k = c->getCastKind();
               if ( k == CK_NoOp || k == CK_LValueToRValue || k == CK_FunctionToPointerDecay ||
                    k == CK_ArrayToPointerDecay || k == CK_ConstructorConversion ||
                    k == CK_UserDefinedConversion || k == CK_DerivedToBase ||
                    k == CK_UncheckedDerivedToBase || k == CK_BuiltinFnToFnPtr )
                  e = c->getSubExpr();
               else
                  break;
            }
            else
               break;
         }

         Object o;
         setLoc( o, e->getExprLoc() );
         o["t"] = ty( e->getType() );
         if ( e->isGLValue() )
            o["lv"] = true;
         constInfo( e, o );
         if ( outer != e && !o.get( "cv" ) && !o.get( "cf" ) )
            constInfo( outer, o );

         if ( auto *x = dyn_cast<IntegerLiteral>( e ) )
         {
            o["k"] = "int";
         }
         else if ( auto *x = dyn_cast<CXXBoolLiteralExpr>( e ) )
         {
            o["k"] = "int";
            o["cv"] = x->getValue() ? "1" : "0";
         }
         else if ( isa<CharacterLiteral>( e ) )
         {
            o["k"] = "int";
         }
         else if ( isa<FloatingLiteral>( e ) )
         {
            o["k"] = "float";
         }
         else if ( isa<CXXNullPtrLiteralExpr>( e ) || isa<GNUNullExpr>( e ) )
         {
            o["k"] = "null";
         }
         else if ( auto *x = dyn_cast<StringLiteral>( e ) )
         {
            o["k"] = "str";
            if ( x->getCharByteWidth() == 1 )
            {
               std::string s = x->getString().str();
               if ( llvm::json::isUTF8( s ) )
                  o["v"] = s;
               else
                  o["v"] = llvm::json::fixUTF8( s );
            }
            else
            {
               // wide: decode ASCII subset
               std::string s;
               for ( unsigned i = 0; i < x->getLength(); i++ )
                  s.push_back( (char)( x->getCodeUnit( i ) & 0x7f ) );
               o["v"] = s;
            }
         }
         else if ( auto *x = dyn_cast<PredefinedExpr>( e ) )
         {
            o["k"] = "str";
            o["v"] = "__func__";
         }
         else if ( auto *x = dyn_cast<DeclRefExpr>( e ) )
         {
            const ValueDecl *d = x->getDecl();
            o["n"] = d->getNameAsString();
            if ( isa<EnumConstantDecl>( d ) )
            {
               o["k"] = "enum";
               o["qn"] = qn( d );
            }
            else if ( auto *fd = dyn_cast<FunctionDecl>( d ) )
            {
               o["k"] = "fref";
               o["qn"] = qn( fd );
               o["id"] = usr( fd );
            }
            else
            {
               o["k"] = "ref";
               bool global = false;
               if ( auto *v = dyn_cast<VarDecl>( d ) )
                  global = v->hasGlobalStorage() && !v->isStaticLocal();
               if ( global )
               {
                  o["g"] = true;
                  o["qn"] = qn( d );
               }
               else
                  o["id"] = idOf( d );
               if ( isa<ParmVarDecl>( d ) )
                  o["parm"] = true;
            }
         }
         else if ( auto *x = dyn_cast<MemberExpr>( e ) )
         {
            const ValueDecl *d = x->getMemberDecl();
            o["n"] = d->getNameAsString();
            o["qn"] = qn( d );
            if ( auto *v = dyn_cast<VarDecl>( d ) )
            {
               o["k"] = "ref";
               o["g"] = true;
            }
            else
            {
               o["k"] = "mem";
               o["b"] = ex( x->getBase() );
               o["arrow"] = x->isArrow();
            }
         }
         else if ( isa<CXXThisExpr>( e ) )
         {
            o["k"] = "this";
         }
         else if ( auto *x = dyn_cast<UnaryOperator>( e ) )
         {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr( x->getOpcode() ).str();
            o["post"] = x->isPostfix();
            o["a"] = ex( x->getSubExpr() );
         }
         else if ( auto *x = dyn_cast<CompoundAssignOperator>( e ) )
         {
            o["k"] = "casg";
            o["op"] = BinaryOperator::getOpcodeStr( x->getOpcode() ).drop_back().str();
            o["ct"] = ty( x->getComputationResultType() );
            o["a"] = ex( x->getLHS() );
            o["b"] = ex( x->getRHS() );
         }
         else if ( auto *x = dyn_cast<BinaryOperator>( e ) )
         {
            if ( x->getOpcode() == BO_Assign )
               o["k"] = "asg";
            else
            {
               o["k"] = "bin";
               o["op"] = x->getOpcodeStr().str();
            }
            o["a"] = ex( x->getLHS() );
            o["b"] = ex( x->getRHS() );
         }
         else if ( auto *x = dyn_cast<AbstractConditionalOperator>( e ) )
         {
            o["k"] = "cond";
            o["c"] = ex( x->getCond() );
            o["a"] = ex( x->getTrueExpr() );
            o["b"] = ex( x->getFalseExpr() );
         }
         else if ( auto *x = dyn_cast<OpaqueValueExpr>( e ) )
         {
            return ex( x->getSourceExpr() );
         }
         else if ( auto *x = dyn_cast<CastExpr>( e ) )
         {
            o["k"] = "cast";
            o["ck"] = x->getCastKindName();
            o["exp"] = isa<ExplicitCastExpr>( x );
            o["ft"] = ty( x->getSubExpr()->getType() );
            o["a"] = ex( x->getSubExpr() );
         }
         else if ( auto *x = dyn_cast<CXXMemberCallExpr>( e ) )
         {
            o["k"] = "mcall";
            const CXXMethodDecl *m = x->getMethodDecl();
            if ( m )
            {
               const CXXMethodDecl *md = m;
               o["id"] = usr( md );
               o["qn"] = qn( md );
               o["n"] = md->getNameAsString();
               bool virt = md->isVirtual();
               if ( auto *me = dyn_cast<MemberExpr>( x->getCallee()->IgnoreParens() ) )
               {
                  if ( me->hasQualifier() )
                     virt = false;
                  o["arrow"] = me->isArrow();
               }
               o["virt"] = virt;
               o["cm"] = md->isConst();
            }
            o["o"] = ex( x->getImplicitObjectArgument() );
            Array a;
            for ( const Expr *s : x->arguments() )
               a.push_back( ex( s ) );
            o["as"] = std::move( a );
            if ( m )
               mutableArgs( o, m, 0 );
         }
         else if ( auto *x = dyn_cast<CXXOperatorCallExpr>( e ) )
         {
            const FunctionDecl *f = x->getDirectCallee();
            o["k"] = "opcall";
            o["op"] = getOperatorSpelling( x->getOperator() );
            if ( f )
            {
               o["id"] = usr( f );
               o["qn"] = qn( f );
               o["n"] = f->getNameAsString();
               if ( auto *m = dyn_cast<CXXMethodDecl>( f ) )
               {
                  o["meth"] = true;
                  o["cm"] = m->isConst();
                  if ( m->getParent()->isLambda() )
                     o["lam"] = true;
               }
            }
            Array a;
            for ( const Expr *s : x->arguments() )
               a.push_back( ex( s ) );
            o["as"] = std::move( a );
            if ( f )
               mutableArgs( o, f, isa<CXXMethodDecl>( f ) ? 1 : 0 );
         }
         else if ( auto *x = dyn_cast<CallExpr>( e ) )
         {
            o["k"] = "call";
            if ( const FunctionDecl *f = x->getDirectCallee() )
            {
               o["id"] = usr( f );
               o["qn"] = qn( f );
               o["n"] = f->getNameAsString();
               if ( f->isNoReturn() )
                  o["noret"] = true;
            }
            else
               o["fn"] = ex( x->getCallee() );
            Array a;
            for ( const Expr *s : x->arguments() )
               a.push_back( ex( s ) );
            o["as"] = std::move( a );
            if ( const FunctionDecl *f = x->getDirectCallee() )
               mutableArgs( o, f, 0 );
         }
         else if ( auto *x = dyn_cast<CXXConstructExpr>( e ) )
         {
            o["k"] = "ctor";
            const CXXConstructorDecl *d = x->getConstructor();
            o["id"] = usr( d );
            o["qn"] = qn( d );
            o["cls"] = recName( d->getParent() );
            o["copy"] = d->isCopyOrMoveConstructor();
            Array a;
            for ( const Expr *s : x->arguments() )
               a.push_back( ex( s ) );
            o["as"] = std::move( a );
         }
         else if ( auto *x = dyn_cast<CXXNewExpr>( e ) )
         {
            o["k"] = "new";
            o["at"] = ty( x->getAllocatedType() );
            if ( x->isArray() && x->getArraySize() && *x->getArraySize() )
               o["n"] = ex( *x->getArraySize() );
            o["arr"] = x->isArray();
            if ( x->getInitializer() )
               o["i"] = ex( x->getInitializer() );
         }
         else if ( auto *x = dyn_cast<CXXDeleteExpr>( e ) )
         {
            o["k"] = "delete";
            o["arr"] = x->isArrayForm();
            o["a"] = ex( x->getArgument() );
            if ( x->getArgument()->getType()->isPointerType() )
               o["pt"] = ty( x->getArgument()->getType()->getPointeeType() );
         }
         else if ( auto *x = dyn_cast<CXXThrowExpr>( e ) )
         {
            o["k"] = "throw";
            o["a"] = ex( x->getSubExpr() );
         }
         else if ( auto *x = dyn_cast<ArraySubscriptExpr>( e ) )
         {
            o["k"] = "idx";
            o["a"] = ex( x->getBase() );
            o["b"] = ex( x->getIdx() );
         }
         else if ( auto *x = dyn_cast<InitListExpr>( e ) )
         {
            o["k"] = "ilist";
            Array a;
            for ( const Expr *s : x->inits() )
               a.push_back( ex( s ) );
            o["as"] = std::move( a );
         }
         else if ( auto *x = dyn_cast<LambdaExpr>( e ) )
         {
            o["k"] = "lambda";
            const CXXMethodDecl *m = x->getCallOperator();
            o["id"] = usr( m );
            Array ps;
            for ( const ParmVarDecl *p : m->parameters() )
            {
               Object po;
               po["id"] = idOf( p );
               po["n"] = p->getNameAsString();
               po["t"] = ty( p->getType() );
               ps.push_back( std::move( po ) );
            }
            o["ps"] = std::move( ps );
            o["body"] = st( x->getBody() );
            Array caps;
            for ( const LambdaCapture &c : x->captures() )
               if ( c.capturesVariable() )
               {
                  Object co;
                  co["id"] = idOf( c.getCapturedVar() );
                  co["ref"] = c.getCaptureKind() == LCK_ByRef;
                  if ( auto *v = dyn_cast<VarDecl>( c.getCapturedVar() ) )
                     if ( v->isInitCapture() )
                        co["i"] = ex( v->getInit() );
                  caps.push_back( std::move( co ) );
               }
            o["caps"] = std::move( caps );
         }
         else if ( auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>( e ) )
         {
            o["k"] = "int";
         }
         else if ( auto *x = dyn_cast<CXXScalarValueInitExpr>( e ) )
         {
            o["k"] = "zero";
         }
         else if ( auto *x = dyn_cast<ImplicitValueInitExpr>( e ) )
         {
            o["k"] = "zero";
         }
         else if ( auto *x = dyn_cast<CXXTypeidExpr>( e ) )
         {
            o["k"] = "opaque";
         }
         else
         {
            o["k"] = "opaque";
            o["cls"] = e->getStmtClassName();
            Array a;
            for ( const Stmt *s : e->children() )
               if ( auto *se = dyn_cast_or_null<Expr>( s ) )
                  a.push_back( ex( se ) );
            o["as"] = std::move( a );
         }
         return std::move( o );
      }

      Object var( const VarDecl *v )
      {
         Object o;
         o["id"] = idOf( v );
         o["n"] = v->getNameAsString();
         o["t"] = ty( v->getType() );
         o["l"] = (int64_t)lineOf( v->getLocation() );
         if ( v->isStaticLocal() )
         {
            o["static"] = true;
            o["const"] = v->getType().isConstQualified() || v->isConstexpr();
         }
         if ( v->hasInit() )
            o["i"] = ex( v->getInit() );
         return o;
      }

      Value st( const Stmt *s )
      {
         if ( !s )
            return nullptr;
         if ( auto *e = dyn_cast<Expr>( s ) )
         {
            Object o;
            o["k"] = "expr";
            o["l"] = (int64_t)lineOf( e->getBeginLoc() );
            o["e"] = ex( e );
            return std::move( o );
         }
         Object o;
         setLoc( o, s->getBeginLoc() );
         if ( auto *x = dyn_cast<CompoundStmt>( s ) )
         {
            o["k"] = "blk";
            Array a;
            for ( const Stmt *c : x->body() )
               a.push_back( st( c ) );
            o["s"] = std::move( a );
            o["el"] = (int64_t)lineOf( x->getRBracLoc() );
         }
         else if ( auto *x = dyn_cast<DeclStmt>( s ) )
         {
            o["k"] = "decl";
            Array a;
            for ( const Decl *d : x->decls() )
               if ( auto *v = dyn_cast<VarDecl>( d ) )
                  a.push_back( var( v ) );
            o["vs"] = std::move( a );
         }
         else if ( auto *x = dyn_cast<IfStmt>( s ) )
         {
            o["k"] = "if";
            if ( x->getInit() )
               o["i"] = st( x->getInit() );
            if ( auto *v = x->getConditionVariable() )
               o["cvar"] = var( v );
            o["c"] = ex( x->getCond() );
            o["a"] = st( x->getThen() );
            o["b"] = st( x->getElse() );
         }
         else if ( auto *x = dyn_cast<ForStmt>( s ) )
         {
            o["k"] = "for";
            o["i"] = st( x->getInit() );
            o["c"] = ex( x->getCond() );
            o["n"] = ex( x->getInc() );
            o["a"] = st( x->getBody() );
         }
         else if ( auto *x = dyn_cast<WhileStmt>( s ) )
         {
            o["k"] = "while";
            if ( auto *v = x->getConditionVariable() )
               o["cvar"] = var( v );
            o["c"] = ex( x->getCond() );
            o["a"] = st( x->getBody() );
         }
         else if ( auto *x = dyn_cast<DoStmt>( s ) )
         {
            o["k"] = "do";
            o["c"] = ex( x->getCond() );
            o["a"] = st( x->getBody() );
         }
         else if ( auto *x = dyn_cast<CXXForRangeStmt>( s ) )
         {
            o["k"] = "rfor";
            o["r"] = ex( x->getRangeInit() );
            o["v"] = var( x->getLoopVariable() );
            o["a"] = st( x->getBody() );
         }
         else if ( auto *x = dyn_cast<SwitchStmt>( s ) )
         {
            o["k"] = "switch";
            if ( x->getInit() )
               o["i"] = st( x->getInit() );
            if ( auto *v = x->getConditionVariable() )
               o["cvar"] = var( v );
            o["c"] = ex( x->getCond() );
            o["a"] = st( x->getBody() );
         }
         else if ( auto *x = dyn_cast<CaseStmt>( s ) )
         {
            o["k"] = "case";
            o["v"] = ex( x->getLHS() );
            o["a"] = st( x->getSubStmt() );
         }
         else if ( auto *x = dyn_cast<DefaultStmt>( s ) )
         {
            o["k"] = "default";
            o["a"] = st( x->getSubStmt() );
         }
         else if ( isa<BreakStmt>( s ) )
            o["k"] = "break";
         else if ( isa<ContinueStmt>( s ) )
            o["k"] = "continue";
         else if ( auto *x = dyn_cast<ReturnStmt>( s ) )
         {
            o["k"] = "ret";
            o["e"] = ex( x->getRetValue() );
         }
         else if ( auto *x = dyn_cast<CXXTryStmt>( s ) )
         {
            o["k"] = "try";
            o["a"] = st( x->getTryBlock() );
            Array hs;
            for ( unsigned i = 0; i < x->getNumHandlers(); i++ )
            {
               const CXXCatchStmt *h = x->getHandler( i );
               Object ho;
               ho["l"] = (int64_t)lineOf( h->getBeginLoc() );
               if ( h->getExceptionDecl() )
               {
                  ho["v"] = var( h->getExceptionDecl() );
                  ho["ct"] = ty( h->getCaughtType() );
               }
               ho["a"] = st( h->getHandlerBlock() );
               hs.push_back( std::move( ho ) );
            }
            o["hs"] = std::move( hs );
         }
         else if ( isa<NullStmt>( s ) )
            o["k"] = "null";
         else if ( auto *x = dyn_cast<AttributedStmt>( s ) )
            return st( x->getSubStmt() );
         else if ( auto *x = dyn_cast<LabelStmt>( s ) )
         {
            o["k"] = "label";
            o["n"] = x->getName();
            o["a"] = st( x->getSubStmt() );
         }
         else if ( auto *x = dyn_cast<GotoStmt>( s ) )
         {
            o["k"] = "goto";
            o["n"] = x->getLabel()->getNameAsString();
         }
         else
         {
            o["k"] = "opaque";
            o["cls"] = s->getStmtClassName();
         }
         return std::move( o );
      }

      std::set<const Decl *> done;

      void emit( Object o )
      {
         *gOut << Value( std::move( o ) ) << "\n";
      }

      void function( const FunctionDecl *f )
      {
         if ( !f->doesThisDeclarationHaveABody() && !f->isDefaulted() )
            return;
         if ( f->isDependentContext() || f->getType()->isDependentType() )
            return;
         if ( !inProject( f ) )
            return;
         if ( auto *m = dyn_cast<CXXMethodDecl>( f ) )
            if ( m->getParent()->isLambda() )
               return;
         if ( !f->hasBody() )
            return;
         if ( !done.insert( f ).second )
            return;
         Object o;
         o["k"] = "fn";
         o["id"] = usr( f );
         o["qn"] = qn( f );
         o["n"] = f->getNameAsString();
         o["file"] = fileOf( f->getLocation() );
         o["l"] = (int64_t)lineOf( f->getLocation() );
         o["el"] = (int64_t)lineOf( f->getEndLoc() );
         o["ret"] = ty( f->getReturnType() );
         o["imp"] = f->isImplicit() || f->isDefaulted();
         o["lnk"] = f->isExternallyVisible();
         if ( auto *pt = f->getType()->getAs<FunctionProtoType>() )
            o["noexc"] = isNoexceptExceptionSpec( pt->getExceptionSpecType() );
         std::string kind = "func";
         o["static"] = !f->isExternallyVisible();
         if ( auto *fp = f->getType()->getAs<FunctionProtoType>() )
            if ( fp->hasNoexceptExceptionSpec() && fp->canThrow() == CT_Cannot )
               o["nx"] = true;
         if ( auto *m = dyn_cast<CXXMethodDecl>( f ) )
         {
            kind = "method";
            o["cls"] = recName( m->getParent() );
            o["static"] = m->isStatic();
            o["cm"] = m->isConst();
            o["virt"] = m->isVirtual();
            Array ov;
            for ( const CXXMethodDecl *b : m->overridden_methods() )
               ov.push_back( usr( b ) );
            o["ov"] = std::move( ov );
            o["acc"] = (int)m->getAccess();
            if ( isa<CXXDestructorDecl>( f ) )
               kind = "dtor";
            if ( isa<CXXConversionDecl>( f ) )
               kind = "conv";
            if ( auto *c = dyn_cast<CXXConstructorDecl>( f ) )
            {
               kind = "ctor";
               o["copy"] = c->isCopyOrMoveConstructor();
               Array is;
               for ( const CXXCtorInitializer *i : c->inits() )
               {
                  Object io;
                  if ( i->isAnyMemberInitializer() )
                  {
                     io["f"] = i->getAnyMember()->getNameAsString();
                     io["qn"] = qn( i->getAnyMember() );
                     io["ft"] = ty( i->getAnyMember()->getType() );
                  }
                  else if ( i->isBaseInitializer() )
                     io["b"] = ty( QualType( i->getBaseClass(), 0 ) );
                  else if ( i->isDelegatingInitializer() )
                     io["d"] = true;
                  io["w"] = i->isWritten();
                  io["l"] = (int64_t)lineOf( i->getSourceLocation() );
                  io["e"] = ex( i->getInit() );
                  is.push_back( std::move( io ) );
               }
               o["inits"] = std::move( is );
            }
         }
         o["kind"] = kind;
         Array ps;
         for ( const ParmVarDecl *p : f->parameters() )
         {
            Object po;
            po["id"] = idOf( p );
            po["n"] = p->getNameAsString();
            po["t"] = ty( p->getType() );
            ps.push_back( std::move( po ) );
         }
         o["ps"] = std::move( ps );
         curFn = f;
         o["body"] = st( f->getBody() );
         curFn = nullptr;
         emit( std::move( o ) );
      }

      void record( const CXXRecordDecl *r )
      {
         if ( !r->isCompleteDefinition() || r->isDependentContext() || r->isLambda() )
            return;
         if ( !inProject( r ) )
            return;
         if ( !done.insert( r ).second )
            return;
         Object o;
         o["k"] = "rec";
         o["qn"] = recName( r );
         o["file"] = fileOf( r->getLocation() );
         o["l"] = (int64_t)lineOf( r->getLocation() );
         Array fs;
         for ( const FieldDecl *f : r->fields() )
         {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty( f->getType() );
            fo["acc"] = (int)f->getAccess();
            if ( f->isBitField() )
               fo["bits"] = (int64_t)f->getBitWidthValue( C );
            if ( f->hasInClassInitializer() && f->getInClassInitializer() )
               fo["i"] = ex( f->getInClassInitializer() );
            fs.push_back( std::move( fo ) );
         }
         o["fs"] = std::move( fs );
         Array bs;
         for ( const CXXBaseSpecifier &b : r->bases() )
            bs.push_back( ty( b.getType() ) );
         o["bs"] = std::move( bs );
         o["abs"] = r->isAbstract();
         o["udtor"] = r->hasUserDeclaredDestructor();
         o["tdtor"] = r->hasTrivialDestructor();
         if ( !r->isInvalidDecl() )
            o["size"] = (int64_t)C.getASTRecordLayout( r ).getSize().getQuantity();
         Array ms;
         for ( const CXXMethodDecl *m : r->methods() )
         {
            Object mo;
            mo["id"] = usr( m );
            mo["n"] = m->getNameAsString();
            mo["acc"] = (int)m->getAccess();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["del"] = m->isDeleted();
            mo["imp"] = m->isImplicit();
            mo["cm"] = m->isConst();
            mo["static"] = m->isStatic();
            Array ov;
            for ( const CXXMethodDecl *b : m->overridden_methods() )
               ov.push_back( usr( b ) );
            mo["ov"] = std::move( ov );
            Array ps;
            for ( const ParmVarDecl *p : m->parameters() )
               ps.push_back( ty( p->getType() ) );
            mo["ps"] = std::move( ps );
            mo["ret"] = ty( m->getReturnType() );
            ms.push_back( std::move( mo ) );
         }
         o["ms"] = std::move( ms );
         emit( std::move( o ) );
      }

      void enumd( const EnumDecl *d )
      {
         if ( !inProject( d ) || !d->isCompleteDefinition() )
            return;
         if ( !done.insert( d ).second )
            return;
         Object o;
         o["k"] = "enum";
         o["qn"] = d->getQualifiedNameAsString();
         o["file"] = fileOf( d->getLocation() );
         Array es;
         for ( const EnumConstantDecl *e : d->enumerators() )
         {
            Object eo;
            eo["n"] = e->getNameAsString();
            llvm::SmallString<32> s;
            e->getInitVal().toString( s, 10 );
            eo["v"] = std::string( s.str() );
            es.push_back( std::move( eo ) );
         }
         o["es"] = std::move( es );
         emit( std::move( o ) );
      }

      void global( const VarDecl *v )
      {
         if ( !inProject( v ) || v->isStaticLocal() || !v->hasGlobalStorage() )
            return;
         if ( v->getDeclContext()->isDependentContext() )
            return;
         const bool fixed = v->getType().isConstQualified() || v->isConstexpr();
         if ( !v->hasInit() && ( fixed || v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly ) )
            return;
         if ( v->hasInit() && v->getInit()->isValueDependent() )
            return;
         if ( !done.insert( v ).second )
            return;
         Object o = var( v );
         o["k"] = "gvar";
         o["const"] = fixed;
         o["qn"] = qn( v );
         o["file"] = fileOf( v->getLocation() );
         emit( std::move( o ) );
      }
   };

   class V : public RecursiveASTVisitor<V>
   {
   public:
      explicit V( Dumper &d ) : D( d )
      {
      }
      Dumper &D;
      bool shouldVisitTemplateInstantiations() const
      {
         return true;
      }
      bool shouldVisitImplicitCode() const
      {
         return true;
      }
      bool VisitFunctionDecl( FunctionDecl *f )
      {
         D.function( f );
         return true;
      }
      bool VisitCXXRecordDecl( CXXRecordDecl *r )
      {
         D.record( r );
         return true;
      }
      bool VisitEnumDecl( EnumDecl *e )
      {
         D.enumd( e );
         return true;
      }
      bool VisitVarDecl( VarDecl *v )
      {
         D.global( v );
         return true;
      }
   };

   class Cons : public ASTConsumer
   {
   public:
      void HandleTranslationUnit( ASTContext &c ) override
      {
         if ( c.getDiagnostics().hasErrorOccurred() )
            return;
         Dumper d( c );
         V v( d );
         v.TraverseDecl( c.getTranslationUnitDecl() );
         *gOut << "{\"k\":\"end\"}\n";
      }
   };
   class Act : public ASTFrontendAction
   {
   public:
      std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance &, StringRef ) override
      {
         return std::make_unique<Cons>();
      }
   };
}

// usage: export ROOT OUT FILE -- flags...
int main( int argc, const char **argv )
{
   if ( argc < 5 )
      return 2;
   gRoot = argv[1];
   std::error_code ec;
   llvm::raw_fd_ostream os( argv[2], ec );
   if ( ec )
      return 2;
   gOut = &os;
   std::vector<std::string> flags;
   int i = 4;
   for ( ; i < argc; i++ )
      if ( std::string( argv[i] ) == "--" )
      {
         i++;
         break;
      }
   for ( ; i < argc; i++ )
      flags.push_back( argv[i] );
   tooling::FixedCompilationDatabase db( ".", flags );
   tooling::ClangTool tool( db, { argv[3] } );
   int rc = tool.run( tooling::newFrontendActionFactory<Act>().get() );
   os.flush();
   return rc;
}
