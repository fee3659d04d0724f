// symex: a small KLEE-class symbolic executor for LLVM-18 bitcode with Z3 as the
// deciding solver.  See /verif/DESIGN.md ("Engine") for semantics and bounds.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned char u8;

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static inline u64 maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,unsigned w){ return w>=64?(i64)v:(i64)(v<<(64-w))>>(64-w); }

// ---------------------------------------------------------------- expressions
enum Op: u8 { CONST,SYM,ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,SHL,LSHR,ASHR,EQ,ULT,ULE,SLT,SLE,ITE,ZEXT,SEXT,EXTRACT,CONCAT,AGG };
struct Expr; 
struct V { Expr *e; u64 c; };            // e==0: concrete value c
struct Expr {
  Op op; unsigned w; u64 k; Expr *a,*b,*c; size_t h; unsigned id;
  Z3_ast z,zi; u8 zis,sgn; u64 gen; u64 val; std::vector<V> *agg; u64 ones; // ones: bits that can be set
};
static u64 onesOf(Expr*e){ u64 m=maskw(e->w);
  switch(e->op){
    case CONST: return e->k&m; case ZEXT: return e->a->ones; case SEXT: return (e->a->ones>>(e->a->w-1))&1?(e->a->ones|(m&~maskw(e->a->w))):e->a->ones;
    case EXTRACT: return (e->a->ones>>e->k)&m; case CONCAT: return ((e->a->ones<<e->b->w)|e->b->ones)&m;
    case AND: return e->a->ones&e->b->ones; case OR: case XOR: return e->a->ones|e->b->ones;
    case SHL: if(e->b->op==CONST) return e->b->k>=e->w?0:(e->a->ones<<e->b->k)&m; return m;
    case LSHR: if(e->b->op==CONST) return e->b->k>=e->w?0:e->a->ones>>e->b->k; return m;
    case ITE: return e->b->ones|e->c->ones;
    default: return m; } }

static inline V mk(u64 c){ return V{0,c}; }
static inline V mk(Expr *e){ return e->op==CONST?V{0,e->k}:V{e,0}; }

struct ExprTable {
  std::vector<Expr*> tab; size_t n=0; unsigned ids=0;
  std::vector<Expr*> pool; size_t used=0;
  ExprTable():tab(1<<16,nullptr){}
  Expr *alloc(){ if(pool.empty()||used==4096){ pool.push_back((Expr*)calloc(4096,sizeof(Expr))); used=0;} return pool.back()+used++; }
  Expr *get(Op op,unsigned w,u64 k,Expr*a=0,Expr*b=0,Expr*c=0){
    size_t h=op*0x9E3779B97F4A7C15ull; 
    auto mix=[&](u64 x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; };
    mix(w);mix(k);mix(a?a->id+1:0);mix(b?b->id+1:0);mix(c?c->id+1:0);
    size_t m=tab.size()-1;
    for(size_t i=h&m;;i=(i+1)&m){ Expr*e=tab[i]; if(!e) break; if(e->h==h&&e->op==op&&e->w==w&&e->k==k&&e->a==a&&e->b==b&&e->c==c) return e; }
    if(n*2>tab.size()){ std::vector<Expr*> t(tab.size()*2,nullptr); size_t mm=t.size()-1; for(Expr*e:tab) if(e){ size_t i=e->h&mm; while(t[i]) i=(i+1)&mm; t[i]=e;} tab.swap(t); m=tab.size()-1; }
    Expr*e=alloc(); e->op=op;e->w=w;e->k=k;e->a=a;e->b=b;e->c=c;e->h=h;e->id=ids++; e->ones=onesOf(e);
    size_t i=h&m; while(tab[i]) i=(i+1)&m; tab[i]=e; n++; return e;
  }
};
static ExprTable ET;
static Expr *K(u64 v,unsigned w){ return ET.get(CONST,w,v&maskw(w)); }
static Expr *X(V v,unsigned w){ return v.e?v.e:K(v.c,w); }

static u64 fold(Op op,unsigned w,u64 a,u64 b){
  u64 m=maskw(w); a&=m;b&=m;
  switch(op){
    case ADD:return (a+b)&m; case SUB:return (a-b)&m; case MUL:return (a*b)&m;
    case UDIV:return b?a/b:m; case UREM:return b?a%b:a;
    case SDIV:{ if(!b) return sx(a,w)<0?1:m; if(sx(b,w)==-1) return (0-a)&m; return (u64)(sx(a,w)/sx(b,w))&m; }
    case SREM:{ if(!b) return a; if(sx(b,w)==-1) return 0; return (u64)(sx(a,w)%sx(b,w))&m; }
    case AND:return a&b; case OR:return a|b; case XOR:return a^b;
    case SHL:return b>=w?0:(a<<b)&m; case LSHR:return b>=w?0:a>>b; case ASHR:return (u64)(sx(a,w)>>(b>=w?w-1:b))&m;
    case EQ:return a==b; case ULT:return a<b; case ULE:return a<=b; case SLT:return sx(a,w)<sx(b,w); case SLE:return sx(a,w)<=sx(b,w);
    default: abort();
  }
}
static V bin(Op op,unsigned w,V x,V y);
static V zext(V x,unsigned fw,unsigned w);
static V sext(V x,unsigned fw,unsigned w);
static V notb(V x){ return bin(XOR,1,x,mk((u64)1)); }
static V ite(V c,V x,V y,unsigned w);
static V ext(V x,unsigned fw,unsigned off,unsigned w){ // extract w bits at off from fw-bit value
  if(!x.e) return mk((x.c>>off)&maskw(w));
  if(off==0&&w==fw) return x;
  Expr*e=x.e; u64 em=maskw(w)<<off;
  if(!(e->ones&em)) return mk((u64)0);
  if((e->op==AND||e->op==OR)&&e->b->op==CONST){ u64 kb=e->b->k&em; bool all=kb==em; if(e->op==AND){ if(!kb) return mk((u64)0); if(all) return ext(mk(e->a),fw,off,w); } else { if(!kb) return ext(mk(e->a),fw,off,w); if(all) return mk(maskw(w)); } }
  if(e->op==OR||e->op==XOR){ if(!(e->b->ones&em)) return ext(mk(e->a),fw,off,w); if(!(e->a->ones&em)) return ext(mk(e->b),fw,off,w); }
  if(e->op==LSHR&&e->b->op==CONST&&off+w+e->b->k<=fw) return ext(mk(e->a),fw,off+e->b->k,w);
  if(e->op==SHL&&e->b->op==CONST&&off>=e->b->k) return ext(mk(e->a),fw,off-e->b->k,w);
  if(e->op==SEXT&&w==1&&off>=e->a->w) return ext(mk(e->a),e->a->w,e->a->w-1,1);
  if(e->op==EXTRACT) return ext(mk(e->a),e->a->w,off+e->k,w);
  if(e->op==ZEXT){ if(off>=e->a->w) return mk((u64)0); if(off+w<=e->a->w) return ext(mk(e->a),e->a->w,off,w);
     if(off==0) { return mk(ET.get(ZEXT,w,0,e->a)); } }
  if(e->op==SEXT&&off+w<=e->a->w) return ext(mk(e->a),e->a->w,off,w);
  if(e->op==CONCAT){ unsigned lw=e->b->w; if(off+w<=lw) return ext(mk(e->b),lw,off,w); if(off>=lw) return ext(mk(e->a),e->a->w,off-lw,w); }
  if(e->op==AND||e->op==OR||e->op==XOR) return bin(e->op,w,ext(mk(e->a),fw,off,w),ext(mk(e->b),fw,off,w));
  if(e->op==ITE) { if(e->b->op==CONST||e->c->op==CONST) return ite(mk(e->a),ext(mk(e->b),fw,off,w),ext(mk(e->c),fw,off,w),w); }
  return mk(ET.get(EXTRACT,w,off,e));
}
static V zext(V x,unsigned fw,unsigned w){
  if(fw==w) return x; if(!x.e) return mk(x.c&maskw(fw));
  if(x.e->op==ZEXT) return zext(mk(x.e->a),x.e->a->w,w);
  return mk(ET.get(ZEXT,w,0,x.e));
}
static V sext(V x,unsigned fw,unsigned w){
  if(fw==w) return x; if(!x.e) return mk((u64)sx(x.c,fw)&maskw(w));
  if(x.e->op==ZEXT) return zext(mk(x.e->a),x.e->a->w,w);
  if(x.e->op==SEXT) return sext(mk(x.e->a),x.e->a->w,w);
  return mk(ET.get(SEXT,w,0,x.e));
}
static V concat(V hi,unsigned hw,V lo,unsigned lw){
  if(!hi.e&&!lo.e) return mk(((hi.c&maskw(hw))<<lw)|(lo.c&maskw(lw)));
  if(!hi.e&&hi.c==0) return zext(lo,lw,hw+lw);
  if(hi.e&&lo.e&&hi.e->op==EXTRACT&&lo.e->op==EXTRACT&&hi.e->a==lo.e->a&&hi.e->k==lo.e->k+lw) return ext(mk(hi.e->a),hi.e->a->w,lo.e->k,hw+lw);
  if(hi.e&&lo.e&&hi.e->op==EXTRACT&&hi.e->a==lo.e&&hi.e->k==lw) return ext(lo,lw,0,hw+lw);
  return mk(ET.get(CONCAT,hw+lw,0,X(hi,hw),X(lo,lw)));
}
static V ite(V c,V x,V y,unsigned w){
  if(!c.e) return (c.c&1)?x:y;
  if(x.e==y.e&&x.c==y.c) return x;
  if(w==1){
    if(!x.e&&!y.e) return x.c?c:notb(c);
    if(!x.e) return x.c?bin(OR,1,c,y):bin(AND,1,notb(c),y);
    if(!y.e) return y.c?bin(OR,1,notb(c),x):bin(AND,1,c,x);
  }
  if(c.e->op==XOR&&c.e->b->op==CONST){ return ite(mk(c.e->a),y,x,w); }
  return mk(ET.get(ITE,w,0,c.e,X(x,w),X(y,w)));
}
static V bin(Op op,unsigned w,V x,V y){
  if(!x.e&&!y.e) return mk(fold(op,w,x.c,y.c));
  u64 m=maskw(w);
  // canonical: constants on the right for commutative ops
  switch(op){ case ADD:case MUL:case AND:case OR:case XOR:case EQ:
      if(!x.e||(y.e&&x.e->id>y.e->id)) std::swap(x,y); break; default:break; }
  bool same=x.e&&x.e==y.e;
  if((op==AND||op==OR||op==XOR)&&x.e&&x.e->op==ZEXT){
    unsigned iw=x.e->a->w;
    if(y.e&&y.e->op==ZEXT&&y.e->a->w==iw) return zext(bin(op,iw,mk(x.e->a),mk(y.e->a)),iw,w);
    if(!y.e&&(y.c&~maskw(iw))==0) return zext(bin(op,iw,mk(x.e->a),mk(y.c)),iw,w);
    if(!y.e&&op==AND) return zext(bin(op,iw,mk(x.e->a),mk(y.c&maskw(iw))),iw,w);
  }
  switch(op){
    case ADD: if(!y.e&&y.c==0) return x;
      if(!y.e&&x.e->op==ADD&&x.e->b->op==CONST) return bin(ADD,w,mk(x.e->a),mk((x.e->b->k+y.c)&m)); break;
    case SUB: if(!x.e&&x.c==0&&y.e->op==ZEXT&&y.e->a->w==1) return sext(mk(y.e->a),1,w); if(same) return mk((u64)0); if(!y.e) return y.c==0?x:bin(ADD,w,x,mk((0-y.c)&m)); break;
    case MUL: if(!y.e&&y.c==0) return mk((u64)0); if(!y.e&&y.c==1) return x;
      if(!y.e&&(y.c&(y.c-1))==0) return bin(SHL,w,x,mk((u64)__builtin_ctzll(y.c))); break;
    case UDIV: if(!y.e&&y.c==1) return x; if(!y.e&&y.c&&(y.c&(y.c-1))==0) return bin(LSHR,w,x,mk((u64)__builtin_ctzll(y.c))); break;
    case UREM: if(!y.e&&y.c&&(y.c&(y.c-1))==0) return bin(AND,w,x,mk(y.c-1)); break;
    case SDIV: if(!y.e&&y.c==1) return x; break;
    case AND: if(same) return x; if(!y.e){ if((x.e->ones&y.c)==0) return mk((u64)0); if((x.e->ones&~y.c)==0) return x;
        if(x.e->op==OR||x.e->op==XOR){ if(!(x.e->a->ones&y.c)) return bin(AND,w,mk(x.e->b),y); if(!(x.e->b->ones&y.c)) return bin(AND,w,mk(x.e->a),y); }
        if(w>=32&&(y.c&(y.c-1))==0){ unsigned k=__builtin_ctzll(y.c); return bin(SHL,w,zext(ext(x,w,k,1),1,w),mk((u64)k)); }
        if(x.e->op==AND&&x.e->b->op==CONST) return bin(AND,w,mk(x.e->a),mk(x.e->b->k&y.c));
        if(x.e->op==ZEXT&&(y.c&maskw(x.e->a->w))==maskw(x.e->a->w)) return x; 
        if(y.c==1&&x.e->op==ZEXT&&x.e->a->w==1) return x; }
      if(w==1&&y.e&&y.e->op==XOR&&y.e->a==x.e&&y.e->b->op==CONST) return mk((u64)0);
      if(w==1&&y.e&&x.e->op==XOR&&x.e->a==y.e&&x.e->b->op==CONST) return mk((u64)0);
      break;
    case OR: if(same) return x; if(!y.e){ if(y.c==0) return x; if(y.c==m) return mk(m); }
      if(w==1&&y.e&&y.e->op==XOR&&y.e->a==x.e&&y.e->b->op==CONST) return mk((u64)1);
      if(w==1&&y.e&&x.e->op==XOR&&x.e->a==y.e&&x.e->b->op==CONST) return mk((u64)1);
      break;
    case XOR: if(same) return mk((u64)0); if(!y.e){ if(y.c==0) return x; if(x.e->op==XOR&&x.e->b->op==CONST) return bin(XOR,w,mk(x.e->a),mk(x.e->b->k^y.c)); } break;
    case SHL: case LSHR: if(!y.e){ if(y.c==0) return x; if(y.c>=w) return mk((u64)0); 
        if(x.e->op==op&&x.e->b->op==CONST){ u64 s=x.e->b->k+y.c; return s>=w?mk((u64)0):bin(op,w,mk(x.e->a),mk(s)); } }
      if(!x.e&&x.c==0) return mk((u64)0); break;
    case ASHR: if(!y.e&&y.c==0) return x; break;
    case EQ: if(same) return mk((u64)1);
      if(!y.e){
        if(w==1) return y.c?x:notb(x);
        Expr*e=x.e;
        if(e->op==ZEXT){ if(y.c>maskw(e->a->w)) return mk((u64)0); return bin(EQ,e->a->w,mk(e->a),mk(y.c)); }
        if(e->op==SEXT){ if(((u64)sx(y.c&maskw(e->a->w),e->a->w)&m)!=y.c) return mk((u64)0); return bin(EQ,e->a->w,mk(e->a),mk(y.c&maskw(e->a->w))); }
        if(y.c&~e->ones) return mk((u64)0);
        if(e->op==SHL&&e->b->op==CONST&&((e->a->ones<<e->b->k)&m)>>e->b->k==e->a->ones) return bin(EQ,w,mk(e->a),mk(y.c>>e->b->k));
        if(e->op==ADD&&e->b->op==CONST) return bin(EQ,w,mk(e->a),mk((y.c-e->b->k)&m));
        if(e->op==XOR&&e->b->op==CONST) return bin(EQ,w,mk(e->a),mk(y.c^e->b->k));
        if(e->op==ITE){ 
          if(e->b->op==CONST&&e->c->op==CONST){ bool p=e->b->k==y.c,q=e->c->k==y.c; return ite(mk(e->a),mk((u64)p),mk((u64)q),1); }
          if(e->b->op==CONST&&e->b->k!=y.c) return bin(AND,1,notb(mk(e->a)),bin(EQ,w,mk(e->c),y));
          if(e->c->op==CONST&&e->c->k!=y.c) return bin(AND,1,mk(e->a),bin(EQ,w,mk(e->b),y)); }
      } else {
        if(x.e->op==ZEXT&&y.e->op==ZEXT&&x.e->a->w==y.e->a->w) return bin(EQ,x.e->a->w,mk(x.e->a),mk(y.e->a));
        if(x.e->op==SEXT&&y.e->op==SEXT&&x.e->a->w==y.e->a->w) return bin(EQ,x.e->a->w,mk(x.e->a),mk(y.e->a));
      }
      break;
    case ULT: if(same) return mk((u64)0); if(!y.e&&y.c==0) return mk((u64)0); if(!y.e&&y.c==1) return bin(EQ,w,x,mk((u64)0)); if(!x.e&&x.c==m) return mk((u64)0);
      if(!y.e&&x.e->op==ZEXT){ if(y.c>maskw(x.e->a->w)) return mk((u64)1); return bin(ULT,x.e->a->w,mk(x.e->a),y); }
      if(!x.e&&y.e->op==ZEXT){ if(x.c>=maskw(y.e->a->w)) return mk((u64)0); return bin(ULT,y.e->a->w,x,mk(y.e->a)); }
      break;
    case ULE: return notb(bin(ULT,w,y,x));
    case SLE: return notb(bin(SLT,w,y,x));
    case SLT: if(same) return mk((u64)0);
      if(!y.e&&x.e->op==ZEXT&&x.e->a->w<w){ if(sx(y.c,w)<=0) return mk((u64)0); return bin(ULT,w,x,y); }
      if(!x.e&&y.e->op==ZEXT&&y.e->a->w<w){ if(sx(x.c,w)<0) return mk((u64)1); return bin(ULT,w,x,y); }
      if(x.e&&y.e&&x.e->op==SEXT&&y.e->op==SEXT&&x.e->a->w==y.e->a->w) return bin(SLT,x.e->a->w,mk(x.e->a),mk(y.e->a));
      if(x.e&&y.e&&x.e->op==ZEXT&&y.e->op==ZEXT&&x.e->a->w==y.e->a->w) return bin(ULT,x.e->a->w,mk(x.e->a),mk(y.e->a));
      break;
    default:break;
  }
  unsigned rw=(op>=EQ&&op<=SLE)?1:w;
  return mk(ET.get(op,rw,0,X(x,w),X(y,w)));
}
static u64 EVGEN=1;
static u64 ev(Expr*e,const std::vector<u64>&m){
  if(e->op==CONST) return e->k;
  if(e->gen==EVGEN) return e->val;
  u64 r;
  switch(e->op){
    case SYM: r=e->k<m.size()?m[e->k]&maskw(e->w):0; break;
    case ITE: r=ev(e->a,m)?ev(e->b,m):ev(e->c,m); break;
    case ZEXT: r=ev(e->a,m); break;
    case SEXT: r=(u64)sx(ev(e->a,m),e->a->w)&maskw(e->w); break;
    case EXTRACT: r=(ev(e->a,m)>>e->k)&maskw(e->w); break;
    case CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
    default: r=fold(e->op,e->a->w,ev(e->a,m),ev(e->b,m));
  }
  e->gen=EVGEN; e->val=r; return r;
}
static u64 evalV(V v,const std::vector<u64>&m){ if(!v.e) return v.c; EVGEN++; return ev(v.e,m); }

// ---------------------------------------------------------------- Z3
static Z3_context Z; static Z3_solver ZS;
static bool zerr=false;
static void zerrh(Z3_context,Z3_error_code){ zerr=true; }
static Z3_ast zc(Expr*e){ // width 1 -> Bool, else BV
  if(e->z) return e->z;
  Z3_ast r;
  auto bv=[&](Expr*x){ Z3_ast q=zc(x); if(x->w==1){ Z3_sort s=Z3_mk_bv_sort(Z,1); q=Z3_mk_ite(Z,q,Z3_mk_unsigned_int64(Z,1,s),Z3_mk_unsigned_int64(Z,0,s)); } return q; };
  auto tob=[&](Z3_ast q){ return Z3_mk_eq(Z,q,Z3_mk_unsigned_int64(Z,1,Z3_mk_bv_sort(Z,1))); };
  Z3_ast a=0,b=0; 
  bool boolop=e->w==1&&e->op>=AND&&e->op<=XOR;
  switch(e->op){
    case CONST: r=e->w==1?(e->k?Z3_mk_true(Z):Z3_mk_false(Z)):Z3_mk_unsigned_int64(Z,e->k,Z3_mk_bv_sort(Z,e->w)); break;
    case SYM:{ char nm[32]; snprintf(nm,32,"s%u_%u",(unsigned)e->k,e->w); r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),e->w==1?Z3_mk_bool_sort(Z):Z3_mk_bv_sort(Z,e->w)); break; }
    case ITE: r=Z3_mk_ite(Z,zc(e->a),zc(e->b),zc(e->c)); break;
    case ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->a->w,bv(e->a)); break;
    case SEXT: r=Z3_mk_sign_ext(Z,e->w-e->a->w,bv(e->a)); break;
    case EXTRACT: r=Z3_mk_extract(Z,e->k+e->w-1,e->k,bv(e->a)); if(e->w==1) r=tob(r); break;
    case CONCAT: r=Z3_mk_concat(Z,bv(e->a),bv(e->b)); break;
    default:
      if(boolop){ a=zc(e->a); b=zc(e->b); Z3_ast ab[2]={a,b}; 
        r=e->op==AND?Z3_mk_and(Z,2,ab):e->op==OR?Z3_mk_or(Z,2,ab):(e->b->op==CONST&&e->b->k)?Z3_mk_not(Z,a):Z3_mk_xor(Z,a,b); }
      else if(e->op==EQ&&e->a->w==1) r=Z3_mk_iff(Z,zc(e->a),zc(e->b));
      else { a=bv(e->a); b=bv(e->b);
        switch(e->op){ case ADD:r=Z3_mk_bvadd(Z,a,b);break; case SUB:r=Z3_mk_bvsub(Z,a,b);break; case MUL:r=Z3_mk_bvmul(Z,a,b);break;
          case UDIV:r=Z3_mk_bvudiv(Z,a,b);break; case SDIV:r=Z3_mk_bvsdiv(Z,a,b);break; case UREM:r=Z3_mk_bvurem(Z,a,b);break; case SREM:r=Z3_mk_bvsrem(Z,a,b);break;
          case AND:r=Z3_mk_bvand(Z,a,b);break; case OR:r=Z3_mk_bvor(Z,a,b);break; case XOR:r=Z3_mk_bvxor(Z,a,b);break;
          case SHL:r=Z3_mk_bvshl(Z,a,b);break; case LSHR:r=Z3_mk_bvlshr(Z,a,b);break; case ASHR:r=Z3_mk_bvashr(Z,a,b);break;
          case EQ:r=Z3_mk_eq(Z,a,b);break; case ULT:r=Z3_mk_bvult(Z,a,b);break; case SLT:r=Z3_mk_bvslt(Z,a,b);break;
          default: abort(); }
        if(e->w==1&&e->op<EQ) r=tob(r); }
  }
  Z3_inc_ref(Z,r); e->z=r; return r;
}

// ---------------------------------------------------------------- integer view
// Order constraints between program integers (and arbitrary boolean structure over
// them) are also given to Z3 as bounded integer-difference problems, which it decides
// much faster than the bit-blasted form.  Everything else goes to the bit-vector solver.
static Z3_solver ZI; static Z3_sort ZINT;
static Z3_ast ziTerm(Expr*e,int sgn){ // integer view of a bit-vector term, 0 if outside the fragment
  if(e->op==CONST){ char b[32]; if(sgn==1) snprintf(b,32,"%lld",(long long)sx(e->k,e->w)); else snprintf(b,32,"%llu",(unsigned long long)e->k); return Z3_mk_numeral(Z,b,ZINT); }
  if(e->op==SYM){ if(!e->sgn) e->sgn=sgn; if(e->sgn!=sgn) return 0; if(!e->zi){ char nm[32]; snprintf(nm,32,"i%u_%u_%d",(unsigned)e->k,e->w,sgn); e->zi=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),ZINT); Z3_inc_ref(Z,e->zi); } return e->zi; }
  return 0;
}
static Z3_ast zi(Expr*e){ // boolean
  if(e->zis==1) return e->zi; if(e->zis==2) return 0;
  Z3_ast r=0,a=0,b=0;
  switch(e->op){
    case CONST: r=e->k?Z3_mk_true(Z):Z3_mk_false(Z); break;
    case SYM: r=zc(e); break;
    case SLT: case ULT: { int g=e->op==SLT?1:2; a=ziTerm(e->a,g); b=a?ziTerm(e->b,g):0; if(a&&b) r=Z3_mk_lt(Z,a,b); break; }
    case EQ: if(e->a->w==1){ a=zi(e->a); b=a?zi(e->b):0; if(a&&b) r=Z3_mk_iff(Z,a,b); }
      else { int g=e->a->sgn?e->a->sgn:e->b->sgn?e->b->sgn:1; a=ziTerm(e->a,g); b=a?ziTerm(e->b,g):0; if(a&&b) r=Z3_mk_eq(Z,a,b); } break;
    case AND: case OR: a=zi(e->a); b=a?zi(e->b):0; if(a&&b){ Z3_ast ab[2]={a,b}; r=e->op==AND?Z3_mk_and(Z,2,ab):Z3_mk_or(Z,2,ab); } break;
    case XOR: a=zi(e->a); if(a&&e->b->op==CONST) r=e->b->k?Z3_mk_not(Z,a):a; else { b=a?zi(e->b):0; if(a&&b) r=Z3_mk_xor(Z,a,b); } break;
    case ITE: { a=zi(e->a); b=a?zi(e->b):0; Z3_ast c=b?zi(e->c):0; if(c) r=Z3_mk_ite(Z,a,b,c); break; }
    default: break;
  }
  if(r){ Z3_inc_ref(Z,r); e->zi=r; e->zis=1; } else e->zis=2;
  return r;
}
static void ziBounds(Expr*e,std::vector<Expr*>&syms){
  if(e->op==SYM){ if(e->w>1){ for(Expr*x:syms) if(x==e) return; syms.push_back(e); } return; }
  if(e->a) ziBounds(e->a,syms); if(e->b) ziBounds(e->b,syms); if(e->c) ziBounds(e->c,syms); }
static bool ziAssert(Expr*e){
  Z3_ast f=zi(e); if(!f) return false;
  Z3_solver_assert(Z,ZI,f); std::vector<Expr*> sy; ziBounds(e,sy);
  for(Expr*x:sy){ char lo[32],hi[32]; if(x->sgn==1){ snprintf(lo,32,"%lld",-(1ll<<(x->w-1))); if(x->w==64) snprintf(lo,32,"-9223372036854775808"); snprintf(hi,32,"%llu",(unsigned long long)(maskw(x->w)>>1)); } else { snprintf(lo,32,"0"); snprintf(hi,32,"%llu",(unsigned long long)maskw(x->w)); }
    Z3_solver_assert(Z,ZI,Z3_mk_le(Z,Z3_mk_numeral(Z,lo,ZINT),x->zi)); Z3_solver_assert(Z,ZI,Z3_mk_le(Z,x->zi,Z3_mk_numeral(Z,hi,ZINT))); }
  return true;
}

// ---------------------------------------------------------------- shared stats
enum { MAXENT=256, MAXLAB=1024, MAXFN=16384, MAXBB=1<<17 };
struct EntStat { std::atomic<u64> paths, killed, viol, asserts, steps, forks, states, sampled, q, qns; };
struct Shared {
  std::atomic<int> active, stop, incomplete, nviol, nsamples; std::atomic<double> tviol; std::atomic<u64> fileno_;
  std::atomic<u64> q_sat,q_unsat,q_unk,q_ns,known_hits,simp_checked,q_int;
  EntStat ent[MAXENT];
  std::atomic<u64> label[MAXLAB]; std::atomic<u64> alabel[MAXLAB];
  std::atomic<unsigned> violhash[4096]; 
  u8 fn[MAXFN]; u8 bb[MAXBB];
  char incmsg[512];
};
static Shared *SH;
static int g_workers=8; static double g_deadline=1e18, g_afterviol=0; static std::string g_out; static u64 g_maxsteps=3000000; static u64 g_seed=1; static unsigned g_qto=20000;
static int g_maxsample=24;
static int g_dump=0;

static void incomplete(const std::string&m){ if(!SH->incomplete.exchange(1)) snprintf(SH->incmsg,sizeof SH->incmsg,"%s",m.c_str()); }

// ---------------------------------------------------------------- compiled program
struct Gstep { int reg; u64 scale; unsigned w; };
struct KI {
  Instruction *I; unsigned opc; int dst; unsigned w; unsigned w2; std::vector<int> ops; // op >=0 reg; <0: const[-op-1]
  u64 off; std::vector<Gstep> gs; Type *ty; int tgt[2]; Function *callee; int spec; bool nsw,nuw,exact;
  std::vector<std::pair<u64,int>> cases; std::vector<std::pair<int,int>> phis; std::vector<unsigned> idx;
};
struct KF; 
struct KBB { int start; int gid; };
struct KF { Function *F; std::vector<KI> code; std::vector<KBB> bbs; int nregs; std::vector<V> consts; std::vector<char> constUndef; int id; std::string name; bool isttl; };
static std::unordered_map<Function*,KF*> KFS;
static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue*,u64> GADDR; static std::unordered_map<u64,Function*> FADDR;
static std::vector<KF*> KFL; static int g_nbb=0;

static unsigned tw(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; return 0; }
static Expr *mkAgg(std::vector<V> v){ Expr*e=ET.alloc(); e->op=AGG; e->w=0; e->agg=new std::vector<V>(std::move(v)); return e; }

static V constVal(const Constant*C,bool &undef);
static u64 constAddr(const Constant*C){ bool u=false; V v=constVal(C,u); if(v.e){ fprintf(stderr,"symbolic const address\n"); exit(3);} return v.c; }
static V constVal(const Constant*C,bool&undef){
  if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64){ fprintf(stderr,"wide int const\n"); exit(3);} return mk(ci->getZExtValue()); }
  if(isa<ConstantPointerNull>(C)) return mk((u64)0);
  if(auto*gv=dyn_cast<GlobalValue>(C)) { if(auto*ga=dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee(),undef); auto it=GADDR.find(gv); if(it==GADDR.end()){ fprintf(stderr,"no address for %s\n",gv->getName().str().c_str()); exit(3);} return mk(it->second); }
  if(isa<UndefValue>(C)) { if(C->getType()->isAggregateType()){ std::vector<V> v; unsigned n=C->getType()->isStructTy()?C->getType()->getStructNumElements():C->getType()->getArrayNumElements();
       for(unsigned i=0;i<n;i++){ bool u; v.push_back(constVal(C->getAggregateElement(i),u)); } return mk(mkAgg(v)); } undef=true; return mk((u64)0); }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"gep const\n"); exit(3);} bool u=false; V b=constVal(ce->getOperand(0),u); return mk(b.c+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0),undef);
      case Instruction::Add: { bool u=false; return mk(constVal(ce->getOperand(0),u).c+constVal(ce->getOperand(1),u).c); }
      case Instruction::Sub: { bool u=false; return mk(constVal(ce->getOperand(0),u).c-constVal(ce->getOperand(1),u).c); }
      case Instruction::Trunc: { bool u=false; return mk(constVal(ce->getOperand(0),u).c&maskw(tw(ce->getType()))); }
      case Instruction::ICmp: { bool u=false; u64 a=constVal(ce->getOperand(0),u).c,b=constVal(ce->getOperand(1),u).c; 
          switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return mk((u64)(a==b)); case CmpInst::ICMP_NE: return mk((u64)(a!=b)); default:; } } 
      default: fprintf(stderr,"constexpr %s unsupported\n",ce->getOpcodeName()); exit(3);
    }
  }
  if(C->getType()->isStructTy()||C->getType()->isArrayTy()){
    std::vector<V> v; unsigned n=C->getType()->isStructTy()?C->getType()->getStructNumElements():C->getType()->getArrayNumElements();
    for(unsigned i=0;i<n;i++){ bool u=false; v.push_back(constVal(C->getAggregateElement(i),u)); } return mk(mkAgg(v));
  }
  if(isa<ConstantFP>(C)){ return mk(cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt().getZExtValue()); }
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr,"const unsupported: %s\n",os.str().c_str()); exit(3);
}

enum Spec { S_NONE, S_INT, S_U8, S_U16, S_U32, S_U64, S_BOOL, S_RANGE, S_CHOICE, S_ASSUME, S_ASSERT, S_REACH, S_OBSERVE, S_HEAPLIVE, S_HEAPALLOCS, S_HEAPFREES, S_CTOR, S_DTOR, S_USE, S_LIVEOBJ, S_FAIL, S_CONC, S_MARK, S_ISSYM, S_VALID,
  S_NEW, S_NEWARR, S_DEL, S_DELARR, S_MALLOC, S_CALLOC, S_FREE, S_MEMCPY, S_MEMMOVE, S_MEMSET, S_MEMCMP, S_STRLEN, S_STRNLEN, S_MEMCHR, S_ABORT, S_NOP, S_NOP0, S_LIFE, S_UMULO, S_UADDO, S_USUBO, S_SMULO,S_SADDO,S_SSUBO, S_CTPOP, S_CTLZ, S_CTTZ, S_UMIN,S_UMAX,S_SMIN,S_SMAX,S_ABS,S_EXPECT,S_ASSUMEI,S_FSHL,S_FSHR,S_BSWAP,S_TRAP,S_STRCMP,S_OBJSIZE,S_STACKSAVE,S_FREEZE_, S_REGION, S_RQ };
static std::map<std::string,int> SPEC={
 {"vp_int",S_INT},{"vp_u8",S_U8},{"vp_u16",S_U16},{"vp_u32",S_U32},{"vp_u64",S_U64},{"vp_bool",S_BOOL},{"vp_range",S_RANGE},{"vp_choice",S_CHOICE},{"vp_assume",S_ASSUME},{"vp_assert",S_ASSERT},{"vp_reach",S_REACH},{"vp_observe",S_OBSERVE},
 {"vp_heap_live",S_HEAPLIVE},{"vp_heap_allocs",S_HEAPALLOCS},{"vp_heap_frees",S_HEAPFREES},{"vp_ctor",S_CTOR},{"vp_dtor",S_DTOR},{"vp_use",S_USE},{"vp_live_objs",S_LIVEOBJ},{"vp_fail",S_FAIL},{"vp_concretize",S_CONC},{"vp_valid",S_VALID},
 {"_Znwm",S_NEW},{"_Znam",S_NEWARR},{"_ZdlPv",S_DEL},{"_ZdlPvm",S_DEL},{"_ZdaPv",S_DELARR},{"_ZdaPvm",S_DELARR},{"_ZnwmRKSt9nothrow_t",S_NEW},{"_ZnamRKSt9nothrow_t",S_NEWARR},
 {"malloc",S_MALLOC},{"calloc",S_CALLOC},{"free",S_FREE},{"memcpy",S_MEMCPY},{"memmove",S_MEMMOVE},{"memset",S_MEMSET},{"memcmp",S_MEMCMP},{"bcmp",S_MEMCMP},{"strlen",S_STRLEN},{"strnlen",S_STRNLEN},{"memchr",S_MEMCHR},{"strcmp",S_STRCMP},{"abort",S_ABORT},{"__assert_fail",S_ABORT},{"exit",S_ABORT},
 {"printf",S_NOP0},{"puts",S_NOP0},{"putchar",S_NOP0},{"fprintf",S_NOP0},{"fputs",S_NOP0},{"fflush",S_NOP0},{"__cxa_atexit",S_NOP0},{"__cxa_pure_virtual",S_ABORT},{"_ZSt9terminatev",S_ABORT},{"__cxa_guard_acquire",S_NONE}};
static int specOf(Function*F){
  std::string n=F->getName().str();
  if(F->isIntrinsic()){
    switch(F->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return S_MEMCPY; case Intrinsic::memmove: return S_MEMMOVE; case Intrinsic::memset: case Intrinsic::memset_inline: return S_MEMSET;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return S_NOP;
      case Intrinsic::umul_with_overflow: return S_UMULO; case Intrinsic::uadd_with_overflow: return S_UADDO; case Intrinsic::usub_with_overflow: return S_USUBO;
      case Intrinsic::smul_with_overflow: return S_SMULO; case Intrinsic::sadd_with_overflow: return S_SADDO; case Intrinsic::ssub_with_overflow: return S_SSUBO;
      case Intrinsic::ctpop: return S_CTPOP; case Intrinsic::ctlz: return S_CTLZ; case Intrinsic::cttz: return S_CTTZ;
      case Intrinsic::umin: return S_UMIN; case Intrinsic::umax: return S_UMAX; case Intrinsic::smin: return S_SMIN; case Intrinsic::smax: return S_SMAX; case Intrinsic::abs: return S_ABS;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return S_EXPECT; case Intrinsic::assume: return S_ASSUMEI; case Intrinsic::fshl: return S_FSHL; case Intrinsic::fshr: return S_FSHR; case Intrinsic::bswap: return S_BSWAP;
      case Intrinsic::trap: case Intrinsic::debugtrap: return S_TRAP; case Intrinsic::objectsize: return S_OBJSIZE; case Intrinsic::stacksave: return S_STACKSAVE; case Intrinsic::stackrestore: return S_NOP;
      case Intrinsic::is_constant: return S_NOP0;
      default: return -1;
    }
  }
  auto it=SPEC.find(n); if(it!=SPEC.end()) return it->second;
  return F->isDeclaration()?-1:S_NONE;
}

static KF *compileF(Function*F){
  auto it=KFS.find(F); if(it!=KFS.end()) return it->second;
  KF*k=new KF; KFS[F]=k; k->F=F; k->id=KFL.size(); KFL.push_back(k); k->name=demangle(F->getName().str()); 
  k->isttl=k->name.find("ttl::")!=std::string::npos;
  std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,int> bbi; int n=0;
  for(auto&a:F->args()) reg[&a]=n++;
  for(auto&bb:*F){ for(auto&i:bb) if(!i.getType()->isVoidTy()) reg[&i]=n++; }
  k->nregs=n; int b=0; for(auto&bb:*F) bbi[&bb]=b++;
  std::unordered_map<const Constant*,int> cid;
  auto opnd=[&](const Value*v)->int{
    if(auto*C=dyn_cast<Constant>(v)){ auto it=cid.find(C); if(it!=cid.end()) return it->second; bool u=false; V x=constVal(C,u); k->consts.push_back(x); k->constUndef.push_back(u); int r=-(int)k->consts.size(); cid[C]=r; return r; }
    if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return 0;
    return reg.at(v);
  };
  for(auto&bb:*F){
    k->bbs.push_back(KBB{(int)k->code.size(),g_nbb++});
    for(auto&I:bb){
      KI q; q.I=&I; q.opc=I.getOpcode(); q.dst=I.getType()->isVoidTy()?-1:reg[&I]; q.ty=I.getType(); q.w=tw(I.getType()); q.w2=0; q.off=0; q.callee=0; q.spec=0; q.nsw=q.nuw=q.exact=false; q.tgt[0]=q.tgt[1]=0;
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      switch(q.opc){
        case Instruction::PHI: { auto*p=cast<PHINode>(&I); for(unsigned i=0;i<p->getNumIncomingValues();i++) q.phis.push_back({bbi[p->getIncomingBlock(i)],opnd(p->getIncomingValue(i))}); break; }
        case Instruction::Br: { auto*br=cast<BranchInst>(&I); if(br->isConditional()){ q.ops.push_back(opnd(br->getCondition())); q.tgt[0]=bbi[br->getSuccessor(0)]; q.tgt[1]=bbi[br->getSuccessor(1)]; } else q.tgt[0]=bbi[br->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto*s=cast<SwitchInst>(&I); q.ops.push_back(opnd(s->getCondition())); q.w2=tw(s->getCondition()->getType()); q.tgt[0]=bbi[s->getDefaultDest()]; for(auto&c:s->cases()) q.cases.push_back({c.getCaseValue()->getZExtValue(),bbi[c.getCaseSuccessor()]}); break; }
        case Instruction::GetElementPtr: {
          auto*g=cast<GetElementPtrInst>(&I); q.ops.push_back(opnd(g->getPointerOperand()));
          for(gep_type_iterator it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){
            Value*v=it.getOperand();
            if(StructType*st=it.getStructTypeOrNull()) q.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
            else { u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(v)) q.off+=(u64)c->getSExtValue()*sz; else q.gs.push_back(Gstep{opnd(v),sz,tw(v->getType())}); }
          } break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto*c=cast<CallBase>(&I); Value*cv=c->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts();
          q.callee=dyn_cast<Function>(cv); for(auto&a:c->args()) q.ops.push_back(opnd(a.get())); 
          if(!q.callee) q.ops.push_back(opnd(c->getCalledOperand())); else q.spec=specOf(q.callee);
          if(c->arg_size()) q.w2=tw(c->getArgOperand(0)->getType());
          if(auto*iv=dyn_cast<InvokeInst>(&I)) q.tgt[0]=bbi[iv->getNormalDest()];
          break; }
        case Instruction::Alloca: { auto*a=cast<AllocaInst>(&I); q.off=DL->getTypeAllocSize(a->getAllocatedType()); if(a->isArrayAllocation()) q.ops.push_back(opnd(a->getArraySize())); break; }
        case Instruction::ExtractValue: q.ops.push_back(opnd(I.getOperand(0))); for(unsigned i:cast<ExtractValueInst>(&I)->indices()) q.idx.push_back(i); break;
        case Instruction::InsertValue: q.ops.push_back(opnd(I.getOperand(0))); q.ops.push_back(opnd(I.getOperand(1))); for(unsigned i:cast<InsertValueInst>(&I)->indices()) q.idx.push_back(i); break;
        default:
          for(auto&o:I.operands()) q.ops.push_back(opnd(o.get()));
          if(I.getNumOperands()) { q.w2=tw(I.getOperand(0)->getType()); if(q.opc==Instruction::Store) q.ty=I.getOperand(0)->getType(); }
          if(auto*ob=dyn_cast<OverflowingBinaryOperator>(&I)){ q.nsw=ob->hasNoSignedWrap(); q.nuw=ob->hasNoUnsignedWrap(); }
      }
      k->code.push_back(std::move(q));
    }
  }
  if(k->id>=MAXFN||g_nbb>=MAXBB){ fprintf(stderr,"too many functions\n"); exit(3); }
  return k;
}

// ---------------------------------------------------------------- memory/state
struct Obj { int rc; u64 base,size; u8 kind; bool alive,ro; unsigned ord; std::vector<u8> data,init; std::vector<Expr*> sym; };
enum { OK_GLOBAL, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC };
struct OP { Obj*o; OP(Obj*x=0):o(x){ if(o)o->rc++; } OP(const OP&p):o(p.o){ if(o)o->rc++; } OP(OP&&p)noexcept:o(p.o){p.o=0;} ~OP(){ if(o&&--o->rc==0) delete o; } OP&operator=(OP p){ std::swap(o,p.o); return *this; } };
struct PC { PC*parent; Expr*cond; int depth; int rc; bool implied; };
struct PCR { PC*p; PCR():p(0){} PCR(const PCR&o):p(o.p){ if(p)p->rc++; } PCR(PCR&&o)noexcept:p(o.p){o.p=0;} static void rel(PC*p){ while(p&&--p->rc==0){ PC*q=p->parent; delete p; p=q; } } ~PCR(){ rel(p);} PCR&operator=(PCR o){ std::swap(p,o.p); return *this; }
  void add(Expr*c,bool imp){ PC*n=new PC{p,c,p?p->depth+1:1,1,imp}; p=n; } };
struct Frame { KF*f; int pc,bb,prev; std::vector<V> r; size_t sbase; int retdst; };
struct Nd { char kind; const char*name; V v; unsigned w; };
struct State {
  int entry; std::vector<Frame> st; std::vector<OP> heap,stack; u64 hptr,sptr; PCR pc; std::vector<u64> model; std::vector<u8> symw;
  std::vector<Nd> nd; std::vector<V> obs; std::vector<std::pair<unsigned,std::pair<u64,u64>>> undefs; // sym idx -> (alloc ord, offset)
  std::vector<u64> objs; // live tracked objects (sorted)
  u64 steps; unsigned allocs,frees,live; std::vector<OP> glob;
};
static std::deque<State*> WL;
static const u64 GBASE=0x10000000ull,SBASE=0x700000000000ull,HBASE=0x200000000000ull;

static std::vector<PC*> CUR; // current trail (raw; kept alive by refs)
static std::vector<PCR> CURR;
static size_t iasserted=0; static int nonfrag=0; static std::vector<char> ISFR; // integer-view solver trail
static size_t asserted=0; // number of CUR entries pushed to z3
static std::unordered_map<Expr*,char> KNOWN; static std::unordered_map<Expr*,u64> KVAL;
static Expr* negE(Expr*e){ V v=notb(mk(e)); return v.e?v.e:K(v.c,1); }

// Facts about the order of pairs of terms, used by the transitive-closure pre-check.
struct Fact { Expr*x,*y; char k; Expr*src; }; // k: '<' x<y, '{' x<=y, '!' x!=y ; sg: signedness in high bit
static std::vector<Fact> FACTS[2]; // [0] unsigned, [1] signed
static void addFacts(Expr*c){
  bool neg=false; Expr*e=c; if(e->op==XOR&&e->w==1&&e->b->op==CONST&&e->b->k){ neg=true; e=e->a; }
  if(e->op==SLT||e->op==ULT){ auto&F=FACTS[e->op==SLT]; if(!neg) F.push_back(Fact{e->a,e->b,'<',c}); else F.push_back(Fact{e->b,e->a,'{',c}); }
  else if(e->op==EQ&&e->a->w>1){ for(int g=0;g<2;g++){ if(!neg){ FACTS[g].push_back(Fact{e->a,e->b,'{',c}); FACTS[g].push_back(Fact{e->b,e->a,'{',c}); } else FACTS[g].push_back(Fact{e->a,e->b,'!',c}); } }
}
static void delFacts(Expr*c){ for(int g=0;g<2;g++) while(!FACTS[g].empty()&&FACTS[g].back().src==c) FACTS[g].pop_back(); }
// strongest known relation x ? y by closure: 2 strict <, 1 <=, 0 nothing
static int orderRel(int g,Expr*x,Expr*y){
  if(x==y) return 1;
  auto&F=FACTS[g]; unsigned w=x->w;
  static std::vector<std::pair<Expr*,int>> seen; seen.clear(); seen.push_back({x,1});
  int best=0;
  auto lt=[&](u64 a,u64 b){ return g?sx(a,w)<sx(b,w):a<b; };
  auto push=[&](Expr*t,int st){ for(auto&p:seen) if(p.first==t){ if(p.second>=st) return; p.second=st; seen.push_back({t,st}); return; } seen.push_back({t,st}); };
  for(size_t i=0;i<seen.size();i++){ Expr*t=seen[i].first; int st=seen[i].second; bool stale=false; for(size_t j=i+1;j<seen.size();j++) if(seen[j].first==t&&seen[j].second>=st) stale=true; if(stale) continue;
    if(t==y){ best=std::max(best,st); if(best==2) return 2; continue; }
    if(t->op==CONST&&y->op==CONST){ if(lt(t->k,y->k)) return 2; if(t->k==y->k) best=std::max(best,st); }
    for(auto&f:F) if(f.x->w==w){ if(f.k!='!'){ if(f.x==t) push(f.y,f.k=='<'?2:st); else if(t->op==CONST&&f.x->op==CONST&&lt(t->k,f.x->k)) push(f.y,2); }
    }
    if(seen.size()>200) break; }
  return best;
}
static bool knownNe(int g,Expr*x,Expr*y){ for(auto&f:FACTS[g]) if(f.k=='!'&&((f.x==x&&f.y==y)||(f.x==y&&f.y==x))) return true; return false; }
static int ordLess(int g,Expr*x,Expr*y){ // 1 x<y known, 0 !(x<y) known, -1 unknown
  int r=orderRel(g,x,y); if(r==2) return 1; int q=orderRel(g,y,x); if(q>=1) return 0;
  if(r==1&&knownNe(g,x,y)) return 1; return -1; }
static int ordEq(Expr*x,Expr*y){ for(int g=0;g<2;g++){ if(knownNe(g,x,y)) return 0; int r=orderRel(g,x,y),q=orderRel(g,y,x); if(r==2||q==2) return 0; if(r==1&&q==1) return 1; } return -1; }
static void learn(Expr*c){ addFacts(c); KNOWN[c]=1; KNOWN[negE(c)]=0;
  if(c->op==EQ&&c->b->op==CONST) KVAL[c->a]=c->b->k; 
}
static void unlearn(Expr*c){ delFacts(c); KNOWN.erase(c); KNOWN.erase(negE(c)); if(c->op==EQ&&c->b->op==CONST) KVAL.erase(c->a); }
static void sync(State&s){
  PC*p=s.pc.p; int d=p?p->depth:0;
  if(!CUR.empty()&&CUR.back()==p) return; if(CUR.empty()&&!p) return;
  // collect new nodes until we meet CUR
  static std::vector<PC*> add; add.clear(); PC*q=p;
  while(q&&((int)CUR.size()<q->depth||CUR[q->depth-1]!=q)){ add.push_back(q); q=q->parent; }
  size_t keep=q?q->depth:0; (void)d;
  while(CUR.size()>keep){ unlearn(CUR.back()->cond); if(iasserted==CUR.size()){ iasserted--; if(!CUR.back()->implied){ Z3_solver_pop(Z,ZI,1); if(!ISFR.back()) nonfrag--; } ISFR.pop_back(); } if(asserted==CUR.size()){ asserted--; if(!CUR.back()->implied) Z3_solver_pop(Z,ZS,1); } CUR.pop_back(); CURR.pop_back(); }
  for(size_t i=add.size();i--;){ CUR.push_back(add[i]); PCR r; r.p=add[i]; add[i]->rc++; CURR.push_back(r); learn(add[i]->cond); }
}
static void zsync(){ for(;asserted<CUR.size();asserted++) if(!CUR[asserted]->implied){ Z3_solver_push(Z,ZS); Z3_solver_assert(Z,ZS,zc(CUR[asserted]->cond)); } }


static void dumpBV(Expr*c,int res){ // the same query in bit-vector form, for an independent solver
  zsync(); Z3_solver_push(Z,ZS); Z3_solver_assert(Z,ZS,zc(c));
  char fn[64]; snprintf(fn,64,"/q%d_%llu.smt2",(int)getpid(),(unsigned long long)(SH->q_sat+SH->q_unsat)); FILE*f=fopen((g_out+fn).c_str(),"w");
  if(f){ fprintf(f,"; expect %s\n(set-logic QF_BV)\n%s\n(check-sat)\n",res?"sat":"unsat",Z3_solver_to_string(Z,ZS)); fclose(f); }
  Z3_solver_pop(Z,ZS,1); }
static void isync(){ for(;iasserted<CUR.size();iasserted++){ char ok=1; if(!CUR[iasserted]->implied){ Z3_solver_push(Z,ZI); ok=ziAssert(CUR[iasserted]->cond); if(!ok) nonfrag++; } ISFR.push_back(ok); } }
static bool allHold(const std::vector<u64>&m){ EVGEN++; for(size_t i=CUR.size();i--;) if(!CUR[i]->implied&&!(ev(CUR[i]->cond,m)&1)) return false; return true; }
// 1 sat (model filled), 0 unsat, -1 unknown
static int query(State&s,Expr*c,std::vector<u64>*model){
  sync(s); 
  double t0=now();
  if(zi(c)){ // integer view first
    isync(); Z3_solver_push(Z,ZI); ziAssert(c); zerr=false; Z3_lbool r=Z3_solver_check(Z,ZI); int res=-2;
    if(!zerr&&r==Z3_L_FALSE) res=0;
    else if(!zerr&&r==Z3_L_TRUE){
      Z3_model m=Z3_solver_get_model(Z,ZI); Z3_model_inc_ref(Z,m); std::vector<u64> mm(s.model);
      for(size_t i=0;i<s.model.size();i++){ Expr*e=ET.get(SYM,s.symw[i],i); Z3_ast t=e->w==1?e->z:e->zi; if(!t) continue; Z3_ast v=0; if(Z3_model_eval(Z,m,t,true,&v)){ if(e->w==1) mm[i]=Z3_get_bool_value(Z,v)==Z3_L_TRUE; else if(e->sgn==1){ int64_t q=0; Z3_get_numeral_int64(Z,v,&q); mm[i]=(u64)q&maskw(e->w); } else { uint64_t q=0; Z3_get_numeral_uint64(Z,v,&q); mm[i]=q; } } }
      Z3_model_dec_ref(Z,m);
      if(allHold(mm)&&(evalV(mk(c),mm)&1)){ res=1; if(model) *model=std::move(mm); }
      else if(!nonfrag) { incomplete("engine: integer-view model does not satisfy the path"); }
    }
    Z3_solver_pop(Z,ZI,1);
    if(g_dump&&res>=0&&(SH->q_sat+SH->q_unsat)%g_dump==0) dumpBV(c,res);
    if(res>=0){ u64 ns=(u64)((now()-t0)*1e9); SH->q_ns+=ns; SH->ent[s.entry].q++; SH->ent[s.entry].qns+=ns; SH->q_int++; if(res) SH->q_sat++; else SH->q_unsat++; return res; }
  }
  zsync();
  Z3_solver_push(Z,ZS); Z3_solver_assert(Z,ZS,zc(c));
  zerr=false; Z3_lbool r=Z3_solver_check(Z,ZS);
  if(r==Z3_L_TRUE&&model){
    Z3_model m=Z3_solver_get_model(Z,ZS); Z3_model_inc_ref(Z,m);
    model->assign(s.model.size(),0);
    for(size_t i=0;i<s.model.size();i++){
      Expr*e=ET.get(SYM,s.symw[i],i); if(!e->z){ (*model)[i]=s.model[i]; continue; }
      Z3_ast v=0; uint64_t u=0; 
      if(Z3_model_eval(Z,m,e->z,true,&v)){
        if(e->w==1) u=Z3_get_bool_value(Z,v)==Z3_L_TRUE; else Z3_get_numeral_uint64(Z,v,&u);
      }
      (*model)[i]=u;
    }
    Z3_model_dec_ref(Z,m);
  }
  Z3_solver_pop(Z,ZS,1);
  if(g_dump&&r!=Z3_L_UNDEF&&(SH->q_sat+SH->q_unsat)%g_dump==0) dumpBV(c,r==Z3_L_TRUE);
  u64 ns=(u64)((now()-t0)*1e9); SH->q_ns+=ns; SH->ent[s.entry].q++; SH->ent[s.entry].qns+=ns;
  if(zerr){ incomplete("z3 error"); return -1; }
  if(r==Z3_L_TRUE){ SH->q_sat++; return 1; }
  if(r==Z3_L_FALSE){ SH->q_unsat++; return 0; }
  SH->q_unk++; incomplete("solver returned unknown (resource limit)"); return -1;
}

// Simplify a boolean under the facts already established on this path (direct facts,
// transitivity of order, boolean structure).  The result is equivalent under the
// path condition.  A sample of these simplifications is re-proved by Z3 (see decide).
static std::unordered_map<Expr*,V> SIMPM;
static V simp(Expr*e,int depth=0){
  if(e->op==CONST) return mk(e->k);
  if(e->w==1){ auto it=KNOWN.find(e); if(it!=KNOWN.end()) return mk((u64)it->second); }
  if(depth>40) return mk(e);
  auto im=SIMPM.find(e); if(im!=SIMPM.end()) return im->second;
  V r=mk(e);
  switch(e->op){
    case SLT: case ULT: { int q=ordLess(e->op==SLT,e->a,e->b); if(q>=0) r=mk((u64)q); break; }
    case EQ: if(e->a->w>1){ int q=(e->a->op==SYM||e->b->op==SYM)?ordEq(e->a,e->b):-1; if(q>=0) r=mk((u64)q); else { V x=simp(e->a,depth+1),y=simp(e->b,depth+1); r=bin(EQ,e->a->w,x,y); } } else r=bin(EQ,1,simp(e->a,depth+1),simp(e->b,depth+1)); break;
    case AND: case OR: case XOR: r=bin(e->op,e->w,simp(e->a,depth+1),simp(e->b,depth+1)); break;
    case ITE: r=ite(simp(e->a,depth+1),simp(e->b,depth+1),simp(e->c,depth+1),e->w); break;
    case ZEXT: r=zext(simp(e->a,depth+1),e->a->w,e->w); break;
    case ADD: case SUB: if(e->w>1) r=bin(e->op,e->w,simp(e->a,depth+1),simp(e->b,depth+1)); break;
    default: break;
  }
  SIMPM[e]=r; return r;
}
static u64 g_simpn=0; static State*g_simpfor=0;
static V simpc(State&s,V c){ // boolean condition
  if(!c.e) return c; sync(s); SIMPM.clear(); V r=simp(c.e); 
  if(!r.e){ SH->known_hits++;
    if((++g_simpn&255)==0){ Expr*bad=r.c?negE(c.e):c.e; std::vector<u64> m; if(query(s,bad,0)==1){ incomplete("engine: simplifier disagreed with the solver"); } else SH->simp_checked++; } }
  return r;
}
static V fresh(State&s,unsigned w,u64 def){ s.model.push_back(def&maskw(w)); s.symw.push_back(w); return mk(ET.get(SYM,w,s.model.size()-1)); }

struct PathEnd {};   // not thrown; we use return codes
static std::vector<std::string> ENTN; static std::vector<Function*> ENTF;
static std::vector<std::string> LABN, ALABN; static std::unordered_map<u64,int> LABA, ALABA; // string address -> label idx

static std::string readStr(State&s,u64 a);
static std::string locOf(State&s,std::string*full=0){
  std::string best; std::string tr;
  for(size_t i=s.st.size();i--;){
    Frame&f=s.st[i]; int pc=f.pc; if(pc<0||pc>=(int)f.f->code.size()) continue;
    auto dl=f.f->code[pc].I->getDebugLoc(); if(!dl) { if(full) tr+=f.f->name+"; "; continue; }
    std::string fn=cast<DIScope>(dl.getScope())->getFilename().str(); 
    size_t sl=fn.rfind('/'); std::string l=(sl==std::string::npos?fn:fn.substr(sl+1))+":"+std::to_string(dl.getLine());
    if(best.empty()||(best.find(".hpp:")==std::string::npos&&fn.find("ttl/")!=std::string::npos)) { if(best.empty()||fn.find("ttl/")!=std::string::npos) best=l; }
    if(full) tr+=f.f->name.substr(0,80)+"@"+l+" <- ";
  }
  if(full) *full=tr;
  return best;
}
static void dumpCase(FILE*f,State&s,const std::vector<u64>&m){
  fprintf(f,"entry %s\n",ENTN[s.entry].c_str());
  for(auto&n:s.nd) fprintf(f,"nd %c %llu %s\n",n.kind,(unsigned long long)evalV(n.v,m),n.name);
  for(auto&u:s.undefs) fprintf(f,"fill %llu %llu %llu\n",(unsigned long long)u.second.first,(unsigned long long)u.second.second,(unsigned long long)(m[u.first]&0xff));
  for(auto&o:s.obs) fprintf(f,"obs %lld\n",(long long)evalV(o,m));
}
static void violation(State&s,const char*kind,const std::string&msg,const std::vector<u64>*model=0){
  SH->ent[s.entry].viol++; if(SH->nviol++==0) SH->tviol=now();
  std::string tr; std::string loc=locOf(s,&tr);
  std::string key=std::to_string(s.entry)+kind+msg+loc; unsigned h=std::hash<std::string>()(key)&4095;
  if(SH->violhash[h]++>=2) return;
  int n=SH->fileno_++;
  FILE*f=fopen((g_out+"/viol_"+std::to_string(n)+".case").c_str(),"w"); if(!f) return;
  fprintf(f,"kind %s\nmsg %s\nloc %s\ntrace %s\n",kind,msg.c_str(),loc.c_str(),tr.c_str());
  dumpCase(f,s,model?*model:s.model); fclose(f);
  if(SH->fileno_>=40) SH->stop=1;
}
static void giveAway();
static State* clone(State&s){ SH->ent[s.entry].forks++; return new State(s); }

// Decide a 1-bit condition.  The current state follows the returned side; if the
// other side is feasible too, a copy that re-executes the same instruction is queued.
static bool decide(State&s,V c){
  if(!c.e) return c.c&1;
  c=simpc(s,c); if(!c.e) return c.c&1;
  bool side=evalV(c,s.model)&1;
  Expr*ce=side?c.e:negE(c.e); Expr*oe=side?negE(c.e):c.e;
  std::vector<u64> m; int r=query(s,oe,&m);
  if(r==1){
    State*o=clone(s); o->pc.add(oe,false); o->model=std::move(m); WL.push_back(o);
    s.pc.add(ce,false);
    giveAway();
  } else s.pc.add(ce,r==0);
  return side;
}
static u64 concretize(State&s,V v,unsigned w){
  while(v.e){
    sync(s);
    auto it=KVAL.find(v.e); if(it!=KVAL.end()) return it->second;
    Expr*e=v.e;
    if(e->op==ITE){ v=decide(s,mk(e->a))?mk(e->b):mk(e->c); continue; }
    if(e->op==ADD&&e->b->op==CONST){ return (concretize(s,mk(e->a),w)+e->b->k)&maskw(w); }
    if(e->op==ZEXT){ return concretize(s,mk(e->a),e->a->w); }
    if(e->op==SEXT){ return (u64)sx(concretize(s,mk(e->a),e->a->w),e->a->w)&maskw(w); }
    if(e->op==MUL&&e->b->op==CONST){ return (concretize(s,mk(e->a),w)*e->b->k)&maskw(w); }
    if(e->op==SHL&&e->b->op==CONST){ return fold(SHL,w,concretize(s,mk(e->a),w),e->b->k); }
    u64 val=evalV(v,s.model);
    if(w==1){ return decide(s,v); }
    if(decide(s,bin(EQ,w,v,mk(val)))) return val;
    return val; // (not reached: the current state always takes the model side)
  }
  return v.c;
}

static OP* findObj(State&s,u64 a){
  auto srch=[&](std::vector<OP>&v)->OP*{
    size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m].o->base<=a) lo=m+1; else hi=m; }
    if(!lo) return 0; OP*p=&v[lo-1]; Obj*o=p->o; if(a<o->base+o->size||(o->size==0&&a==o->base)||a==o->base+o->size) return p; return 0; };
  if(a>=SBASE) return srch(s.stack); if(a>=HBASE) return srch(s.heap); return srch(s.glob);
}
static Obj* wr(OP&p){ if(p.o->rc>1){ Obj*n=new Obj(*p.o); n->rc=0; p=OP(n); } return p.o; }
static Obj* newObj(u64 base,u64 size,u8 kind){ Obj*o=new Obj; o->rc=0;o->base=base;o->size=size;o->kind=kind;o->alive=true;o->ro=false;o->ord=0;o->data.assign(size,0);o->init.assign(size,0); return o; }

static std::string memErr(State&s,u64 a,u64 n,bool write,OP*p){
  char b[160]; const char*k="invalid address (wild or dangling pointer)";
  if(a<4096) k="null pointer dereference"; else if(p&&!p->o->alive) k="use after free"; else if(p) k="out of bounds";
  snprintf(b,160,"%s: %s of %llu bytes",k,write?"write":"read",(unsigned long long)n); return b;
}
// returns object slot, or 0 after reporting a violation
static OP* resolve(State&s,V ptr,u64 n,bool write,u64&off){
  u64 a;
  if(ptr.e){
    sync(s); auto it=KVAL.find(ptr.e);
    if(it!=KVAL.end()) a=it->second;
    else {
      a=evalV(ptr,s.model); OP*p=findObj(s,a);
      if(p&&p->o->alive&&a+n<=p->o->base+p->o->size){
        // one query: can this access leave the object?
        u64 b=p->o->base,e=b+p->o->size-n;
        V in=bin(AND,1,bin(ULE,64,mk(b),ptr),bin(ULE,64,ptr,mk(e)));
        if(!in.e? in.c : (KNOWN.count(in.e)&&KNOWN[in.e])) {}
        else decide(s,in); // another object or out of bounds: handled by the forked copy
      }
      a=concretize(s,ptr,64);
    }
  } else a=ptr.c;
  OP*p=findObj(s,a);
  if(!p||!p->o->alive||a+n>p->o->base+p->o->size||a<p->o->base){ violation(s,"memory",memErr(s,a,n,write,p)); return 0; }
  if(write&&p->o->ro){ violation(s,"memory","write to constant memory"); return 0; }
  off=a-p->o->base; return p;
}
static V loadInt(State&s,OP*p,u64 off,unsigned w){
  unsigned n=(w+7)/8; Obj*o=p->o; bool ok=true;
  for(unsigned i=0;i<n;i++) if(!o->init[off+i]){ ok=false; break; }
  if(!ok){ o=wr(*p); for(unsigned i=0;i<n;i++) if(!o->init[off+i]){ V f=fresh(s,8,0); 
      if(o->kind==OK_NEW||o->kind==OK_NEWARR||o->kind==OK_MALLOC) s.undefs.push_back({(unsigned)(s.model.size()-1),{o->ord,off+i}});
      if(o->sym.empty()) o->sym.assign(o->size,nullptr); o->sym[off+i]=f.e; o->init[off+i]=1; } }
  bool conc=true; if(!o->sym.empty()) for(unsigned i=0;i<n;i++) if(o->sym[off+i]){ conc=false; break; }
  if(conc){ u64 v=0; memcpy(&v,&o->data[off],n); return mk(v&maskw(w)); }
  V r=mk((u64)0); unsigned rw=0;
  for(unsigned i=0;i<n;i++){ V b=o->sym[off+i]?mk(o->sym[off+i]):mk((u64)o->data[off+i]); if(!rw){ r=b; rw=8; } else { r=concat(b,8,r,rw); rw+=8; } }
  return ext(r,rw,0,w);
}
static void storeInt(State&s,OP*p,u64 off,unsigned w,V v){
  unsigned n=(w+7)/8; Obj*o=wr(*p); memset(&o->init[off],1,n);
  if(!v.e){ u64 x=v.c&maskw(w); memcpy(&o->data[off],&x,n); if(!o->sym.empty()) for(unsigned i=0;i<n;i++) o->sym[off+i]=0; return; }
  if(o->sym.empty()) o->sym.assign(o->size,nullptr);
  V x=zext(v,w,n*8);
  for(unsigned i=0;i<n;i++){ V b=ext(x,n*8,i*8,8); if(b.e) o->sym[off+i]=b.e; else { o->sym[off+i]=0; o->data[off+i]=b.c; } }
}
static V loadT(State&s,OP*p,u64 off,Type*t){
  if(t->isStructTy()||t->isArrayTy()){ std::vector<V> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
    for(unsigned i=0;i<n;i++){ Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); u64 eo=t->isStructTy()?DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue():i*DL->getTypeAllocSize(et).getFixedValue(); v.push_back(loadT(s,p,off+eo,et)); } return V{mkAgg(v),0}; }
  return loadInt(s,p,off,tw(t));
}
static void storeT(State&s,OP*p,u64 off,Type*t,V v){
  if(t->isStructTy()||t->isArrayTy()){ unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
    for(unsigned i=0;i<n;i++){ Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); u64 eo=t->isStructTy()?DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue():i*DL->getTypeAllocSize(et).getFixedValue(); storeT(s,p,off+eo,et,(*v.e->agg)[i]); } return; }
  storeInt(s,p,off,tw(t),v);
}
static std::string readStr(State&s,u64 a){ std::string r; OP*p=findObj(s,a); if(!p) return "?"; for(u64 o=a-p->o->base;o<p->o->size&&p->o->data[o];o++) r+=p->o->data[o]; return r; }

static void engineErr(State&s,const std::string&m){ incomplete("engine: "+m+" at "+locOf(s)); }

static void initConst(Obj*o,u64 off,const Constant*C){
  if(isa<UndefValue>(C)) return;
  Type*t=C->getType(); u64 sz=DL->getTypeStoreSize(t);
  if(C->isNullValue()||isa<ConstantAggregateZero>(C)){ memset(&o->data[off],0,sz); memset(&o->init[off],1,sz); return; }
  if(auto*cs=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<cs->getNumElements();i++){ u64 es=cs->getElementByteSize(); u64 v; if(cs->getElementType()->isIntegerTy()) v=cs->getElementAsInteger(i); else v=cs->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); memcpy(&o->data[off+i*es],&v,es); memset(&o->init[off+i*es],1,es);} return; }
  if(t->isStructTy()||t->isArrayTy()){ unsigned n=C->getNumOperands(); for(unsigned i=0;i<n;i++){ Constant*e=C->getAggregateElement(i); u64 eo=t->isStructTy()?DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue():i*DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue(); initConst(o,off+eo,e);} return; }
  bool u=false; V v=constVal(C,u); if(u) return; memcpy(&o->data[off],&v.c,sz); memset(&o->init[off],1,sz);
}

static bool pushFrame(State&s,Function*F,const std::vector<V>&args,int retdst){
  KF*k=compileF(F); if(s.st.size()>600){ violation(s,"memory","stack overflow (recursion too deep)"); return false; }
  SH->fn[k->id]=1; 
  Frame f; f.f=k; f.pc=k->bbs[0].start; f.bb=0; f.prev=-1; f.r.assign(k->nregs,mk((u64)0)); f.sbase=s.stack.size(); f.retdst=retdst;
  for(size_t i=0;i<args.size()&&i<F->arg_size();i++) f.r[i]=args[i];
  SH->bb[k->bbs[0].gid]=1;
  s.st.push_back(std::move(f)); return true;
}
static void gotoBB(State&s,int b){ Frame&f=s.st.back(); f.prev=f.bb; f.bb=b; f.pc=f.f->bbs[b].start; SH->bb[f.f->bbs[b].gid]=1; }

static u64 heapAlloc(State&s,u64 n,u8 kind){ 
  Obj*o=newObj(s.hptr,n,kind); o->ord=s.allocs++; s.live++; u64 a=s.hptr; s.hptr+=((n+15)&~15ull)+4096; s.heap.push_back(OP(o)); return a; }
static bool heapFree(State&s,V pv,u8 kind){
  u64 a=concretize(s,pv,64); if(!a) return true;
  OP*p=findObj(s,a);
  if(!p||p->o->base!=a||p->o->kind<OK_NEW){ violation(s,"memory","free of a pointer that was not allocated"); return false; }
  if(!p->o->alive){ violation(s,"memory","double free"); return false; }
  if(p->o->kind!=kind){ violation(s,"memory","mismatched allocation/deallocation function"); return false; }
  { auto it=std::lower_bound(s.objs.begin(),s.objs.end(),a); if(it!=s.objs.end()&&*it<a+p->o->size){ violation(s,"lifetime","storage released while an object in it is still alive"); return false; } }
  Obj*o=wr(*p); o->alive=false; o->data.clear(); o->data.shrink_to_fit(); o->init.clear(); o->init.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); s.live--; s.frees++; return true;
}
static V overflowS(Op op,unsigned w,V a,V b){ // signed overflow condition
  if(op==MUL){
    if(w>32){ // check via division-free widening is too wide: only constants
      if(!a.e&&!b.e){ __int128 r=(__int128)sx(a.c,w)*sx(b.c,w); return mk((u64)(r!=(__int128)sx((u64)r&maskw(w),w))); }
      V r=bin(MUL,w,a,b); V q=bin(SDIV,w,r,b); V bad=bin(AND,1,notb(bin(EQ,w,b,mk((u64)0))),notb(bin(EQ,w,q,a))); return bad; }
    V r=bin(MUL,2*w,sext(a,w,2*w),sext(b,w,2*w)); return notb(bin(EQ,2*w,r,sext(ext(r,2*w,0,w),w,2*w))); }
  V r=bin(op,w,a,b); V z=mk((u64)0); V sa=bin(SLT,w,a,z),sb=bin(SLT,w,b,z),sr=bin(SLT,w,r,z);
  V d=bin(XOR,1,sa,sb); V e=bin(XOR,1,sa,sr);
  return op==ADD?bin(AND,1,notb(d),e):bin(AND,1,d,e);
}
// assert-like check that `bad` is false; returns false when the path must end
static bool check(State&s,V bad,const char*kind,const std::string&msg){
  if(!bad.e){ if(bad.c&1){ violation(s,kind,msg); return false; } return true; }
  bad=simpc(s,bad); if(!bad.e){ if(bad.c&1){ violation(s,kind,msg); return false; } return true; }
  Expr*good=negE(bad.e);
  if(evalV(bad,s.model)&1){ 
    violation(s,kind,msg); std::vector<u64> m; int r=query(s,good,&m); if(r!=1) return false; s.pc.add(good,false); s.model=std::move(m); return true; }
  std::vector<u64> m; int r=query(s,bad.e,&m);
  if(r==1){ violation(s,kind,msg,&m); s.pc.add(good,false); } else s.pc.add(good,r==0);
  return true;
}

static void endPath(State&s){
  EntStat&e=SH->ent[s.entry]; u64 idx=e.paths++;
  e.steps+=s.steps;
  bool take=idx<4; for(u64 p=8;!take&&p<(1ull<<40);p*=2) take=idx==p||idx==p+p/2;
  if(!take&&((idx*0x9E3779B97F4A7C15ull+g_seed*0xD1B54A32D192ED03ull)>>54)==0) take=true; // ~1/1024
  if(take&&e.sampled++<(u64)g_maxsample){
    int n=SH->nsamples++; FILE*f=fopen((g_out+"/samp_"+std::to_string(n)+".case").c_str(),"w");
    if(f){ fprintf(f,"kind sample\n"); dumpCase(f,s,s.model); fclose(f); }
  }
}

enum { R_NEXT, R_JUMP, R_END };
static int doCall(State&s,KI&q,Frame&f0,const std::vector<V>&a,Function*callee,int spec);
static bool copyMem(State&s,V d,V sr,u64 n);

static inline V opv(State&s,Frame&f,int o,unsigned w){
  if(o>=0) return f.r[o]; int i=-o-1; if(f.f->constUndef[i]) return fresh(s,w?w:64,0); return f.f->consts[i]; }

static int step(State&s){
  Frame&f=s.st.back(); KI&q=f.f->code[f.pc];
  #define A(i,w) opv(s,f,q.ops[i],w)
  #define SET(v) do{ f.r[q.dst]=(v); return R_NEXT; }while(0)
  switch(q.opc){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
      Op op=q.opc==Instruction::Add?ADD:q.opc==Instruction::Sub?SUB:MUL; V a=A(0,q.w),b=A(1,q.w);
      if(q.nsw&&!check(s,overflowS(op,q.w,a,b),"ub","signed integer overflow")) return R_END;
      SET(bin(op,q.w,a,b)); }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      V a=A(0,q.w),b=A(1,q.w); if(!check(s,bin(EQ,q.w,b,mk((u64)0)),"ub","division by zero")) return R_END;
      Op op=q.opc==Instruction::UDiv?UDIV:q.opc==Instruction::SDiv?SDIV:q.opc==Instruction::URem?UREM:SREM;
      if(op==SDIV||op==SREM){ V mn=mk(1ull<<(q.w-1)); if(!check(s,bin(AND,1,bin(EQ,q.w,a,mn),bin(EQ,q.w,b,mk(maskw(q.w)))),"ub","signed division overflow")) return R_END; }
      SET(bin(op,q.w,a,b)); }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      V a=A(0,q.w),b=A(1,q.w); if(!check(s,notb(bin(ULT,q.w,b,mk((u64)q.w))),"ub","shift amount out of range")) return R_END;
      SET(bin(q.opc==Instruction::Shl?SHL:q.opc==Instruction::LShr?LSHR:ASHR,q.w,a,b)); }
    case Instruction::And: SET(bin(AND,q.w,A(0,q.w),A(1,q.w)));
    case Instruction::Or: SET(bin(OR,q.w,A(0,q.w),A(1,q.w)));
    case Instruction::Xor: SET(bin(XOR,q.w,A(0,q.w),A(1,q.w)));
    case Instruction::ICmp: {
      V a=A(0,q.w2),b=A(1,q.w2); unsigned w=q.w2; 
      switch(cast<ICmpInst>(q.I)->getPredicate()){
        case CmpInst::ICMP_EQ: SET(bin(EQ,w,a,b)); case CmpInst::ICMP_NE: SET(notb(bin(EQ,w,a,b)));
        case CmpInst::ICMP_ULT: SET(bin(ULT,w,a,b)); case CmpInst::ICMP_ULE: SET(bin(ULE,w,a,b)); case CmpInst::ICMP_UGT: SET(bin(ULT,w,b,a)); case CmpInst::ICMP_UGE: SET(bin(ULE,w,b,a));
        case CmpInst::ICMP_SLT: SET(bin(SLT,w,a,b)); case CmpInst::ICMP_SLE: SET(bin(SLE,w,a,b)); case CmpInst::ICMP_SGT: SET(bin(SLT,w,b,a)); case CmpInst::ICMP_SGE: SET(bin(SLE,w,b,a));
        default: engineErr(s,"icmp"); return R_END; } }
    case Instruction::ZExt: SET(zext(A(0,q.w2),q.w2,q.w));
    case Instruction::SExt: SET(sext(A(0,q.w2),q.w2,q.w));
    case Instruction::Trunc: SET(ext(A(0,q.w2),q.w2,0,q.w));
    case Instruction::PtrToInt: { V v=A(0,64); SET(q.w<64?ext(v,64,0,q.w):v); }
    case Instruction::IntToPtr: { V v=A(0,q.w2); SET(q.w2<64?zext(v,q.w2,64):v); }
    case Instruction::BitCast: case Instruction::Freeze: SET(A(0,q.w));
    case Instruction::Select: {
      V c=A(0,1); 
      if(c.e&&q.w==0){ bool d=decide(s,c); SET(A(d?1:2,0)); }
      if(!c.e) SET(A((c.c&1)?1:2,q.w));
      sync(s); auto it=KNOWN.find(c.e); if(it!=KNOWN.end()) SET(A(it->second?1:2,q.w));
      SET(ite(c,A(1,q.w),A(2,q.w),q.w)); }
    case Instruction::PHI: {
      // evaluate all phis of the block in parallel
      std::vector<std::pair<int,V>> as; int pc=f.pc;
      for(;pc<(int)f.f->code.size()&&f.f->code[pc].opc==Instruction::PHI&&f.f->code[pc].I->getParent()==q.I->getParent();pc++){ KI&p=f.f->code[pc]; bool ok=false;
        for(auto&x:p.phis) if(x.first==f.prev){ as.push_back({p.dst,opv(s,f,x.second,p.w)}); ok=true; break; }
        if(!ok){ engineErr(s,"phi"); return R_END; } }
      for(auto&x:as) f.r[x.first]=x.second; f.pc=pc; return R_JUMP; }
    case Instruction::Br:
      if(q.ops.empty()){ gotoBB(s,q.tgt[0]); return R_JUMP; }
      else { V c=A(0,1); bool d=decide(s,c); gotoBB(s,q.tgt[d?0:1]); return R_JUMP; }
    case Instruction::Switch: {
      V c=A(0,q.w2); for(auto&cs:q.cases) if(decide(s,bin(EQ,q.w2,c,mk(cs.first)))){ gotoBB(s,cs.second); return R_JUMP; }
      gotoBB(s,q.tgt[0]); return R_JUMP; }
    case Instruction::GetElementPtr: {
      V p=A(0,64); u64 off=q.off; V acc=p;
      for(auto&g:q.gs){ V i=opv(s,f,g.reg,g.w); if(!i.e) off+=(u64)sx(i.c,g.w)*g.scale; else acc=bin(ADD,64,acc,bin(MUL,64,sext(i,g.w,64),mk(g.scale))); }
      SET(bin(ADD,64,acc,mk(off))); }
    case Instruction::Alloca: {
      u64 n=q.off; if(!q.ops.empty()) n*=concretize(s,A(0,64),64);
      u64 a=s.sptr; s.sptr+=((n+15)&~15ull)+256; Obj*o=newObj(a,n,OK_STACK); s.stack.push_back(OP(o)); SET(mk(a)); }
    case Instruction::Load: {
      V p=A(0,64); u64 off; OP*o=resolve(s,p,DL->getTypeStoreSize(q.ty),false,off); if(!o) return R_END;
      if(!q.w&&!q.ty->isAggregateType()){ engineErr(s,"load type"); return R_END; }
      SET(loadT(s,o,off,q.ty)); }
    case Instruction::Store: {
      V v; bool un=q.ops[0]<0&&f.f->constUndef[-q.ops[0]-1]; V p=A(1,64); u64 off; OP*o=resolve(s,p,DL->getTypeStoreSize(q.ty),true,off); if(!o) return R_END;
      if(un) return R_NEXT; v=A(0,tw(q.ty));
      if(!tw(q.ty)&&!q.ty->isAggregateType()){ engineErr(s,"store type"); return R_END; }
      storeT(s,o,off,q.ty,v); return R_NEXT; }
    case Instruction::ExtractValue: { V a=A(0,0); for(unsigned i:q.idx){ V n=(*a.e->agg)[i]; a=n; } SET(a); }
    case Instruction::InsertValue: { V a=A(0,0); V v=A(1,tw(q.I->getOperand(1)->getType()));
      if(q.idx.size()!=1){ engineErr(s,"insertvalue"); return R_END; }
      std::vector<V> n=*a.e->agg; n[q.idx[0]]=v; SET((V{mkAgg(n),0})); }
    case Instruction::Ret: {
      V v=mk((u64)0); bool has=!q.ops.empty(); if(has) v=A(0,q.w2);
      int rd=f.retdst; while(s.stack.size()>f.sbase) s.stack.pop_back();
      s.st.pop_back();
      if(s.st.empty()){ endPath(s); return R_END; }
      Frame&c=s.st.back(); if(rd>=0&&has) c.r[rd]=v;
      KI&cq=c.f->code[c.pc]; if(cq.opc==Instruction::Invoke) gotoBB(s,cq.tgt[0]); else c.pc++;
      return R_JUMP; }
    case Instruction::Unreachable: violation(s,"ub","unreachable code reached"); return R_END;
    case Instruction::Call: case Instruction::Invoke: {
      size_t na=cast<CallBase>(q.I)->arg_size(); std::vector<V> a(na); for(size_t i=0;i<na;i++) a[i]=A(i,tw(cast<CallBase>(q.I)->getArgOperand(i)->getType()));
      Function*cal=q.callee; int spec=q.spec;
      if(!cal){ V cp=A(na,64); u64 ad=concretize(s,cp,64); auto it=FADDR.find(ad); if(it==FADDR.end()){ violation(s,"memory","call through an invalid function pointer"); return R_END; } cal=it->second; spec=specOf(cal); }
      if(spec==S_NONE) for(size_t i=0;i<na;i++) if(cast<CallBase>(q.I)->isByValArgument(i)){ // callee gets its own copy
        u64 n=DL->getTypeAllocSize(cast<CallBase>(q.I)->getParamByValType(i)); u64 ad=s.sptr; s.sptr+=((n+15)&~15ull)+256; s.stack.push_back(OP(newObj(ad,n,OK_STACK)));
        if(!copyMem(s,mk(ad),a[i],n)) return R_END; a[i]=mk(ad); }
      int r=doCall(s,q,f,a,cal,spec);
      if(r==R_NEXT&&q.opc==Instruction::Invoke){ gotoBB(s,q.tgt[0]); return R_JUMP; }
      return r; }
    default: engineErr(s,std::string("instruction ")+q.I->getOpcodeName()); return R_END;
  }
}

static bool copyMem(State&s,V d,V sr,u64 n){
  if(!n) return true; u64 so,dof; OP*sp=resolve(s,sr,n,false,so); if(!sp) return false;
  std::vector<u8> dt(sp->o->data.begin()+so,sp->o->data.begin()+so+n),in(sp->o->init.begin()+so,sp->o->init.begin()+so+n); std::vector<Expr*> sy; if(!sp->o->sym.empty()) sy.assign(sp->o->sym.begin()+so,sp->o->sym.begin()+so+n);
  OP*dp=resolve(s,d,n,true,dof); if(!dp) return false; Obj*o=wr(*dp);
  std::copy(dt.begin(),dt.end(),o->data.begin()+dof); std::copy(in.begin(),in.end(),o->init.begin()+dof);
  if(!sy.empty()){ if(o->sym.empty()) o->sym.assign(o->size,nullptr); std::copy(sy.begin(),sy.end(),o->sym.begin()+dof); } else if(!o->sym.empty()) std::fill(o->sym.begin()+dof,o->sym.begin()+dof+n,nullptr);
  return true;
}
static const char* intern(const std::string&x){ static std::set<std::string> S; return S.insert(x).first->c_str(); }

static int doCall(State&s,KI&q,Frame&f,const std::vector<V>&a,Function*callee,int spec){
  auto setr=[&](V v){ if(q.dst>=0) f.r[q.dst]=v; return R_NEXT; };
  auto nondet=[&](char k,unsigned w,unsigned rw){ const char*nm=intern(readStr(s,a[0].c)); V v=fresh(s,w,0); s.nd.push_back(Nd{k,nm,v,w}); return setr(rw>w?zext(v,w,rw):v); };
  unsigned w=q.w;
  switch(spec){
    case S_NONE: if(!pushFrame(s,callee,a,q.dst)) return R_END; return R_JUMP;
    case S_INT: return nondet('i',32,w); case S_U8: return nondet('b',8,w); case S_U16: return nondet('h',16,w); case S_U32: return nondet('u',32,w); case S_U64: return nondet('q',64,w); case S_BOOL: return nondet('t',1,w);
    case S_RANGE: { i64 lo=sx(a[1].c,32),hi=sx(a[2].c,32); if(a[1].e||a[2].e){ engineErr(s,"vp_range bounds symbolic"); return R_END; }
      if(lo>hi) return R_END; if(lo==hi){ s.nd.push_back(Nd{'i',intern(readStr(s,a[0].c)),mk((u64)(lo&0xffffffff)),32}); return setr(mk((u64)(lo&0xffffffff))); }
      V v=fresh(s,32,(u64)lo); s.nd.push_back(Nd{'i',intern(readStr(s,a[0].c)),v,32});
      V c=bin(AND,1,bin(SLE,32,mk((u64)lo&0xffffffff),v),bin(SLE,32,v,mk((u64)hi&0xffffffff))); if(c.e) s.pc.add(c.e,false); return setr(v); }
    case S_CHOICE: { if(a[1].e){ engineErr(s,"vp_choice n symbolic"); return R_END; } i64 n=sx(a[1].c,32); if(n<=0) return R_END; const char*nm=intern(readStr(s,a[0].c));
      for(i64 i=n-1;i>=1;i--){ State*o=clone(s); o->nd.push_back(Nd{'i',nm,mk((u64)i),32}); o->st.back().r[q.dst]=mk((u64)i); o->st.back().pc++; WL.push_back(o); }
      s.nd.push_back(Nd{'i',nm,mk((u64)0),32}); f.r[q.dst]=mk((u64)0); f.pc++; giveAway(); return R_JUMP; }
    case S_CONC: return setr(mk(concretize(s,a[0],64)));
    case S_ASSUME: case S_ASSUMEI: { V c=a[0]; 
      if(spec==S_ASSUMEI){ return R_NEXT; }
      if(!c.e){ if(c.c&1) return R_NEXT; SH->ent[s.entry].killed++; return R_END; }
      c=simpc(s,c); if(!c.e){ if(c.c&1) return R_NEXT; SH->ent[s.entry].killed++; return R_END; }
      if(evalV(c,s.model)&1){ s.pc.add(c.e,false); return R_NEXT; }
      std::vector<u64> m; int r=query(s,c.e,&m); if(r==1){ s.pc.add(c.e,false); s.model=std::move(m); return R_NEXT; } SH->ent[s.entry].killed++; return R_END; }
    case S_ASSERT: { SH->ent[s.entry].asserts++; auto it=ALABA.find(a[1].c); if(it!=ALABA.end()) SH->alabel[it->second]++;
      return check(s,notb(a[0]),"assert",readStr(s,a[1].c))?R_NEXT:R_END; }
    case S_FAIL: violation(s,"assert",readStr(s,a[0].c)); return R_END;
    case S_REACH: { auto it=LABA.find(a[0].c); if(it!=LABA.end()) SH->label[it->second]++; return R_NEXT; }
    case S_OBSERVE: s.obs.push_back(a[0]); return R_NEXT;
    case S_HEAPLIVE: return setr(mk((u64)s.live)); case S_HEAPALLOCS: return setr(mk((u64)s.allocs)); case S_HEAPFREES: return setr(mk((u64)s.frees));
    case S_LIVEOBJ: return setr(mk((u64)s.objs.size()));
    case S_CTOR: case S_DTOR: case S_USE: {
      u64 p=concretize(s,a[0],64); auto it=std::lower_bound(s.objs.begin(),s.objs.end(),p); bool live=it!=s.objs.end()&&*it==p;
      if(spec==S_CTOR){ if(live){ violation(s,"lifetime","object constructed over a live object"); return R_END; } s.objs.insert(it,p); }
      else if(!live){ violation(s,"lifetime",spec==S_DTOR?"destruction of an object that is not alive":"use of an object that is not alive"); return R_END; }
      else if(spec==S_DTOR) s.objs.erase(it);
      return R_NEXT; }
    case S_VALID: { u64 p=concretize(s,a[0],64); OP*o=findObj(s,p); return setr(mk((u64)(o&&o->o->alive&&p<o->o->base+o->o->size))); }
    case S_NEW: case S_NEWARR: case S_MALLOC: { u64 n=concretize(s,a[0],64); if(n>(1u<<24)){ violation(s,"memory","absurd allocation size"); return R_END; } if(s.allocs>(g_maxsteps>4000000?g_maxsteps/200:20000)){ violation(s,"memory","unbounded allocation"); return R_END; } return setr(mk(heapAlloc(s,n,spec==S_NEW?OK_NEW:spec==S_NEWARR?OK_NEWARR:OK_MALLOC))); }
    case S_CALLOC: { u64 n=concretize(s,a[0],64)*concretize(s,a[1],64); if(n>(1u<<24)){ violation(s,"memory","absurd allocation size"); return R_END; } u64 p=heapAlloc(s,n,OK_MALLOC); std::fill(s.heap.back().o->init.begin(),s.heap.back().o->init.end(),1); return setr(mk(p)); }
    case S_DEL: return heapFree(s,a[0],OK_NEW)?R_NEXT:R_END; case S_DELARR: return heapFree(s,a[0],OK_NEWARR)?R_NEXT:R_END; case S_FREE: return heapFree(s,a[0],OK_MALLOC)?R_NEXT:R_END;
    case S_MEMCPY: case S_MEMMOVE: { u64 n=concretize(s,a[2],64); 
      if(spec==S_MEMCPY&&n){ u64 d=concretize(s,a[0],64),r=concretize(s,a[1],64); if(d!=r&&d<r+n&&r<d+n){ violation(s,"memory","memcpy of overlapping ranges"); return R_END; } }
      return copyMem(s,a[0],a[1],n)?setr(a[0]):R_END; }
    case S_MEMSET: { u64 n=concretize(s,a[2],64); if(!n) return setr(a[0]); u64 off; OP*p=resolve(s,a[0],n,true,off); if(!p) return R_END; V b=ext(a[1],tw(callee->getFunctionType()->getParamType(1)),0,8); for(u64 i=0;i<n;i++) storeInt(s,p,off+i,8,b); return setr(a[0]); }
    case S_MEMCMP: { u64 n=concretize(s,a[2],64); for(u64 i=0;i<n;i++){ u64 o1,o2; OP*p=resolve(s,bin(ADD,64,a[0],mk(i)),1,false,o1); if(!p) return R_END; V x=loadInt(s,p,o1,8); OP*r=resolve(s,bin(ADD,64,a[1],mk(i)),1,false,o2); if(!r) return R_END; V y=loadInt(s,r,o2,8);
        if(!decide(s,bin(EQ,8,x,y))) return setr(ite(bin(ULT,8,x,y),mk((u64)0xffffffff),mk((u64)1),32)); } return setr(mk((u64)0)); }
    case S_STRLEN: { u64 n=0; for(;;n++){ u64 o; OP*p=resolve(s,bin(ADD,64,a[0],mk(n)),1,false,o); if(!p) return R_END; V x=loadInt(s,p,o,8); if(decide(s,bin(EQ,8,x,mk((u64)0)))) break; } return setr(mk(n)); }
    case S_STRNLEN: { u64 n=0,lim=concretize(s,a[1],64); for(;n<lim;n++){ u64 o; OP*p=resolve(s,bin(ADD,64,a[0],mk(n)),1,false,o); if(!p) return R_END; V x=loadInt(s,p,o,8); if(decide(s,bin(EQ,8,x,mk((u64)0)))) break; } return setr(mk(n)); }
    case S_MEMCHR: { u64 lim=concretize(s,a[2],64); u64 ch=concretize(s,a[1],32)&255; for(u64 n=0;n<lim;n++){ u64 o; V q=bin(ADD,64,a[0],mk(n)); OP*p=resolve(s,q,1,false,o); if(!p) return R_END; V x=loadInt(s,p,o,8); if(decide(s,bin(EQ,8,x,mk(ch)))) return setr(q); } return setr(mk((u64)0)); }
    case S_STRCMP: { for(u64 i=0;;i++){ u64 o1,o2; OP*p=resolve(s,bin(ADD,64,a[0],mk(i)),1,false,o1); if(!p) return R_END; V x=loadInt(s,p,o1,8); OP*r=resolve(s,bin(ADD,64,a[1],mk(i)),1,false,o2); if(!r) return R_END; V y=loadInt(s,r,o2,8);
        if(!decide(s,bin(EQ,8,x,y))) return setr(ite(bin(ULT,8,x,y),mk((u64)0xffffffff),mk((u64)1),32)); if(decide(s,bin(EQ,8,x,mk((u64)0)))) return setr(mk((u64)0)); } }
    case S_ABORT: case S_TRAP: violation(s,"abort","abort called: "+callee->getName().str()); return R_END;
    case S_NOP: return R_NEXT; case S_NOP0: return setr(mk((u64)0));
    case S_STACKSAVE: return setr(mk(s.sptr));
    case S_EXPECT: return setr(a[0]);
    case S_OBJSIZE: return setr(mk(maskw(q.w)));
    case S_UMULO: case S_UADDO: case S_USUBO: case S_SMULO: case S_SADDO: case S_SSUBO: {
      unsigned ww=q.w2; V r,o; V x=a[0],y=a[1];
      switch(spec){ case S_UADDO: r=bin(ADD,ww,x,y); o=bin(ULT,ww,r,x); break; case S_USUBO: r=bin(SUB,ww,x,y); o=bin(ULT,ww,x,y); break;
        case S_UMULO: r=bin(MUL,ww,x,y); if(!x.e) std::swap(x,y); if(!y.e) o=y.c?bin(ULT,ww,mk(maskw(ww)/y.c),x):mk((u64)0); else o=bin(AND,1,notb(bin(EQ,ww,y,mk((u64)0))),notb(bin(EQ,ww,bin(UDIV,ww,r,y),x))); break;
        case S_SMULO: r=bin(MUL,ww,x,y); o=overflowS(MUL,ww,x,y); break; case S_SADDO: r=bin(ADD,ww,x,y); o=overflowS(ADD,ww,x,y); break; default: r=bin(SUB,ww,x,y); o=overflowS(SUB,ww,x,y); }
      return setr(V{mkAgg({r,o}),0}); }
    case S_CTPOP: { V r=mk((u64)0); for(unsigned i=0;i<w;i++) r=bin(ADD,w,r,zext(ext(a[0],w,i,1),1,w)); return setr(r); }
    case S_CTLZ: { V r=mk((u64)w); for(unsigned i=0;i<w;i++) r=ite(ext(a[0],w,i,1),mk((u64)(w-1-i)),r,w); return setr(r); }
    case S_CTTZ: { V r=mk((u64)w); for(unsigned i=w;i--;) r=ite(ext(a[0],w,i,1),mk((u64)i),r,w); return setr(r); }
    case S_UMIN: return setr(ite(bin(ULT,w,a[0],a[1]),a[0],a[1],w)); case S_UMAX: return setr(ite(bin(ULT,w,a[0],a[1]),a[1],a[0],w));
    case S_SMIN: return setr(ite(bin(SLT,w,a[0],a[1]),a[0],a[1],w)); case S_SMAX: return setr(ite(bin(SLT,w,a[0],a[1]),a[1],a[0],w));
    case S_ABS: return setr(ite(bin(SLT,w,a[0],mk((u64)0)),bin(SUB,w,mk((u64)0),a[0]),a[0],w));
    case S_FSHL: case S_FSHR: { V sh=bin(UREM,w,a[2],mk((u64)w)); if(sh.e){ sh=mk(concretize(s,sh,w)); } u64 k=sh.c; if(!k) return setr(spec==S_FSHL?a[0]:a[1]); if(spec==S_FSHR) k=w-k; return setr(bin(OR,w,bin(SHL,w,a[0],mk(k)),bin(LSHR,w,a[1],mk(w-k)))); }
    case S_BSWAP: { V r=ext(a[0],w,0,8); unsigned rw=8; for(unsigned i=1;i<w/8;i++){ r=concat(r,rw,ext(a[0],w,i*8,8),8); rw+=8; } return setr(r); }
    default: engineErr(s,"unsupported external function "+callee->getName().str()); return R_END;
  }
}

static bool g_child=false; static std::vector<pid_t> KIDS; static double g_lastgive=0; static u64 g_sinceGive=0;
static void giveAway(){
  if(WL.empty()||SH->stop) return;
  int a=SH->active.load(); if(a>=g_workers) return;
  if(!SH->active.compare_exchange_strong(a,a+1)) return;
  State*g=WL.front(); WL.pop_front();
  pid_t p=fork();
  if(p<0){ SH->active--; WL.push_front(g); return; }
  if(p==0){ KIDS.clear(); g_child=true; WL.clear(); WL.push_back(g);
    // the running state of the parent is abandoned in the child: unwind via longjmp-free flag
    extern void childMain(); childMain(); _exit(0); }
  KIDS.push_back(p);
  // reap finished kids without blocking
  for(size_t i=0;i<KIDS.size();){ int st; pid_t r=waitpid(KIDS[i],&st,WNOHANG); if(r==KIDS[i]){ if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ incomplete("worker died"); } KIDS.erase(KIDS.begin()+i); } else i++; }
  delete g;
}
static void runAll(){
  u64 n=0;
  while(!WL.empty()){
    State*s=WL.back(); WL.pop_back();
    for(;;){
      if((++n&1023)==0){ if(SH->stop) break; if(SH->nviol&&g_afterviol>0&&now()>SH->tviol+g_afterviol&&SH->tviol>0){ incomplete("stopped after violations"); SH->stop=1; break; } if(now()>g_deadline){ incomplete("time limit"); SH->stop=1; break; } }
      if(++s->steps>g_maxsteps){ violation(*s,"nontermination","step limit exceeded (possible non-termination)"); break; }
      int r=step(*s); if(r==R_NEXT) s->st.back().pc++; else if(r==R_END) break;
    }
    delete s; if(SH->stop) return;
  }
}
static void finish(){ SH->active--; for(pid_t k:KIDS){ int st; if(waitpid(k,&st,0)==k&&(!WIFEXITED(st)||WEXITSTATUS(st)!=0)) { incomplete("worker died"); } } }
void childMain(){ runAll(); finish(); _exit(0); }

static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if((u8)c<32) r+=' '; else r+=c; } return r; }

int main(int argc,char**argv){
  std::string file; std::vector<std::string> ents; double tl=600; u64 rl=50000000;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--after-viol") g_afterviol=atof(nx().c_str()); else if(a=="--out") g_out=nx(); else if(a=="--workers") g_workers=atoi(nx().c_str()); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--steps") g_maxsteps=strtoull(nx().c_str(),0,10); else if(a=="--seed") g_seed=strtoull(nx().c_str(),0,10);
    else if(a=="--samples") g_maxsample=atoi(nx().c_str()); else if(a=="--dump") g_dump=atoi(nx().c_str()); else if(a=="--rlimit") rl=strtoull(nx().c_str(),0,10); else if(file.empty()) file=a; else ents.push_back(a); }
  LLVMContext C; SMDiagnostic d; auto Mo=parseIRFile(file,d,C); if(!Mo){ d.print("symex",errs()); return 3; } M=Mo.get(); DL=&M->getDataLayout();
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  Z3_config zc_=Z3_mk_config(); Z=Z3_mk_context(zc_); Z3_set_error_handler(Z,zerrh);
  { Z3_symbol l=Z3_mk_string_symbol(Z,"QF_BV"); const char*smt=getenv("SYMEX_SMT"); ZS=smt?Z3_mk_simple_solver(Z):Z3_mk_solver_for_logic(Z,l); Z3_solver_inc_ref(Z,ZS);
    Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)rl); Z3_solver_set_params(Z,ZS,p);
    ZI=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_IDL")); Z3_solver_inc_ref(Z,ZI); Z3_solver_set_params(Z,ZI,p); ZINT=Z3_mk_int_sort(Z); Z3_inc_ref(Z,Z3_sort_to_ast(Z,ZINT)); }
  double t0=now(); g_deadline=t0+tl;
  // global addresses
  State*s0=new State; s0->entry=0; s0->steps=0; s0->allocs=s0->frees=s0->live=0; s0->hptr=HBASE; s0->sptr=SBASE;
  u64 ga=GBASE; std::vector<std::pair<GlobalVariable*,Obj*>> gos;
  for(auto&g:M->globals()){ u64 sz=g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()).getFixedValue():8; GADDR[&g]=ga; Obj*o=newObj(ga,sz,OK_GLOBAL); gos.push_back({&g,o}); s0->glob.push_back(OP(o)); ga+=((sz+15)&~15ull)+64; }
  for(auto&F:*M){ GADDR[&F]=ga; FADDR[ga]=&F; ga+=16; }
  for(auto&p:gos){ if(p.first->hasInitializer()) initConst(p.second,0,p.first->getInitializer()); else std::fill(p.second->init.begin(),p.second->init.end(),1); if(p.first->isConstant()&&p.first->hasInitializer()) p.second->ro=true; }
  for(auto&F:*M) if(!F.isDeclaration()) compileF(&F);
  // labels used by vp_reach / vp_assert
  for(auto&F:*M) for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)) if(auto*cf=c->getCalledFunction()){ 
    auto nm=cf->getName(); int ai=nm=="vp_reach"?0:nm=="vp_assert"?1:-1; if(ai<0) continue;
    if(auto*gc=dyn_cast<Constant>(c->getArgOperand(ai))){ u64 ad=constAddr(gc); std::string str=readStr(*s0,ad);
      auto&m=ai?ALABA:LABA; auto&nn=ai?ALABN:LABN; if(!m.count(ad)){ m[ad]=nn.size(); nn.push_back(str); if(nn.size()>=MAXLAB) { fprintf(stderr,"too many labels\n"); return 3; } } } }
  // global constructors
  if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*F=dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1)->stripPointerCasts()); if(!F) continue;
      pushFrame(*s0,F,{},-1); while(!s0->st.empty()){ if(s0->st.size()==1){ KI&q=s0->st.back().f->code[s0->st.back().pc]; if(q.opc==Instruction::Ret){ s0->st.pop_back(); break; } } int r=step(*s0); if(r==R_NEXT) s0->st.back().pc++; else if(r==R_END) break; } s0->st.clear(); }
  for(auto&e:ents){ Function*F=M->getFunction(e); if(!F||F->isDeclaration()){ fprintf(stderr,"no entry %s\n",e.c_str()); return 3; } ENTN.push_back(e); ENTF.push_back(F); }
  if(ENTN.size()>MAXENT) return 3;
  for(size_t i=ENTN.size();i--;){ State*s=new State(*s0); s->entry=i; pushFrame(*s,ENTF[i],{},-1); WL.push_back(s); }
  SH->active=1; 
  // the exploration runs in processes of its own, with bounded memory, so that one which dies does not take the results along
  prctl(PR_SET_CHILD_SUBREAPER,1);
  pid_t ex=fork();
  if(ex<=0){ if(!ex){ struct rlimit ml; ml.rlim_cur=ml.rlim_max=(rlim_t)7<<29; setrlimit(RLIMIT_AS,&ml); } while(WL.size()>1&&SH->active<g_workers) giveAway(); runAll(); finish(); if(!ex) _exit(0); }
  else for(int st;waitpid(-1,&st,0)>0;) if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) incomplete("worker died");
  double wall=now()-t0;
  // summary
  FILE*f=fopen((g_out+"/stats.json").c_str(),"w");
  fprintf(f,"{\"wall\":%.3f,\"incomplete\":%d,\"incomplete_msg\":\"%s\",\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"q_integer_view\":%llu,\"solver_s\":%.3f,\"implied_hits\":%llu,\"implied_reproved\":%llu,\"nviol\":%d,\n\"entries\":[",wall,(int)SH->incomplete,jesc(SH->incmsg).c_str(),(unsigned long long)SH->q_sat,(unsigned long long)SH->q_unsat,(unsigned long long)SH->q_unk,(unsigned long long)SH->q_int,SH->q_ns*1e-9,(unsigned long long)SH->known_hits,(unsigned long long)SH->simp_checked,(int)SH->nviol);
  for(size_t i=0;i<ENTN.size();i++){ EntStat&e=SH->ent[i]; fprintf(f,"%s\n{\"name\":\"%s\",\"paths\":%llu,\"assumed_away\":%llu,\"violations\":%llu,\"asserts\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"solver_s\":%.3f}",i?",":"",ENTN[i].c_str(),(unsigned long long)e.paths,(unsigned long long)e.killed,(unsigned long long)e.viol,(unsigned long long)e.asserts,(unsigned long long)e.steps,(unsigned long long)e.forks,(unsigned long long)e.q,e.qns*1e-9); }
  fprintf(f,"],\n\"reach\":{"); for(size_t i=0;i<LABN.size();i++) fprintf(f,"%s\"%s\":%llu",i?",":"",jesc(LABN[i]).c_str(),(unsigned long long)SH->label[i]);
  fprintf(f,"},\n\"asserts\":{"); for(size_t i=0;i<ALABN.size();i++) fprintf(f,"%s\"%s\":%llu",i?",":"",jesc(ALABN[i]).c_str(),(unsigned long long)SH->alabel[i]);
  fprintf(f,"},\n\"functions\":["); bool first=true; for(auto*k:KFL) if(SH->fn[k->id]&&k->isttl){ fprintf(f,"%s\"%s\"",first?"":",\n",jesc(k->name).c_str()); first=false; }
  fprintf(f,"],\n\"lines_hit\":{"); 
  { std::map<std::string,std::set<int>> hit,all; for(auto*k:KFL){ for(size_t b=0;b<k->bbs.size();b++){ int e=b+1<k->bbs.size()?k->bbs[b+1].start:k->code.size(); for(int i=k->bbs[b].start;i<e;i++){ auto dl=k->code[i].I->getDebugLoc(); if(!dl) continue; std::string fn=cast<DIScope>(dl.getScope())->getFilename().str(); if(fn.find("ttl/")==std::string::npos) continue; size_t sl=fn.rfind('/'); fn=fn.substr(sl+1); all[fn].insert(dl.getLine()); if(SH->bb[k->bbs[b].gid]) hit[fn].insert(dl.getLine()); } } }
    first=true; for(auto&p:all){ fprintf(f,"%s\"%s\":[%zu,%zu,[",first?"":",\n",p.first.c_str(),hit[p.first].size(),p.second.size()); first=false; bool ff=true; for(int l:p.second) if(!hit[p.first].count(l)){ fprintf(f,"%s%d",ff?"":",",l); ff=false; } fprintf(f,"]]"); } }
  fprintf(f,"}}\n"); fclose(f);
  return 0;
}
