// Z3 back end: linear abstraction (for feasibility and most proofs), integer grid (counterexample
// search with exactly representable values) and full non-linear real arithmetic.
#pragma once
#include "term.hpp"
#include <z3.h>
#include <chrono>
#include <set>

enum Mode { ABS, FUL, GRID };

typedef std::unordered_map<uint32_t, mpq_class> RModel;   // var index -> value (bools/bvs as integers)
struct Model { RModel v; };

struct SolverStats { long exact=0, exactUnknown=0, queries=0, cacheHits=0, modelHits=0, assertQ=0, nra=0, grid=0, unknown=0; double ms=0; };

class Solver {
public:
  Terms& TM; Z3_context ctx; SolverStats st; Z3_sort RS, IS, BS;
  int feasTimeout=2000, absTimeout=60000, nraTimeout=20000, gridTimeout=15000; int G=3; int exactVars=0, exactTimeout=1500;
  std::vector<Model> recent; size_t recentPos=0;
  Solver(Terms& t):TM(t){
    Z3_config c=Z3_mk_config(); ctx=Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); });
    RS=Z3_mk_real_sort(ctx); IS=Z3_mk_int_sort(ctx); BS=Z3_mk_bool_sort(ctx);
  }
  // ---- variable sets ----
  std::unordered_map<uint32_t,std::vector<uint32_t>> vsCache;
  const std::vector<uint32_t>& varset(T t){
    auto it=vsCache.find(t->id); if(it!=vsCache.end()) return it->second;
    std::vector<uint32_t> out;
    auto add=[&](T x){ const auto&v=varset(x); std::vector<uint32_t> m; std::set_union(out.begin(),out.end(),v.begin(),v.end(),std::back_inserter(m)); out.swap(m); };
    if(t->op==Op::RVar||t->op==Op::BvVar||t->op==Op::BVar) out.push_back((uint32_t)t->u);
    for(T x:t->k) add(x); if(t->lin) for(auto&p:t->lin->v) add(p.first);
    return vsCache[t->id]=out;
  }
  // ---- exact evaluation under a model; returns false if not evaluable ----
  struct EV { bool ok; mpq_class q; };
  bool evalQ(T t,const Model&m,mpq_class&r,std::unordered_map<uint32_t,EV>&memo,int depth=0){
    if(depth>4000) return false;
    auto it=memo.find(t->id); if(it!=memo.end()){ r=it->second.q; return it->second.ok; }
    bool ok=eval0(t,m,r,memo,depth); memo[t->id]=EV{ok,r}; return ok;
  }
  static int64_t toI(const mpq_class&q){ return (int64_t)mpz_get_si(q.get_num_mpz_t()); }
  static uint64_t toU(const mpq_class&q){ mpz_class z=q.get_num(); if(z<0) return (uint64_t)mpz_get_si(z.get_mpz_t()); return mpz_get_ui(z.get_mpz_t()); }
  static mpq_class fromU(uint64_t u){ mpz_class z; mpz_set_ui(z.get_mpz_t(),u); return mpq_class(z); }
  bool eval0(T t,const Model&m,mpq_class&r,std::unordered_map<uint32_t,EV>&memo,int d){
    auto ev=[&](T x,mpq_class&q){ return evalQ(x,m,q,memo,d+1); };
    switch(t->op){
      case Op::True: r=1; return true; case Op::False: r=0; return true;
      case Op::RVar: case Op::BvVar: case Op::BVar: { auto it=m.v.find((uint32_t)t->u); if(it!=m.v.end()) r=it->second; else { auto&vi=TM.vars[t->u]; r=vi.hasLo&&vi.lo>0?vi.lo:(vi.hasHi&&vi.hi<0?vi.hi:mpq_class(0)); } return true; }
      case Op::Not: { mpq_class q; if(!ev(t->k[0],q)) return false; r= q==0; return true; }
      case Op::And: { bool unk=false; for(T x:t->k){ mpq_class q; if(!ev(x,q)) unk=true; else if(q==0){ r=0; return true; } } r=1; return !unk; }
      case Op::Or: { bool unk=false; for(T x:t->k){ mpq_class q; if(!ev(x,q)) unk=true; else if(q!=0){ r=1; return true; } } r=0; return !unk; }
      case Op::RLt0: { mpq_class q; if(!ev(t->k[0],q)) return false; r= q<0; return true; }
      case Op::RLe0: { mpq_class q; if(!ev(t->k[0],q)) return false; r= q<=0; return true; }
      case Op::REq0: { mpq_class q; if(!ev(t->k[0],q)) return false; r= q==0; return true; }
      case Op::BvConst: r=fromU(t->u); return true;
      case Op::BvIte: case Op::RIte: { mpq_class q; if(!ev(t->k[0],q)) return false; return ev(q!=0?t->k[1]:t->k[2],r); }
      case Op::Lin: { r=t->lin->c0; for(auto&p:t->lin->v){ mpq_class q; if(!ev(p.first,q)) return false; r+=q*p.second; } return true; }
      case Op::RMul: { r=1; for(T x:t->k){ mpq_class q; if(!ev(x,q)) return false; r*=q; } return true; }
      case Op::RMin: case Op::RMax: { bool f=true; for(T x:t->k){ mpq_class q; if(!ev(x,q)) return false; if(f||(t->op==Op::RMin? q<r:q>r)) r=q; f=false; } return true; }
      case Op::RDiv: { mpq_class a,b; if(!ev(t->k[0],a)||!ev(t->k[1],b)||b==0) return false; r=a/b; return true; }
      case Op::RSqrt: { mpq_class a; if(!ev(t->k[0],a)||a<0) return false; a.canonicalize(); if(mpz_perfect_square_p(a.get_num_mpz_t())&&mpz_perfect_square_p(a.get_den_mpz_t())){ mpz_class n,dd; mpz_sqrt(n.get_mpz_t(),a.get_num_mpz_t()); mpz_sqrt(dd.get_mpz_t(),a.get_den_mpz_t()); r=mpq_class(n,dd); return true;} return false; }
      case Op::RFloor: { mpq_class a; if(!ev(t->k[0],a)) return false; mpz_class z; mpz_fdiv_q(z.get_mpz_t(),a.get_num_mpz_t(),a.get_den_mpz_t()); r=mpq_class(z); return true; }
      case Op::RBv2R: { mpq_class a; if(!ev(t->k[0],a)) return false; uint64_t u=toU(a); if(t->u) r=mpq_class((long)Terms::sx(u,t->k[0]->width)); else r=fromU(u); return true; }
      case Op::BvZext: return ev(t->k[0],r);
      case Op::BvSext: { mpq_class a; if(!ev(t->k[0],a)) return false; r=fromU((uint64_t)Terms::sx(toU(a),t->k[0]->width)&Terms::mask(t->width)); return true; }
      case Op::BvExtract: { mpq_class a; if(!ev(t->k[0],a)) return false; r=fromU((toU(a)>>t->u)&Terms::mask(t->width)); return true; }
      case Op::BvConcat: { mpq_class a,b; if(!ev(t->k[0],a)||!ev(t->k[1],b)) return false; r=fromU((toU(a)<<t->k[1]->width)|toU(b)); return true; }
      case Op::BvEq: { mpq_class a,b; if(!ev(t->k[0],a)||!ev(t->k[1],b)) return false; r= a==b; return true; }
      case Op::BvUlt: { mpq_class a,b; if(!ev(t->k[0],a)||!ev(t->k[1],b)) return false; r= toU(a)<toU(b); return true; }
      case Op::BvSlt: { mpq_class a,b; int w=t->k[0]->width; if(!ev(t->k[0],a)||!ev(t->k[1],b)) return false; r= Terms::sx(toU(a),w)<Terms::sx(toU(b),w); return true; }
      default: { mpq_class a,b; if(t->k.size()!=2||!ev(t->k[0],a)||!ev(t->k[1],b)) return false; uint64_t u; if(!Terms::evalBin(t->op,toU(a),toU(b),t->width,u)) return false; r=fromU(u); return true; }
    }
  }
  int evalB(T t,const Model&m,std::unordered_map<uint32_t,EV>&memo){ mpq_class q; if(!evalQ(t,m,q,memo)) return -1; return q!=0; }

  // ---- translation ----
  std::unordered_map<uint32_t,Z3_ast> cache[3];
  std::unordered_map<uint32_t,Z3_ast> gridInt;    // GRID: var -> int ast
  bool gridFail=false;
  std::string ratStr(const mpq_class&q){ return q.get_str(); }
  Z3_ast num(const mpq_class&q){ return keep(Z3_mk_numeral(ctx,ratStr(q).c_str(),RS)); }
  Z3_ast keep(Z3_ast a){ return a; }   // legacy (non-rc) context keeps asts until push/pop of the context
  Z3_ast mkvar(const std::string&n,Z3_sort s){ return Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),s); }
  Z3_ast tr(T t,Mode m){
    auto it=cache[m].find(t->id); if(it!=cache[m].end()) return it->second;
    Z3_ast r=tr0(t,m); cache[m][t->id]=r; return r;
  }
  std::vector<Z3_ast> trs(const std::vector<T>&k,Mode m){ std::vector<Z3_ast> v; for(T x:k) v.push_back(tr(x,m)); return v; }
  static Terms& dummy();
  // interval of a linear term with integer coefficients over grid variables (GRID mode); returns false if not integral
  bool gridRange(T t,mpz_class&lo,mpz_class&hi){
    if(t->op!=Op::Lin) return false; if(t->lin->c0.get_den()!=1) return false; lo=hi=t->lin->c0.get_num();
    for(auto&p:t->lin->v){ if(p.first->op!=Op::RVar||p.second.get_den()!=1) return false; mpz_class a,b; varGrid(p.first,a,b); mpz_class c=p.second.get_num(); if(c>0){lo+=c*a;hi+=c*b;}else{lo+=c*b;hi+=c*a;} }
    return true; }
  void varGrid(T v,mpz_class&a,mpz_class&b){ a=-G;b=G; auto&vi=TM.vars[v->u]; if(vi.hasLo){ mpz_class z; mpz_cdiv_q(z.get_mpz_t(),vi.lo.get_num_mpz_t(),vi.lo.get_den_mpz_t()); if(z>a||z>b){a=z; if(b<a) b=a+2*G;} if(vi.lo>=0){ a=z; b=z+2*G; } } if(vi.hasHi){ mpz_class z; mpz_fdiv_q(z.get_mpz_t(),vi.hi.get_num_mpz_t(),vi.hi.get_den_mpz_t()); if(z<b) b=z; if(a>b) a=b; } }
  Z3_ast tr0(T t,Mode m){
    auto k=[&](int i){ return tr(t->k[i],m); };
    switch(t->op){
      case Op::True: return Z3_mk_true(ctx); case Op::False: return Z3_mk_false(ctx);
      case Op::BVar: return mkvar("b!"+std::to_string(t->u),BS);
      case Op::BvVar: return mkvar("v!"+std::to_string(t->u),Z3_mk_bv_sort(ctx,t->width));
      case Op::RVar: if(m==GRID){ Z3_ast i=mkvar("g!"+std::to_string(t->u),IS); return Z3_mk_int2real(ctx,i);} return mkvar("r!"+std::to_string(t->u),RS);
      case Op::Not: return Z3_mk_not(ctx,k(0));
      case Op::And: { auto v=trs(t->k,m); return Z3_mk_and(ctx,v.size(),v.data()); }
      case Op::Or: { auto v=trs(t->k,m); return Z3_mk_or(ctx,v.size(),v.data()); }
      case Op::RLt0: return cmp0(t->k[0],m,0); case Op::RLe0: return cmp0(t->k[0],m,1); case Op::REq0: return cmp0(t->k[0],m,2);
      case Op::BvEq: return Z3_mk_eq(ctx,k(0),k(1)); case Op::BvUlt: return Z3_mk_bvult(ctx,k(0),k(1)); case Op::BvSlt: return Z3_mk_bvslt(ctx,k(0),k(1));
      case Op::BvConst: return Z3_mk_unsigned_int64(ctx,t->u,Z3_mk_bv_sort(ctx,t->width));
      case Op::BvAdd: return Z3_mk_bvadd(ctx,k(0),k(1)); case Op::BvSub: return Z3_mk_bvsub(ctx,k(0),k(1)); case Op::BvMul: return Z3_mk_bvmul(ctx,k(0),k(1));
      case Op::BvUDiv: return Z3_mk_bvudiv(ctx,k(0),k(1)); case Op::BvSDiv: return Z3_mk_bvsdiv(ctx,k(0),k(1)); case Op::BvURem: return Z3_mk_bvurem(ctx,k(0),k(1)); case Op::BvSRem: return Z3_mk_bvsrem(ctx,k(0),k(1));
      case Op::BvShl: return Z3_mk_bvshl(ctx,k(0),k(1)); case Op::BvLShr: return Z3_mk_bvlshr(ctx,k(0),k(1)); case Op::BvAShr: return Z3_mk_bvashr(ctx,k(0),k(1));
      case Op::BvAnd: return Z3_mk_bvand(ctx,k(0),k(1)); case Op::BvOr: return Z3_mk_bvor(ctx,k(0),k(1)); case Op::BvXor: return Z3_mk_bvxor(ctx,k(0),k(1));
      case Op::BvZext: return Z3_mk_zero_ext(ctx,t->width-t->k[0]->width,k(0)); case Op::BvSext: return Z3_mk_sign_ext(ctx,t->width-t->k[0]->width,k(0));
      case Op::BvExtract: return Z3_mk_extract(ctx,t->u+t->width-1,t->u,k(0)); case Op::BvConcat: return Z3_mk_concat(ctx,k(0),k(1));
      case Op::BvIte: case Op::RIte: return Z3_mk_ite(ctx,k(0),k(1),k(2));
      case Op::Lin: { std::vector<Z3_ast> v; for(auto&p:t->lin->v){ Z3_ast a=tr(p.first,m); if(p.second!=1){ Z3_ast x[2]={num(p.second),a}; a=Z3_mk_mul(ctx,2,x);} v.push_back(a);} if(t->lin->c0!=0||v.empty()) v.push_back(num(t->lin->c0)); return v.size()==1?v[0]:Z3_mk_add(ctx,v.size(),v.data()); }
      case Op::RMin: case Op::RMax: { Z3_ast r=k(0); for(size_t i=1;i<t->k.size();i++){ Z3_ast x=k(i); r=Z3_mk_ite(ctx, t->op==Op::RMin?Z3_mk_le(ctx,r,x):Z3_mk_ge(ctx,r,x), r,x);} return r; }
      case Op::RMul: {
        if(m==ABS) return mkvar("mul!"+std::to_string(t->id),RS);
        if(m==FUL){ auto v=trs(t->k,m); return Z3_mk_mul(ctx,v.size(),v.data()); }
        // GRID: product by case split on the factors with a small integer range
        Z3_ast r=nullptr; size_t n=t->k.size(); std::vector<T> f=t->k; 
        // all but one factor must be small-range integral
        int keepi=-1; for(size_t i=0;i<n;i++){ mpz_class lo,hi; if(!gridRange(f[i],lo,hi)||hi-lo>200){ if(keepi>=0){ gridFail=true; return num(0);} keepi=(int)i; } }
        if(keepi<0) keepi=n-1;
        // square special case
        if(n==2&&f[0]==f[1]&&f[0]->op==Op::Lin){ mpz_class lo,hi; if(gridRange(f[0],lo,hi)){ Z3_ast x=tr(f[0],m); r=num(0); mpz_class mx=std::max(mpz_class(abs(lo)),mpz_class(abs(hi))); for(mpz_class v=1;v<=mx;v++){ Z3_ast c[2]={Z3_mk_eq(ctx,x,num(mpq_class(v))),Z3_mk_eq(ctx,x,num(mpq_class(-v)))}; r=Z3_mk_ite(ctx,Z3_mk_or(ctx,2,c),num(mpq_class(v*v)),r);} return r; } }
        std::function<Z3_ast(size_t,mpq_class)> rec=[&](size_t i,mpq_class c)->Z3_ast{ if((int)i==keepi) i++; if(i>=n){ Z3_ast x[2]={num(c),tr(f[keepi],m)}; return Z3_mk_mul(ctx,2,x);} if(c==0) return num(0); mpz_class lo,hi; gridRange(f[i],lo,hi); Z3_ast x=tr(f[i],m); Z3_ast r=rec(i+1,c*mpq_class(hi)); for(mpz_class v=lo;v<hi;v++) r=Z3_mk_ite(ctx,Z3_mk_eq(ctx,x,num(mpq_class(v))),rec(i+1,c*mpq_class(v)),r); return r; };
        return rec(0,1); }
      case Op::RSqrt: return mkvar("sqrt!"+std::to_string(t->id)+"!"+std::to_string(m),RS);
      case Op::RDiv: return mkvar("div!"+std::to_string(t->id)+"!"+std::to_string(m),RS);
      case Op::RFloor: return Z3_mk_int2real(ctx,mkvar("fl!"+std::to_string(t->id)+"!"+std::to_string(m),IS));
      case Op::RBv2R: return Z3_mk_int2real(ctx,Z3_mk_bv2int(ctx,k(0),t->u));
    }
    return nullptr;
  }
  Z3_ast cmp0(T t,Mode m,int how){ // move constant to the right
    Z3_ast a=tr(t,m), z=num(0); return how==0?Z3_mk_lt(ctx,a,z):how==1?Z3_mk_le(ctx,a,z):Z3_mk_eq(ctx,a,z); }
  // ---- lemmas for special atoms reachable from a set of formulas ----
  std::unordered_map<uint32_t,std::vector<T>> spCache;
  const std::vector<T>& specials(T t){
    auto it=spCache.find(t->id); if(it!=spCache.end()) return it->second;
    std::vector<T> out; auto add=[&](T x){ const auto&v=specials(x); out.insert(out.end(),v.begin(),v.end()); };
    for(T x:t->k) add(x); if(t->lin) for(auto&p:t->lin->v) add(p.first);
    if(t->op==Op::RMul||t->op==Op::RSqrt||t->op==Op::RDiv||t->op==Op::RFloor||t->op==Op::RBv2R) out.push_back(t);
    std::sort(out.begin(),out.end(),[](T a,T b){return a->id<b->id;}); out.erase(std::unique(out.begin(),out.end()),out.end());
    return spCache[t->id]=out;
  }
  Z3_ast imp(Z3_ast a,Z3_ast b){ return Z3_mk_implies(ctx,a,b); }
  Z3_ast and2(Z3_ast a,Z3_ast b){ Z3_ast v[2]={a,b}; return Z3_mk_and(ctx,2,v);} Z3_ast or2(Z3_ast a,Z3_ast b){ Z3_ast v[2]={a,b}; return Z3_mk_or(ctx,2,v);} 
  void addLemmas(Z3_solver s,const std::vector<T>&fs,Mode m,bool pairs){
    std::vector<T> sp; std::vector<uint32_t> vs;
    for(T f:fs){ const auto&v=specials(f); sp.insert(sp.end(),v.begin(),v.end()); const auto&w=varset(f); vs.insert(vs.end(),w.begin(),w.end()); }
    std::sort(sp.begin(),sp.end(),[](T a,T b){return a->id<b->id;}); sp.erase(std::unique(sp.begin(),sp.end()),sp.end());
    std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
    Z3_ast z=num(0), one=num(1);
    auto A=[&](Z3_ast a){ Z3_solver_assert(ctx,s,a); };
    for(uint32_t v:vs){ auto&vi=TM.vars[v]; T t=TM.varByName[vi.name];
      if(vi.sort=='r'){ T a=Terms::single(t); Z3_ast x=tr(a,m);
        if(m==GRID){ mpz_class lo,hi; varGrid(a,lo,hi); A(Z3_mk_ge(ctx,x,num(mpq_class(lo)))); A(Z3_mk_le(ctx,x,num(mpq_class(hi)))); }
        else { if(vi.hasLo) A(Z3_mk_ge(ctx,x,num(vi.lo))); if(vi.hasHi) A(Z3_mk_le(ctx,x,num(vi.hi))); } }
      else if(vi.sort=='v'&&vi.hasLo){ Z3_ast x=tr(t,m); Z3_sort bs=Z3_mk_bv_sort(ctx,vi.width); A(Z3_mk_bvsge(ctx,x,Z3_mk_numeral(ctx,vi.lo.get_num().get_str().c_str(),bs))); A(Z3_mk_bvsle(ctx,x,Z3_mk_numeral(ctx,vi.hi.get_num().get_str().c_str(),bs))); } }
    std::vector<T> sq,rt,dv;
    for(T t:sp){ Z3_ast x=tr(t,m);
      switch(t->op){
        case Op::RMul: if(m==ABS){ if(t->nonneg) A(Z3_mk_ge(ctx,x,z)); if(t->k.size()==2&&t->k[0]==t->k[1]){ sq.push_back(t); Z3_ast y=tr(t->k[0],m); A(Z3_mk_eq(ctx,Z3_mk_eq(ctx,x,z),Z3_mk_eq(ctx,y,z))); Z3_ast two[2]={num(2),y}; Z3_ast ty=Z3_mk_mul(ctx,2,two); Z3_ast p1[2]={ty,num(-1)}; Z3_ast p2[2]={Z3_mk_unary_minus(ctx,ty),num(-1)}; A(Z3_mk_ge(ctx,x,Z3_mk_add(ctx,2,p1))); A(Z3_mk_ge(ctx,x,Z3_mk_add(ctx,2,p2))); } else if(t->k.size()==2){ Z3_ast a=tr(t->k[0],m),b=tr(t->k[1],m); A(Z3_mk_eq(ctx,Z3_mk_eq(ctx,x,z),or2(Z3_mk_eq(ctx,a,z),Z3_mk_eq(ctx,b,z)))); A(Z3_mk_eq(ctx,Z3_mk_gt(ctx,x,z),or2(and2(Z3_mk_gt(ctx,a,z),Z3_mk_gt(ctx,b,z)),and2(Z3_mk_lt(ctx,a,z),Z3_mk_lt(ctx,b,z))))); } } break;
        case Op::RSqrt: { Z3_ast a=tr(t->k[0],m); A(Z3_mk_ge(ctx,x,z)); rt.push_back(t);
          if(m==ABS){ A(Z3_mk_eq(ctx,Z3_mk_eq(ctx,x,z),Z3_mk_le(ctx,a,z))); A(Z3_mk_eq(ctx,Z3_mk_le(ctx,x,one),Z3_mk_le(ctx,a,one))); A(or2(Z3_mk_lt(ctx,a,one),Z3_mk_le(ctx,x,a))); A(or2(Z3_mk_gt(ctx,a,one),or2(Z3_mk_lt(ctx,a,z),Z3_mk_ge(ctx,x,a)))); }
          else if(m==FUL){ Z3_ast v[2]={x,x}; A(Z3_mk_eq(ctx,Z3_mk_mul(ctx,2,v),a)); }
          else { Z3_ast r=Z3_mk_eq(ctx,a,z); r=and2(r,Z3_mk_eq(ctx,x,z)); for(int i=1;i<=12;i++) r=or2(r,and2(Z3_mk_eq(ctx,a,num(i*i)),Z3_mk_eq(ctx,x,num(i)))); A(r); } } break;
        case Op::RDiv: { Z3_ast a=tr(t->k[0],m),b=tr(t->k[1],m); dv.push_back(t);
          if(m==ABS){ Z3_ast bp=Z3_mk_gt(ctx,b,z); A(imp(bp,and2(Z3_mk_eq(ctx,Z3_mk_le(ctx,x,one),Z3_mk_le(ctx,a,b)),Z3_mk_eq(ctx,Z3_mk_ge(ctx,x,one),Z3_mk_ge(ctx,a,b))))); A(imp(bp,and2(Z3_mk_eq(ctx,Z3_mk_ge(ctx,x,z),Z3_mk_ge(ctx,a,z)),Z3_mk_eq(ctx,Z3_mk_le(ctx,x,z),Z3_mk_le(ctx,a,z))))); A(imp(Z3_mk_lt(ctx,b,z),and2(Z3_mk_eq(ctx,Z3_mk_ge(ctx,x,z),Z3_mk_le(ctx,a,z)),Z3_mk_eq(ctx,Z3_mk_le(ctx,x,z),Z3_mk_ge(ctx,a,z))))); }
          else if(m==FUL){ Z3_ast v[2]={x,b}; A(Z3_mk_eq(ctx,Z3_mk_mul(ctx,2,v),a)); A(Z3_mk_not(ctx,Z3_mk_eq(ctx,b,z))); }
          else { mpz_class lo,hi; T bt=t->k[1]; if(!gridRange(bt,lo,hi)||hi-lo>40){ Z3_ast v[2]={x,b}; /* use powers of two */ (void)v; Z3_ast r=Z3_mk_false(ctx); for(int i=1;i<=16;i*=2){ Z3_ast w[2]={num(i),x}; r=or2(r,and2(Z3_mk_eq(ctx,b,num(i)),Z3_mk_eq(ctx,a,Z3_mk_mul(ctx,2,w)))); Z3_ast w2[2]={num(-i),x}; r=or2(r,and2(Z3_mk_eq(ctx,b,num(-i)),Z3_mk_eq(ctx,a,Z3_mk_mul(ctx,2,w2)))); } A(r); } else { Z3_ast r=Z3_mk_false(ctx); for(mpz_class v=lo;v<=hi;v++){ if(v==0) continue; Z3_ast w[2]={num(mpq_class(v)),x}; r=or2(r,and2(Z3_mk_eq(ctx,b,num(mpq_class(v))),Z3_mk_eq(ctx,a,Z3_mk_mul(ctx,2,w)))); } A(r);} } } break;
        case Op::RFloor: { Z3_ast a=tr(t->k[0],m); A(Z3_mk_le(ctx,x,a)); Z3_ast p[2]={x,one}; A(Z3_mk_lt(ctx,a,Z3_mk_add(ctx,2,p))); } break;
        default: break;
      } }
    if(m==ABS&&pairs){
      if(sq.size()<=80) for(size_t i=0;i<sq.size();i++) for(size_t j=i+1;j<sq.size();j++){ // |x|<=|y| <=> x^2<=y^2, only for syntactically related factors
        T a=sq[i]->k[0],b=sq[j]->k[0]; if(!related(a,b)) continue;
        Z3_ast x=tr(a,m),y=tr(b,m),X=tr(sq[i],m),Y=tr(sq[j],m);
        Z3_ast ax=Z3_mk_ite(ctx,Z3_mk_ge(ctx,x,z),x,Z3_mk_unary_minus(ctx,x)), ay=Z3_mk_ite(ctx,Z3_mk_ge(ctx,y,z),y,Z3_mk_unary_minus(ctx,y));
        A(Z3_mk_eq(ctx,Z3_mk_le(ctx,ax,ay),Z3_mk_le(ctx,X,Y))); A(Z3_mk_eq(ctx,Z3_mk_lt(ctx,ax,ay),Z3_mk_lt(ctx,X,Y))); }
      if(rt.size()<=60) for(size_t i=0;i<rt.size();i++) for(size_t j=i+1;j<rt.size();j++){ Z3_ast x=tr(rt[i]->k[0],m),y=tr(rt[j]->k[0],m),X=tr(rt[i],m),Y=tr(rt[j],m); A(Z3_mk_eq(ctx,Z3_mk_le(ctx,x,y),Z3_mk_le(ctx,X,Y))); A(Z3_mk_eq(ctx,Z3_mk_lt(ctx,x,y),Z3_mk_lt(ctx,X,Y))); }
      if(dv.size()<=40) for(size_t i=0;i<dv.size();i++) for(size_t j=i+1;j<dv.size();j++){ if(dv[i]->k[1]!=dv[j]->k[1]) continue; Z3_ast b=tr(dv[i]->k[1],m); Z3_ast x=tr(dv[i]->k[0],m),y=tr(dv[j]->k[0],m),X=tr(dv[i],m),Y=tr(dv[j],m); A(imp(Z3_mk_gt(ctx,b,z),and2(Z3_mk_eq(ctx,Z3_mk_le(ctx,x,y),Z3_mk_le(ctx,X,Y)),Z3_mk_eq(ctx,Z3_mk_lt(ctx,x,y),Z3_mk_lt(ctx,X,Y))))); }
    }
  }
  bool related(T a,T b){ const auto&x=varset(a),&y=varset(b); size_t i=0,j=0; while(i<x.size()&&j<y.size()){ if(x[i]==y[j]) return true; if(x[i]<y[j]) i++; else j++; } return false; }

  // ---- core check: returns 1 sat, 0 unsat, -1 unknown ----
  int check(const std::vector<T>&fs,Mode m,int timeout,Model*out,bool pairs,T want=nullptr,uint64_t*wantVal=nullptr){
    auto t0=std::chrono::steady_clock::now(); st.queries++;
    Z3_solver s;
    gridFail=false;
    if(m==FUL) s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_NRA")); else s=Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeout); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
    for(T f:fs) Z3_solver_assert(ctx,s,tr(f,m));
    addLemmas(s,fs,m,pairs);
    int r=-1;
    if(!(m==GRID&&gridFail)){ Z3_lbool b=Z3_solver_check(ctx,s); r= b==Z3_L_TRUE?1:b==Z3_L_FALSE?0:-1; }
    if(r==1&&out){ Z3_model md=Z3_solver_get_model(ctx,s); if(md){ Z3_model_inc_ref(ctx,md); extract(md,fs,m,*out); if(want){ Z3_ast v; uint64_t u=0; if(Z3_model_eval(ctx,md,tr(want,m),true,&v)&&Z3_get_numeral_uint64(ctx,v,&u)) *wantVal=u; } Z3_model_dec_ref(ctx,md);} }
    Z3_solver_dec_ref(ctx,s);
    if(r<0) st.unknown++;
    st.ms+=std::chrono::duration<double,std::milli>(std::chrono::steady_clock::now()-t0).count();
    return r;
  }
  void extract(Z3_model md,const std::vector<T>&fs,Mode m,Model&out){
    std::vector<uint32_t> vs; for(T f:fs){ const auto&w=varset(f); vs.insert(vs.end(),w.begin(),w.end()); } std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
    for(uint32_t v:vs){ auto&vi=TM.vars[v]; T t=TM.varByName[vi.name]; T a= vi.sort=='r'?Terms::single(t):t; Z3_ast x=tr(a,m),val; if(!Z3_model_eval(ctx,md,x,true,&val)) continue;
      if(vi.sort=='b'){ out.v[v]= Z3_get_bool_value(ctx,val)==Z3_L_TRUE; continue; }
      if(Z3_is_algebraic_number(ctx,val)) val=Z3_get_algebraic_number_lower(ctx,val,12);
      if(Z3_get_ast_kind(ctx,val)!=Z3_NUMERAL_AST){ Z3_ast sv=Z3_simplify(ctx,val); val=sv; if(Z3_get_ast_kind(ctx,val)!=Z3_NUMERAL_AST) continue; }
      mpq_class q; if(q.set_str(Z3_get_numeral_string(ctx,val),10)==0){ q.canonicalize(); out.v[v]=q; } }
  }
  // ---- feasibility of pc /\ c under the linear abstraction ----
  std::unordered_map<std::string,int> fcache;
  std::vector<T> slice(const std::vector<T>&pc,T c){
    std::vector<char> used(pc.size(),0); std::vector<uint32_t> vs=varset(c); bool ch=true; std::unordered_set<uint32_t> S(vs.begin(),vs.end());
    while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ const auto&w=varset(pc[i]); bool hit=false; for(uint32_t v:w) if(S.count(v)){hit=true;break;} if(hit){ used[i]=1; ch=true; for(uint32_t v:w) S.insert(v);} } }
    std::vector<T> r; for(size_t i=0;i<pc.size();i++) if(used[i]) r.push_back(pc[i]); r.push_back(c); return r; }
  bool feasible(const std::vector<T>&pc,T c){
    if(c==TM.tTrue) return true; if(c==TM.tFalse) return false;
    T nc=TM.bnot(c);
    for(T x:pc){ if(x==c) return true; if(x==nc) return false; if(x->op==Op::And) { for(T y:x->k) if(y==nc) return false; } }
    std::vector<T> q=slice(pc,c);
    std::vector<uint32_t> ids; for(T x:q) ids.push_back(x->id); std::sort(ids.begin(),ids.end()); std::string key((char*)ids.data(),ids.size()*4);
    auto it=fcache.find(key); if(it!=fcache.end()){ st.cacheHits++; return it->second; }
    for(size_t i=0;i<recent.size();i++){ std::unordered_map<uint32_t,EV> memo; bool ok=true; for(size_t j=q.size();j-->0;) if(evalB(q[j],recent[i],memo)!=1){ok=false;break;} if(ok){ st.modelHits++; fcache[key]=1; return true; } }
    int r=-1; Model m;
    if(exactVars>0){ std::set<uint32_t> rv; for(T x:q) for(uint32_t v:varset(x)) if(TM.vars[v].sort=='r') rv.insert(v); if((int)rv.size()<=exactVars&&!rv.empty()){ r=check(q,FUL,exactTimeout,&m,false); st.exact++; if(r<0) st.exactUnknown++; } }
    if(r<0) r=check(q,ABS,feasTimeout,&m,false);
    if(r==1){ if(recent.size()<12) recent.push_back(m); else { recent[recentPos%12]=m; recentPos++; } }
    fcache[key]= r!=0; return r!=0;
  }
};
