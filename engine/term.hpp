// Hash-consed terms: booleans, bit-vectors (<=64 bits), exact rationals/reals.
// Reals are kept in a linear normal form over non-linear/ite/min/max/sqrt/div atoms.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <gmpxx.h>

enum class Op : uint8_t {
  True, False, BVar, Not, And, Or, RLt0, RLe0, REq0, BvEq, BvUlt, BvSlt,
  BvConst, BvVar, BvAdd, BvSub, BvMul, BvUDiv, BvSDiv, BvURem, BvSRem, BvShl, BvLShr, BvAShr,
  BvAnd, BvOr, BvXor, BvZext, BvSext, BvExtract, BvConcat, BvIte,
  Lin, RVar, RMul, RIte, RMin, RMax, RSqrt, RDiv, RFloor, RBv2R
};
struct Term;
typedef const Term* T;
struct LinData { mpq_class c0; std::vector<std::pair<T, mpq_class>> v; };

struct Term {
  Op op; uint8_t width = 0; bool nonneg = false; double lo=-HUGE_VAL, hi=HUGE_VAL;   // sound enclosure of the value
  uint32_t id = 0; size_t hash = 0;
  uint64_t u = 0;                 // const value / var index / extract low bit / bv2r signed
  std::vector<T> k;
  LinData* lin = nullptr;
  mutable void* zabs = nullptr;   // Z3_ast caches
  mutable void* zful = nullptr;
};

struct VarInfo { std::string name; char sort; int width; bool hasLo=false, hasHi=false; mpq_class lo, hi; };

class Terms {
public:
  std::vector<Term*> all;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, T> varByName;
  T tTrue, tFalse;
  Terms() { tTrue = mk0(Op::True); tFalse = mk0(Op::False); }

  // ---------- construction ----------
  struct H { size_t operator()(T t) const { return t->hash; } };
  struct E { bool operator()(T a, T b) const {
    if (a->op!=b->op||a->width!=b->width||a->u!=b->u||a->k!=b->k) return false;
    if (a->op==Op::Lin) { if (a->lin->c0!=b->lin->c0) return false; return a->lin->v==b->lin->v; }
    return true; } };
  std::unordered_set<T,H,E> tab;

  static size_t hmix(size_t h, size_t x) { return h*0x9E3779B97F4A7C15ull + x + (h>>29); }
  static size_t hq(const mpq_class& q) { return mpz_get_ui(q.get_num_mpz_t())*31 + mpz_get_ui(q.get_den_mpz_t()) + (mpz_sgn(q.get_num_mpz_t())<0?7:0); }
  T intern(Term& t) {
    size_t h = (size_t)t.op*1315423911u + t.width; h = hmix(h,t.u);
    for (T x : t.k) h = hmix(h, x->id);
    if (t.lin) { h = hmix(h, hq(t.lin->c0)); for (auto& p : t.lin->v) { h = hmix(h,p.first->id); h = hmix(h,hq(p.second)); } }
    t.hash = h;
    auto it = tab.find(&t);
    if (it != tab.end()) { return *it; }
    Term* n = new Term(t); if (t.lin) n->lin = new LinData(*t.lin);
    n->id = all.size(); all.push_back(n); enclose(n); n->nonneg = n->lo>=0||calcNonneg(n); if(n->nonneg&&n->lo<0) n->lo=0; tab.insert(n);
    return n;
  }
  T mk0(Op o) { Term t; t.op=o; return intern(t); }
  T mk(Op o, int w, std::vector<T> k, uint64_t u=0) { Term t; t.op=o; t.width=w; t.k=std::move(k); t.u=u; return intern(t); }
  T var(const std::string& name, char sort, int width, bool hasB=false, mpq_class lo=0, mpq_class hi=0) {
    auto it=varByName.find(name); if (it!=varByName.end()) return it->second;
    VarInfo vi; vi.name=name; vi.sort=sort; vi.width=width; if(hasB){vi.hasLo=vi.hasHi=true;vi.lo=lo;vi.hi=hi;}
    vars.push_back(vi);
    Term t; t.u=vars.size()-1; t.width=width; t.op = sort=='b'?Op::BVar: sort=='v'?Op::BvVar:Op::RVar;
    T a=intern(t); if (sort=='r') a=atom(a);
    varByName[name]=a; return a;
  }

  // ---------- reals ----------
  T mkLin(const mpq_class& c0, std::vector<std::pair<T,mpq_class>> v) {
    Term t; t.op=Op::Lin; LinData d; d.c0=c0; d.v=std::move(v); t.lin=&d; return intern(t);
  }
  T rc(const mpq_class& q) { return mkLin(q,{}); }
  T rd(double d) { mpq_class q(d); return rc(q); }
  T atom(T a) { return mkLin(0,{{a,mpq_class(1)}}); }
  static bool isC(T a) { return a->lin->v.empty(); }
  static const mpq_class& cv(T a) { return a->lin->c0; }
  // is this a single atom with coefficient 1 and no constant?
  static T single(T a) { if (a->lin->v.size()==1 && a->lin->c0==0 && a->lin->v[0].second==1) return a->lin->v[0].first; return nullptr; }
  T rlc(T a, const mpq_class& ka, T b, const mpq_class& kb) { // ka*a+kb*b
    std::vector<std::pair<T,mpq_class>> v; auto&x=a->lin->v; auto&y=b->lin->v; size_t i=0,j=0; v.reserve(x.size()+y.size());
    while (i<x.size()||j<y.size()) {
      if (j>=y.size() || (i<x.size() && x[i].first->id<y[j].first->id)) { v.push_back({x[i].first, x[i].second*ka}); i++; }
      else if (i>=x.size() || y[j].first->id<x[i].first->id) { v.push_back({y[j].first,y[j].second*kb}); j++; }
      else { mpq_class s=x[i].second*ka+y[j].second*kb; if (s!=0) v.push_back({x[i].first,s}); i++;j++; }
    }
    return mkLin(a->lin->c0*ka+b->lin->c0*kb, std::move(v));
  }
  T radd(T a,T b){ return rlc(a,1,b,1);} T rsub(T a,T b){ return rlc(a,1,b,-1);}
  T rscale(T a,const mpq_class&k){ if(k==0) return rc(0); if(k==1) return a; std::vector<std::pair<T,mpq_class>> v=a->lin->v; for(auto&p:v)p.second*=k; return mkLin(a->lin->c0*k,std::move(v)); }
  T rneg(T a){return rscale(a,-1);}
  mpq_class lead(T a){ return a->lin->v.empty()? a->lin->c0 : a->lin->v[0].second; }
  T rmul(T a,T b){
    if (isC(a)) return rscale(b,cv(a)); if (isC(b)) return rscale(a,cv(b));
    // distribute over ite of which one branch is constant? keep simple
    mpq_class ca=lead(a), cb=lead(b);
    T pa=rscale(a,1/ca), pb=rscale(b,1/cb); mpq_class c=ca*cb;
    std::vector<T> f;
    auto addf=[&](T p){ T s=single(p); if (s && s->op==Op::RMul) { for(T x:s->k) f.push_back(x);} else f.push_back(p); };
    addf(pa); addf(pb);
    std::sort(f.begin(),f.end(),[](T x,T y){return x->id<y->id;});
    // sqrt(x)*sqrt(x) -> x
    for (size_t i=0;i+1<f.size();i++) if (f[i]==f[i+1]) { T s=single(f[i]); if (s&&s->op==Op::RSqrt) { T x=s->k[0]; f.erase(f.begin()+i,f.begin()+i+2); T r=rscale(x,c); for(T y:f) r=rmul(r,y); return r; } }
    T m=mk(Op::RMul,0,f); return rscale(atom(m),c);
  }
  T rsqrt(T a){ // caller guarantees a>=0
    if (isC(a)) { mpq_class q=cv(a); if (q>=0 && mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) { mpz_class n,d; mpz_sqrt(n.get_mpz_t(),q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),q.get_den_mpz_t()); mpq_class r(n,d); r.canonicalize(); return rc(r);} }
    // factor out perfect-square content of the leading coefficient
    mpq_class l=lead(a); mpq_class al=abs(l); mpq_class out=1;
    if (mpz_perfect_square_p(al.get_num_mpz_t()) && mpz_perfect_square_p(al.get_den_mpz_t()) && al!=0) { mpz_class n,d; mpz_sqrt(n.get_mpz_t(),al.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),al.get_den_mpz_t()); out=mpq_class(n,d); out.canonicalize(); a=rscale(a,1/al);}    
    T s=single(a); if (s && s->op==Op::RMul && s->k.size()==2 && s->k[0]==s->k[1] && s->k[0]->nonneg) return rscale(s->k[0],out);
    return rscale(atom(mk(Op::RSqrt,0,{a})),out);
  }
  T rdiv(T a,T b){ if (isC(b)) return rscale(a,1/cv(b)); if (isC(a)&&cv(a)==0) return a; if (a==b) return rc(1);
    mpq_class ca=lead(a), cb=lead(b); T p=rscale(a,1/ca), q=rscale(b,1/cb), d=mk(Op::RDiv,0,{p,q});
    // the distance of two of the values among which the divisor is the largest distance
    if(d->hi==HUGE_VAL&&q->lin->c0==0&&q->lin->v.size()==2&&q->lin->v[0].second==-q->lin->v[1].second){ T x=q->lin->v[0].first,y=q->lin->v[1].first; if(((x->op==Op::RMin&&y->op==Op::RMax)||(x->op==Op::RMax&&y->op==Op::RMin))&&x->k==y->k){
      T m=atom(x->op==Op::RMin?x:y), M=atom(x->op==Op::RMin?y:x); bool flip= x->op==Op::RMin ? q->lin->v[0].second>0 : q->lin->v[0].second<0; int sg=0;
      for(size_t i=0;i<=x->k.size()&&!sg;i++){ T e= i<x->k.size()?x->k[i]:M; if(p==rsub(e,m)||p==rsub(M,e)) sg=1; else if(p==rsub(m,e)||p==rsub(e,M)) sg=-1; }
      if(flip) sg=-sg; if(sg){ Term*t=(Term*)d; t->lo=sg>0?0:-1; t->hi=sg>0?1:0; if(sg>0) t->nonneg=true; } } }
    return rscale(atom(d),ca/cb); }
  T rfloor(T a){ if(isC(a)){ mpz_class z; mpz_fdiv_q(z.get_mpz_t(),cv(a).get_num_mpz_t(),cv(a).get_den_mpz_t()); return rc(mpq_class(z)); } return atom(mk(Op::RFloor,0,{a})); }
  T bv2r(T b,bool sgn){ return atom(mk(Op::RBv2R,0,{b},sgn)); }
  T rminmax(bool mn, T a, T b){
    { T x,y; if(sqrtPair(a,b,x,y)) return rsqrt(rminmax(mn,x,y)); }
    Op o=mn?Op::RMin:Op::RMax; std::vector<T> s; auto add=[&](T x){ T y=single(x); if (y&&y->op==o) s.insert(s.end(),y->k.begin(),y->k.end()); else s.push_back(x);};
    add(a);add(b); std::sort(s.begin(),s.end(),[](T x,T y){return x->id<y->id;}); s.erase(std::unique(s.begin(),s.end()),s.end());
    // constant-difference pruning
    for(size_t i=0;i<s.size();i++) for(size_t j=0;j<s.size();j++) if(i!=j){ T d=rsub(s[i],s[j]); bool drop=false; if(isC(d)) drop = mn? cv(d)>=0 : cv(d)<=0; else if (mn? d->nonneg : (d->hi<=0||rneg(d)->nonneg)) drop=true; if (drop){ s.erase(s.begin()+i); i=(size_t)-1; break; } }
    if (s.size()==1) return s[0];
    return atom(mk(o,0,s));
  }
  // k*sqrt(x) or a constant, as the square root of something
  bool sqrtForm(T t,T&x,bool&c){ c=false; if(isC(t)){ if(cv(t)<0) return false; x=rc(cv(t)*cv(t)); c=true; return true; } if(t->lin->c0!=0||t->lin->v.size()!=1) return false; auto&p=t->lin->v[0]; if(p.first->op!=Op::RSqrt||p.second<0) return false; x=rscale(p.first->k[0],p.second*p.second); return true; }
  bool sqrtPair(T a,T b,T&x,T&y){ bool c,d; return sqrtForm(a,x,c)&&sqrtForm(b,y,d)&&!(c&&d); }
  static bool hasIte(T m){ for(auto&p:m->lin->v) if(p.first->op==Op::RIte) return true; return false; }
  T rite(T c,T a,T b){
    if (c==tTrue||a==b) return a; if (c==tFalse) return b;
    if (c->op==Op::Not) return rite(c->k[0],b,a);
    { T x,y; if(sqrtPair(a,b,x,y)) return rsqrt(rite(c,x,y)); }
    if (c->op==Op::RLt0||c->op==Op::RLe0) {
      T d=rsub(a,b); if (!isC(d)) { mpq_class l=abs(lead(d)); T n=rscale(d,1/l); if (n==c->k[0]) return rminmax(true,a,b); if (rneg(n)==c->k[0]) return rminmax(false,a,b);} 
    }
    // ite(/\ a<s_i, a, min(s..)) -> min
    { T sb=single(b), sa=single(a);
      if (c->op==Op::And && sb && sb->op==Op::RMin && coversAll(c->k,a,sb->k,true)) return rminmax(true,a,b);
      T nc=bnot(c); if (nc->op==Op::And && sa && sa->op==Op::RMin && coversAll(nc->k,b,sa->k,true)) return rminmax(true,a,b);
      if (nc->op==Op::Or||c->op==Op::Or) {}
    }
    // ite(x<y, min(x,m), min(y,m)) = min(x,y,m)
    if (c->op==Op::RLt0||c->op==Op::RLe0) { T sa=single(a), sb=single(b); if (sa&&sb&&sa->op==sb->op&&(sa->op==Op::RMin||sa->op==Op::RMax)&&sa->k.size()==sb->k.size()) {
      T x=nullptr,y=nullptr; int dx=0,dy=0; for(T q:sa->k) if(std::find(sb->k.begin(),sb->k.end(),q)==sb->k.end()){ x=q; dx++; } for(T q:sb->k) if(std::find(sa->k.begin(),sa->k.end(),q)==sa->k.end()){ y=q; dy++; }
      if (dx==1&&dy==1) { T m=rite(c,x,y); T sm=single(m); if(!(sm&&sm->op==Op::RIte)&&!(!sm&&m->lin->v.size()&&hasIte(m))) { bool mn=sa->op==Op::RMin; for(T q:sa->k) if(q!=x) m=rminmax(mn,m,q); return m; } } } }
    // ite(x<min(S), max(A), max(A,x)) = max(A,x) if S and A have a value in common (and the like)
    if (c->op==Op::RLt0||c->op==Op::RLe0) { T m[2]={single(a),single(b)}; if(m[0]&&m[1]) for(int e=0;e<2;e++) { T X=m[e], B=m[1-e]; if(X->op!=Op::RMin&&X->op!=Op::RMax) continue; std::vector<T> A; if(B->op==X->op) A=B->k; else A={e?a:b};
      if(A.size()+1!=X->k.size()) continue; T x=nullptr; bool sub=true; for(T q:A) if(std::find(X->k.begin(),X->k.end(),q)==X->k.end()) sub=false; if(!sub) continue; for(T q:X->k) if(std::find(A.begin(),A.end(),q)==A.end()) x=q;
      T w= e==1? c->k[0] : rneg(c->k[0]); bool mx=X->op==Op::RMax; T y= mx? rsub(x,w) : radd(x,w); // w<=0 where the shorter one is taken: x<=y, or y<=x
      T sy=single(y); bool ok=std::find(A.begin(),A.end(),y)!=A.end(); if(!ok&&sy&&sy->op==(mx?Op::RMin:Op::RMax)) for(T q:sy->k) if(std::find(A.begin(),A.end(),q)!=A.end()) ok=true;
      if(ok) return e?b:a; } }
    // nested ite with same condition
    { T sa=single(a); if (sa&&sa->op==Op::RIte&&sa->k[0]==c) a=sa->k[1]; T sb=single(b); if (sb&&sb->op==Op::RIte&&sb->k[0]==c) b=sb->k[2]; if(a==b) return a; }
    // common summands move outside: ite(c,x+y,x) = x + ite(c,y,0)
    { auto&x=a->lin->v,&y=b->lin->v; std::vector<std::pair<T,mpq_class>> co; size_t i=0,j=0; while(i<x.size()&&j<y.size()){ if(x[i].first==y[j].first){ if(x[i].second==y[j].second) co.push_back(x[i]); i++; j++; } else if(x[i].first->id<y[j].first->id) i++; else j++; }
      mpq_class c0= a->lin->c0==b->lin->c0? a->lin->c0 : mpq_class(0);
      if(!co.empty()||c0!=0){ T m=mkLin(c0,co); return radd(m,rite(c,rsub(a,m),rsub(b,m))); } }
    return atom(mk(Op::RIte,0,{c,a,b}));
  }
  bool coversAll(const std::vector<T>& conj, T a, const std::vector<T>& S, bool mn){
    for (T s:S) { T d= mn? rsub(a,s):rsub(s,a); if (isC(d)) return false; mpq_class l=abs(lead(d)); T n=rscale(d,1/l); bool f=false; for(T c:conj) if((c->op==Op::RLt0||c->op==Op::RLe0)&&c->k[0]==n){f=true;break;} if(!f) return false; }
    // no extra conjuncts allowed
    return conj.size()==S.size();
  }
  static double dn(double x){ return std::nextafter(x,-HUGE_VAL); } static double up(double x){ return std::nextafter(x,HUGE_VAL); }
  static void mul(double al,double ah,double bl,double bh,double&l,double&h){ auto m=[](double x,double y){ return x==0||y==0?0.0:x*y; }; double p[4]={m(al,bl),m(al,bh),m(ah,bl),m(ah,bh)}; l=h=p[0]; for(int i=1;i<4;i++){ l=std::min(l,p[i]); h=std::max(h,p[i]); } l=dn(l); h=up(h); }
  void enclose(Term*n){ auto&k=n->k;
    switch(n->op){
      case Op::RVar: if(vars[n->u].hasLo) n->lo=dn(vars[n->u].lo.get_d()); if(vars[n->u].hasHi) n->hi=up(vars[n->u].hi.get_d()); if(vars[n->u].hasLo&&vars[n->u].lo>=0&&n->lo<0) n->lo=0; break;
      case Op::Lin: { double c=n->lin->c0.get_d(); double l=n->lin->c0==c?c:dn(c),h=n->lin->c0==c?c:up(c); for(auto&p:n->lin->v){ double q=p.second.get_d(),a,b; bool ex=p.second==q; mul(ex?q:dn(q),ex?q:up(q),p.first->lo,p.first->hi,a,b); if(ex&&(q==1)){ a=p.first->lo; b=p.first->hi; } if(p.first->lo==0&&p.second>0) a=0; if(p.first->lo==0&&p.second<0) b=0; l= l==0?a:a==0?l:dn(l+a); h= h==0?b:b==0?h:up(h+b); } n->lo=l; n->hi=h; if(l!=l) n->lo=-HUGE_VAL; if(h!=h) n->hi=HUGE_VAL; break; }
      case Op::RMul: { double l=1,h=1; size_t i=0; while(i<k.size()){ double a=k[i]->lo,b=k[i]->hi; if(i+1<k.size()&&k[i]==k[i+1]){ double m=std::max(std::fabs(a),std::fabs(b)), z= a<=0&&b>=0?0:std::min(std::fabs(a),std::fabs(b)); a= z==0?0:dn(z*z); b=up(m*m); i+=2; if(a<0) a=0; } else i++; double x,y; mul(l,h,a,b,x,y); if(l>=0&&a>=0&&x<0) x=0; l=x; h=y; } n->lo=l; n->hi=h; break; }
      case Op::RIte: n->lo=std::min(k[1]->lo,k[2]->lo); n->hi=std::max(k[1]->hi,k[2]->hi); break;
      case Op::RMin: n->lo=k[0]->lo; n->hi=k[0]->hi; for(T x:k){ n->lo=std::min(n->lo,x->lo); n->hi=std::min(n->hi,x->hi); } break;
      case Op::RMax: n->lo=k[0]->lo; n->hi=k[0]->hi; for(T x:k){ n->lo=std::max(n->lo,x->lo); n->hi=std::max(n->hi,x->hi); } break;
      case Op::RSqrt: n->lo= k[0]->lo>0?std::max(0.0,dn(std::sqrt(k[0]->lo))):0; n->hi= k[0]->hi>=0?up(std::sqrt(k[0]->hi)):HUGE_VAL; break;
      case Op::RFloor: n->lo=std::floor(k[0]->lo); n->hi=std::floor(k[0]->hi); break;
      default: break; } }
  bool calcNonneg(Term* n){
    switch(n->op){
      case Op::RVar: return vars[n->u].hasLo && vars[n->u].lo>=0;
      case Op::RSqrt: return true;
      case Op::RMul: { auto&k=n->k; size_t i=0; while(i<k.size()){ if(i+1<k.size()&&k[i]==k[i+1]) i+=2; else { if(!k[i]->nonneg) return false; i++; } } return true; }
      case Op::RIte: return n->k[1]->nonneg&&n->k[2]->nonneg;
      case Op::RMin: for(T x:n->k) if(!x->nonneg) return false; return true;
      case Op::RMax: for(T x:n->k) if(x->nonneg) return true; return false;
      case Op::RDiv: return n->k[0]->nonneg&&n->k[1]->nonneg;
      case Op::RFloor: return n->k[0]->nonneg;
      case Op::RBv2R: return !n->u;
      case Op::Lin: { if (n->lin->c0<0) return false; for(auto&p:n->lin->v) if (p.second<0||!p.first->nonneg) return false; return true; }
      default: return false;
    }
  }
  // comparison t<0 / t<=0 / t==0
  T rlt0(T t, bool orEq){
    if (isC(t)) { bool r= orEq? cv(t)<=0 : cv(t)<0; return r?tTrue:tFalse; }
    if (t->hi<0||(orEq&&t->hi<=0)) return tTrue; if (t->lo>0||(!orEq&&t->lo>=0)) return tFalse;
    mpq_class l=abs(lead(t)); if (l!=1) t=rscale(t,1/l);
    T nt=nullptr;
    if (t->nonneg) { if(!orEq) return tFalse; }
    else { nt=rneg(t); if (nt->nonneg) { if (orEq) return tTrue; } }
    // sqrt elimination
    auto&v=t->lin->v; const mpq_class&c=t->lin->c0;
    int ns=0; size_t si=0; for(size_t i=0;i<v.size();i++) if(v[i].first->op==Op::RSqrt){ns++;si=i;}
    if (ns==2 && v.size()==2 && c==0) {
      mpq_class k1=v[0].second,k2=v[1].second; T x1=v[0].first->k[0],x2=v[1].first->k[0];
      if (k1>0&&k2<0) return rlt0(rlc(x1,k1*k1,x2,-(k2*k2)),orEq);
      if (k1<0&&k2>0) return rlt0(rlc(x2,k2*k2,x1,-(k1*k1)),orEq);
    }
    if (ns==1) {
      mpq_class k=v[si].second; T x=v[si].first->k[0]; T rest=rlc(t,1,atom(v[si].first),-k); // t = k*sqrt(x)+rest
      if (k>0) { T d=rneg(rest); // k sqrt x < d
        if (d->nonneg) return rlt0(rlc(x,k*k,rmul(d,d),-1),orEq);
      } else { // rest < |k| sqrt x
        if (rest->nonneg) return rlt0(rlc(rmul(rest,rest),1,x,-(k*k)),orEq);
      }
    }
    // a single nonneg atom against zero: x<=0 <=> x==0
    if (orEq && t->nonneg) return req0(t);
    if (!orEq && nt && nt->nonneg) return bnot(req0(nt));
    // single even square vs constant handled by solver
    return mk(orEq?Op::RLe0:Op::RLt0,0,{t});
  }
  T rlt(T a,T b){ return rlt0(rsub(a,b),false);} T rle(T a,T b){ return rlt0(rsub(a,b),true);} 
  T req0(T t){ if(isC(t)) return cv(t)==0?tTrue:tFalse; mpq_class l=lead(t); if(l!=1) t=rscale(t,1/l);
    auto&v=t->lin->v; 
    if (t->lin->c0==0 && v.size()==1 && v[0].first->op==Op::RSqrt) return req0(v[0].first->k[0]);
    if (t->lin->c0==0 && v.size()==1 && v[0].first->op==Op::RMul) { std::vector<T> o; for(T f:v[0].first->k) o.push_back(req0(f)); return bor(o); }
    if (t->lin->c0==0 && v.size()==2 && v[0].first->op==Op::RSqrt && v[1].first->op==Op::RSqrt && v[1].second<0) return req0(rlc(v[0].first->k[0],1,v[1].first->k[0],-(v[1].second*v[1].second)));
    return mk(Op::REq0,0,{t}); }
  T req(T a,T b){ return req0(rsub(a,b)); }

  // ---------- booleans ----------
  std::vector<T> notMemo; // by id
  T bnot(T a){
    if(a->id<notMemo.size()&&notMemo[a->id]) return notMemo[a->id];
    T r=bnot0(a); size_t need=std::max(a->id,r->id)+1; if(notMemo.size()<need) notMemo.resize(need*2,nullptr);
    notMemo[a->id]=r; if(!notMemo[r->id]) notMemo[r->id]=a; return r; }
  T bnot0(T a){
    switch(a->op){ case Op::True: return tFalse; case Op::False: return tTrue; case Op::Not: return a->k[0];
      case Op::RLt0: return rlt0(rneg(a->k[0]),true); case Op::RLe0: return rlt0(rneg(a->k[0]),false);
      case Op::And: { std::vector<T> o; for(T x:a->k) o.push_back(bnot(x)); return bor(o);} 
      case Op::Or: { std::vector<T> o; for(T x:a->k) o.push_back(bnot(x)); return band(o);} 
      default: return mk(Op::Not,0,{a}); }
  }
  static bool has(const std::vector<T>& v, T x){ for(T y:v) if(y==x) return true; return false; }
  std::unordered_map<std::string,T> naryMemo;
  static bool cmp0(T a){ return a->op==Op::RLt0||a->op==Op::RLe0; }
  static bool minMaxInside(T n){ for(auto&p:n->lin->v) if(p.first->op==Op::RMin||p.first->op==Op::RMax) return true; return false; }
  // d = c*(min(S)-max(A)), c>0, with a value in common (a lone value counts as its own least and largest): never positive
  bool minLeMax(T d){ if(isC(d)) return cv(d)<=0; if(d->lin->c0!=0||d->lin->v.size()!=2||d->lin->v[0].second!=-d->lin->v[1].second) return false; T lo=d->lin->v[0].first, hi=d->lin->v[1].first; if(d->lin->v[0].second<0) std::swap(lo,hi);
    std::vector<T> L,H; if(lo->op==Op::RMin) L=lo->k; else L={atom(lo)}; if(hi->op==Op::RMax) H=hi->k; else H={atom(hi)}; if(L.size()+H.size()<3) return false; for(T q:L) if(std::find(H.begin(),H.end(),q)!=H.end()) return true; return false; }
  T nary(Op o, std::vector<T> in){
    if(in.size()>64) return nary0(o,std::move(in));
    std::vector<uint32_t> ids; ids.reserve(in.size()+1); for(T x:in) ids.push_back(x->id); std::sort(ids.begin(),ids.end()); ids.push_back(o==Op::And); std::string key((const char*)ids.data(),ids.size()*4);
    auto it=naryMemo.find(key); if(it!=naryMemo.end()) return it->second; T r=nary0(o,std::move(in)); naryMemo.emplace(std::move(key),r); return r; }
  T nary0(Op o, std::vector<T> in){
    Op dual = o==Op::And?Op::Or:Op::And; T unit= o==Op::And?tTrue:tFalse, zero= o==Op::And?tFalse:tTrue;
    std::vector<T> v; for(T x:in){ if(x==unit) continue; if(x==zero) return zero; if(x->op==o) v.insert(v.end(),x->k.begin(),x->k.end()); else v.push_back(x);} 
    for(int round=0;round<3;round++){
      std::sort(v.begin(),v.end(),[](T x,T y){return x->id<y->id;}); v.erase(std::unique(v.begin(),v.end()),v.end());
      if (v.size()>400) break;
      bool ch=false;
      std::unordered_set<T> S(v.begin(),v.end());
      for(T x:v) { if (x->op!=dual && S.count(bnot(x))) return zero; }
      std::vector<T> w; 
      for(T x:v){ if (x->op==dual && x->k.size()<=64){ bool absorb=false; std::vector<T> r; for(T y:x->k){ if(S.count(y)){absorb=true;break;} if(S.count(bnot(y))) continue; r.push_back(y);} if(absorb){ch=true;continue;} if(r.size()!=x->k.size()){ ch=true; T nx=nary(dual,r); if(nx==zero) return zero; if(nx==unit) continue; if(nx->op==o) w.insert(w.end(),nx->k.begin(),nx->k.end()); else w.push_back(nx); continue; } } w.push_back(x);} 
      v=w; if(!ch) break;
    }
    // comparisons with the least and the largest of values in common imply or exclude each other
    if(v.size()>1&&v.size()<=8) for(size_t i=0;i<v.size();i++) for(size_t j=0;j<v.size();j++) if(i!=j&&v[i]&&v[j]&&cmp0(v[i])&&cmp0(v[j])&&minMaxInside(v[i]->k[0])&&minMaxInside(v[j]->k[0])){
      T n=v[i]->k[0],m=v[j]->k[0]; bool sn=v[i]->op==Op::RLt0, sm=v[j]->op==Op::RLt0;
      if((sn||!sm)&&minLeMax(rsub(m,n))){ v[o==Op::And?j:i]=nullptr; continue; } // v[i] implies v[j]
      if(i<j){ T q=radd(n,m); if(o==Op::And? (sn||sm)&&minLeMax(rneg(q)) : (!sn||!sm)&&minLeMax(q)) return zero; } }
    v.erase(std::remove(v.begin(),v.end(),(T)nullptr),v.end());
    std::sort(v.begin(),v.end(),[](T x,T y){return x->id<y->id;}); v.erase(std::unique(v.begin(),v.end()),v.end());
    if(v.empty()) return unit; if(v.size()==1) return v[0];
    return mk(o,0,v);
  }
  T band(std::vector<T> v){ return nary(Op::And,std::move(v)); }
  T bor(std::vector<T> v){ return nary(Op::Or,std::move(v)); }
  T band(T a,T b){ return band(std::vector<T>{a,b}); } T bor(T a,T b){ return bor(std::vector<T>{a,b}); }
  T bite(T c,T a,T b){ if(c==tTrue||a==b) return a; if(c==tFalse) return b; return bor(band(c,a),band(bnot(c),b)); }
  T bxor(T a,T b){ return bite(a,bnot(b),b); }

  // ---------- bit-vectors ----------
  static uint64_t mask(int w){ return w>=64?~0ull:((1ull<<w)-1); }
  static int64_t sx(uint64_t v,int w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); return (int64_t)((v^m)-m); }
  T bvc(uint64_t v,int w){ return mk(Op::BvConst,w,{},v&mask(w)); }
  static bool isK(T a){ return a->op==Op::BvConst; }
  // ite tree with only constant leaves?
  bool iteK(T a,int depth=0){ if(isK(a)) return true; if(a->op!=Op::BvIte||depth>24) return false; return iteK(a->k[1],depth+1)&&iteK(a->k[2],depth+1); }
  T bvite(T c,T a,T b){ if(c==tTrue||a==b) return a; if(c==tFalse) return b; if(c->op==Op::Not) return bvite(c->k[0],b,a);
    if (a->op==Op::BvIte&&a->k[0]==c) a=a->k[1]; if(b->op==Op::BvIte&&b->k[0]==c) b=b->k[2]; if(a==b) return a;
    if (b->op==Op::BvIte && b->k[1]==a) return bvite(bor(c,b->k[0]),a,b->k[2]);
    if (b->op==Op::BvIte && b->k[2]==a) return bvite(bor(c,bnot(b->k[0])),a,b->k[1]);
    if (a->op==Op::BvIte && a->k[2]==b) return bvite(band(c,a->k[0]),a->k[1],b);
    if (a->op==Op::BvIte && a->k[1]==b) return bvite(band(c,bnot(a->k[0])),a->k[2],b);
    return mk(Op::BvIte,a->width,{c,a,b}); }
  // map over const leaves
  template<class F> T mapK(T a,F f){ if(isK(a)) return f(a->u); return bvite(a->k[0],mapK(a->k[1],f),mapK(a->k[2],f)); }
  template<class F> T mapKb(T a,F f){ if(isK(a)) return f(a->u)?tTrue:tFalse; return bite(a->k[0],mapKb(a->k[1],f),mapKb(a->k[2],f)); }
  static bool evalBin(Op o,uint64_t a,uint64_t b,int w,uint64_t&r){
    uint64_t m=mask(w); switch(o){
      case Op::BvAdd: r=a+b;break; case Op::BvSub: r=a-b;break; case Op::BvMul: r=a*b;break;
      case Op::BvUDiv: if(!b) return false; r=a/b;break; case Op::BvURem: if(!b) return false; r=a%b;break;
      case Op::BvSDiv: { if(!b) return false; int64_t x=sx(a,w),y=sx(b,w); if(y==-1) r=-(uint64_t)x; else r=x/y; break;} 
      case Op::BvSRem: { if(!b) return false; int64_t x=sx(a,w),y=sx(b,w); if(y==-1) r=0; else r=x%y; break;} 
      case Op::BvShl: r= b>=(uint64_t)w?0:a<<b;break; case Op::BvLShr: r= b>=(uint64_t)w?0:(a&m)>>b;break;
      case Op::BvAShr: { int64_t x=sx(a,w); r= b>=(uint64_t)w?(x<0?~0ull:0):(uint64_t)(x>>b);break;} 
      case Op::BvAnd: r=a&b;break; case Op::BvOr: r=a|b;break; case Op::BvXor: r=a^b;break; default: return false; }
    r&=m; return true; }
  T bvbin(Op o,T a,T b){
    int w=a->width; uint64_t r;
    if(isK(a)&&isK(b)) { if(evalBin(o,a->u,b->u,w,r)) return bvc(r,w); }
    if (isK(b)) { if (b->u==0 && (o==Op::BvAdd||o==Op::BvSub||o==Op::BvShl||o==Op::BvLShr||o==Op::BvAShr||o==Op::BvOr||o==Op::BvXor)) return a; if (b->u==1&&(o==Op::BvMul||o==Op::BvUDiv||o==Op::BvSDiv)) return a; if (b->u==0&&(o==Op::BvMul||o==Op::BvAnd)) return b; if(b->u==mask(w)&&o==Op::BvAnd) return a; }
    if (isK(a)) { if (a->u==0 && (o==Op::BvAdd||o==Op::BvOr||o==Op::BvXor)) return b; if (a->u==1&&o==Op::BvMul) return b; if(a->u==0&&(o==Op::BvMul||o==Op::BvAnd)) return a; }
    bool okdiv = !(o==Op::BvUDiv||o==Op::BvSDiv||o==Op::BvURem||o==Op::BvSRem);
    if (isK(b)&&a->op==Op::BvIte&&iteK(a)&&(okdiv||b->u)) return mapK(a,[&](uint64_t x){uint64_t q=0;evalBin(o,x,b->u,w,q);return bvc(q,w);});
    if (okdiv&&isK(a)&&b->op==Op::BvIte&&iteK(b)) return mapK(b,[&](uint64_t x){uint64_t q=0;evalBin(o,a->u,x,w,q);return bvc(q,w);});
    if (okdiv&&a->op==Op::BvIte&&b->op==Op::BvIte&&iteK(a)&&iteK(b)) return mapK(a,[&](uint64_t x){ return mapK(b,[&](uint64_t y){uint64_t q=0;evalBin(o,x,y,w,q);return bvc(q,w);});});
    if (o==Op::BvSub&&a==b) return bvc(0,w);
    // (x + k1) + k2
    if (isK(b)&&o==Op::BvSub) return bvbin(Op::BvAdd,a,bvc(-b->u,w));
    if (o==Op::BvAdd&&isK(a)) std::swap(a,b);
    if (o==Op::BvAdd&&isK(b)&&a->op==Op::BvAdd&&isK(a->k[1])) return bvbin(Op::BvAdd,a->k[0],bvc(a->k[1]->u+b->u,w));
    return mk(o,w,{a,b});
  }
  T bveq(T a,T b){ if(a==b) return tTrue; if(isK(a)&&isK(b)) return tFalse; if(isK(a)) std::swap(a,b);
    if(isK(b)){ if(iteK(a)) return mapKb(a,[&](uint64_t x){return x==b->u;}); if(a->op==Op::BvIte&&(isK(a->k[1])||isK(a->k[2]))) return bite(a->k[0],bveq(a->k[1],b),bveq(a->k[2],b));
      if(a->op==Op::BvZext){ if(b->u>mask(a->k[0]->width)) return tFalse; return bveq(a->k[0],bvc(b->u,a->k[0]->width)); }
      if(a->op==Op::BvSext){ uint64_t lo=b->u&mask(a->k[0]->width); if((uint64_t)(sx(lo,a->k[0]->width)&mask(a->width))!=b->u) return tFalse; return bveq(a->k[0],bvc(lo,a->k[0]->width)); }
      if(a->op==Op::BvAdd&&isK(a->k[1])) return bveq(a->k[0],bvc(b->u-a->k[1]->u,a->width)); }
    else if (iteK(a)&&iteK(b)) return mapKbT(a,[&](uint64_t x){ return mapKb(b,[&](uint64_t y){return x==y;}); });
    if(a->id>b->id) std::swap(a,b); return mk(Op::BvEq,0,{a,b}); }
  template<class F> T mapKbT(T a,F f){ if(isK(a)) return f(a->u); return bite(a->k[0],mapKbT(a->k[1],f),mapKbT(a->k[2],f)); }
  T bvlt(bool s,T a,T b){ if(a==b) return tFalse; int w=a->width; auto ev=[&](uint64_t x,uint64_t y){ return s? sx(x,w)<sx(y,w): x<y; };
    if(isK(a)&&isK(b)) return ev(a->u,b->u)?tTrue:tFalse;
    if(isK(b)&&iteK(a)) return mapKb(a,[&](uint64_t x){return ev(x,b->u);}); if(isK(a)&&iteK(b)) return mapKb(b,[&](uint64_t x){return ev(a->u,x);});
    if(iteK(a)&&iteK(b)) return mapKbT(a,[&](uint64_t x){ return mapKb(b,[&](uint64_t y){return ev(x,y);}); });
    if(!s&&isK(b)&&b->u==0) return tFalse;
    if (s&&a->op==Op::BvSext&&b->op==Op::BvSext&&a->k[0]->width==b->k[0]->width) return bvlt(true,a->k[0],b->k[0]);
    return mk(s?Op::BvSlt:Op::BvUlt,0,{a,b}); }
  T bvle(bool s,T a,T b){ return bnot(bvlt(s,b,a)); }
  T zext(T a,int w){ if(a->width==w) return a; if(isK(a)) return bvc(a->u,w); if(iteK(a)) return mapK(a,[&](uint64_t x){return bvc(x,w);}); return mk(Op::BvZext,w,{a}); }
  T sext(T a,int w){ if(a->width==w) return a; int ow=a->width; if(isK(a)) return bvc(sx(a->u,ow),w); if(iteK(a)) return mapK(a,[&](uint64_t x){return bvc(sx(x,ow),w);}); return mk(Op::BvSext,w,{a}); }
  T extract(T a,int lo,int w){ if(lo==0&&w==a->width) return a; if(isK(a)) return bvc(a->u>>lo,w); if(iteK(a)) return mapK(a,[&](uint64_t x){return bvc(x>>lo,w);});
    if((a->op==Op::BvZext||a->op==Op::BvSext)&&lo==0&&w<=a->k[0]->width) return extract(a->k[0],0,w);
    if(a->op==Op::BvZext&&lo>=a->k[0]->width) return bvc(0,w);
    if(a->op==Op::BvConcat){ int lw=a->k[1]->width; if(lo+w<=lw) return extract(a->k[1],lo,w); if(lo>=lw) return extract(a->k[0],lo-lw,w);} 
    if(a->op==Op::BvExtract) return extract(a->k[0],lo+a->u,w);
    return mk(Op::BvExtract,w,{a},lo); }
  T concat(T hi,T lo){ if(isK(hi)&&isK(lo)) return bvc((hi->u<<lo->width)|lo->u,hi->width+lo->width);
    if(isK(hi)&&hi->u==0) return zext(lo,hi->width+lo->width);
    if(hi->op==Op::BvExtract&&lo->op==Op::BvExtract&&hi->k[0]==lo->k[0]&&hi->u==lo->u+lo->width) return extract(hi->k[0],lo->u,hi->width+lo->width);
    return mk(Op::BvConcat,hi->width+lo->width,{hi,lo}); }
  T b2bv(T b,int w){ return bvite(b,bvc(1,w),bvc(0,w)); }

  // free variables (base vars) of a term
  void collectVars(T t, std::set<uint32_t>& out, std::unordered_set<uint32_t>& seen) const {
    if(!seen.insert(t->id).second) return;
    if(t->op==Op::RVar||t->op==Op::BvVar||t->op==Op::BVar) out.insert((uint32_t)t->u);
    for(T x:t->k) collectVars(x,out,seen);
    if(t->lin) for(auto&p:t->lin->v) collectVars(p.first,out,seen);
  }
  std::string str(T t,int d=0) const {
    if(d>12) return "...";
    static const char* n[]={"T","F","bvar","not","and","or","<0","<=0","==0","bveq","ult","slt","k","v","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","zext","sext","ext","cat","ite","lin","rv","*","rite","min","max","sqrt","div","floor","bv2r"};
    if(t->op==Op::RVar||t->op==Op::BvVar||t->op==Op::BVar) return vars[t->u].name;
    if(t->op==Op::BvConst) return std::to_string(t->u);
    if(t->op==Op::Lin){ std::string s="("; bool f=true; for(auto&p:t->lin->v){ if(!f)s+=" + "; f=false; if(p.second!=1) s+=p.second.get_str()+"*"; s+=str(p.first,d+1);} if(t->lin->c0!=0||f){ if(!f)s+=" + "; s+=t->lin->c0.get_str(); } return s+")"; }
    std::string s=std::string("[")+n[(int)t->op]; for(T x:t->k) s+=" "+str(x,d+1); return s+"]";
  }
};
