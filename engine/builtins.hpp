// included inside struct Engine: external functions and harness intrinsics
typedef std::function<bool(Engine&,State&,Ins&,Val&)> BI;   // returns true if control changed
vector<BI> bis; map<string,int> biByName; vector<std::pair<string,int>> biPrefix;
static T guardOf(const Val&v){ if(v.k==VReal) return v.g?v.g:TM.tFalse; if(v.k==VFP) return v.d==INFINITY?TM.tTrue:TM.tFalse; return TM.tFalse; }
string uniq(State&s,const string&n){ int k=s.counters[n]++; return n+"#"+std::to_string(k); }
static string q2s(double d){ char b[40]; snprintf(b,40,"%.17g",d); return b; }
void add(const string&n,BI f){ biByName[n]=bis.size(); bis.push_back(f); }
void addP(const string&n,BI f){ biPrefix.push_back({n,(int)bis.size()}); bis.push_back(f); }
bool biInit=false;
int findBuiltin(const Function*F){ if(!biInit){ biInit=true; initBuiltins(); } string n=F->getName().str(); auto it=biByName.find(n); if(it!=biByName.end()) return it->second; if(n.compare(0,5,"llvm.")==0||n.compare(0,4,"vsi_")==0){ for(auto&p:biPrefix) if(n.compare(0,p.first.size(),p.first)==0) return p.second; } return -1; }
bool callBuiltin(State&s,int nb,const Function*F,Ins&x,Val&r){ ctlPoint=false; return bis[nb](*this,s,x,r); }
string argStr(State&s,Ins&x,int i){ return cstr(s,concInt(s,x.o[i],"string pointer")); }
struct Tok { Val v; int prec; };
vector<Tok> toks;
void retAfterBuiltin(State&s,Ins&x){ if(x.op==Instruction::Invoke) gotoBlk(s,x.succ[0]); else s.st.back().ip++; }
void leakReport(State&s,const string&msg,int tag){ long n=0; uint32_t sz=0; for(size_t k=0;k<s.heap.c.size();k++) if(s.heap.c[k]) for(int j=0;j<CH;j++){ Obj*o=s.heap.c[k]->o[j].get(); if(o&&o->leakTag==tag&&o->kind!=OModel&&o->kind!=OExc){ n++; sz=o->size; } } if(n) violation(s,"leak",msg+": "+std::to_string(n)+" allocation(s) never released (e.g. "+std::to_string(sz)+" bytes)"); }
void initBuiltins(){
  #define B(name) add(name,[](Engine&E,State&s,Ins&x,Val&r)->bool
  #define P(name) addP(name,[](Engine&E,State&s,Ins&x,Val&r)->bool
  #define A(i) E.op(s,x.o[i])
  #define U(i) E.concInt(s,x.o[i])
  // ---- allocation ----
  B("malloc"){ r=vInt(E.heapAlloc(s,U(0),OMalloc,true),64); return false; });
  B("calloc"){ uint64_t n=U(0)*U(1); uint64_t a=E.heapAlloc(s,n,OMalloc,true); if(a) E.memFill(s,a,vInt(0,8),n); r=vInt(a,64); return false; });
  B("realloc"){ uint64_t p=U(0),n=U(1); uint64_t a=E.heapAlloc(s,n,OMalloc,true); if(p){ int64_t off; Obj*o=E.lookup(s,p,0,false,off,false); uint64_t m=std::min<uint64_t>(n,o->size); E.memCopy(s,a,p,m); E.heapFree(s,p,OMalloc);} r=vInt(a,64); return false; });
  B("free"){ E.heapFree(s,U(0),OMalloc); return false; });
  auto nw=[](OK k){ return [k](Engine&E,State&s,Ins&x,Val&r)->bool{ uint64_t n=U(0); if(n>(1u<<26)) { return E.throwModel(s,x,"vsm_throw_bad_alloc"); } r=vInt(E.heapAlloc(s,n,k,true),64); return false; }; };
  add("_Znwm",nw(ONew)); add("_Znam",nw(ONewArr)); add("_ZnwmRKSt9nothrow_t",nw(ONew)); add("_ZnamRKSt9nothrow_t",nw(ONewArr));
  auto dl=[](OK k){ return [k](Engine&E,State&s,Ins&x,Val&r)->bool{ E.heapFree(s,U(0),k); return false; }; };
  add("_ZdlPv",dl(ONew)); add("_ZdlPvm",dl(ONew)); add("_ZdaPv",dl(ONewArr)); add("_ZdaPvm",dl(ONewArr)); add("_ZdlPvRKSt9nothrow_t",dl(ONew));
  B("vs_model_alloc"){ r=vInt(E.heapAlloc(s,U(0),OModel,false),64); return false; });
  B("vs_model_free"){ E.heapFree(s,U(0),OModel); return false; });
  B("vs_leak_begin"){ s.leakTag=++E.leakTags; return false; });
  B("vs_leak_check"){ string m=E.argStr(s,x,0); int t=s.leakTag; s.leakTag=0; E.leakReport(s,m,t); return false; });
  // ---- memory ----
  auto mc=[](Engine&E,State&s,Ins&x,Val&r)->bool{ uint64_t n=U(2); if(n) { uint64_t d=U(0),q=U(1); E.memCopy(s,d,q,n);} r=A(0); return false; };
  add("memcpy",mc); add("memmove",mc); addP("llvm.memcpy",mc); addP("llvm.memmove",mc);
  auto ms=[](Engine&E,State&s,Ins&x,Val&r)->bool{ uint64_t n=U(2); Val v=A(1); if(v.k==VInt) v=vInt(v.u,8); else if(v.k==VBV) v=vBV(TM.extract(toBV(v),0,8)); if(n) E.memFill(s,U(0),v,n); r=A(0); return false; };
  add("memset",ms); addP("llvm.memset",ms);
  auto lt=[](Engine&E,State&s,Ins&x,Val&r)->bool{ Val p=A(1); if(p.k==VInt){ int rg; uint32_t idx; int64_t off; E.split(p.u,rg,idx,off); if(rg==RS&&s.stack.get(idx)&&off==0){ Obj*o=s.stack.mut(idx); std::fill(o->st.begin(),o->st.end(),0); std::fill(o->tag.begin(),o->tag.end(),0); o->cells.clear(); } } return false; };
  addP("llvm.lifetime.",lt); addP("vsi_undef_",[](Engine&E,State&s,Ins&x,Val&r)->bool{ r=Val(); return false; });
  auto nop=[](Engine&E,State&s,Ins&x,Val&r)->bool{ return false; };
  for(const char*n:{"llvm.dbg.","llvm.assume","llvm.experimental.noalias","llvm.donothing","llvm.stackrestore","llvm.prefetch","llvm.invariant","llvm.var.annotation","llvm.sideeffect"}) addP(n,nop);
  P("llvm.stacksave"){ r=vInt(0,64); return false; });
  P("llvm.trap"){ throw Violation{"trap","trap instruction reached"}; });
  P("llvm.ubsantrap"){ throw Violation{"trap","trap instruction reached"}; });
  P("llvm.expect"){ r=A(0); return false; });
  P("llvm.launder"){ r=A(0); return false; }); P("llvm.strip"){ r=A(0); return false; });
  P("llvm.objectsize"){ r=vInt(~0ull,x.w); return false; });
  P("llvm.is.constant"){ r=vInt(0,1); return false; });
  P("llvm.eh.typeid.for"){ r=vInt(E.tiId(U(0)),32); return false; });
  auto ovf=[](int o){ return [o](Engine&E,State&s,Ins&x,Val&r)->bool{ Val a=A(0),b=A(1); if(a.k!=VInt||b.k!=VInt){ U(0); U(1); } int w=a.w; __int128 p,q; bool sg=o>=3; p=sg?(__int128)Terms::sx(a.u,w):(__int128)a.u; q=sg?(__int128)Terms::sx(b.u,w):(__int128)b.u; __int128 z= o%3==0?p+q:o%3==1?p-q:p*q; uint64_t res=(uint64_t)z&Terms::mask(w); __int128 back=sg?(__int128)Terms::sx(res,w):(__int128)res; r=vAgg({vInt(res,w),vInt(back!=z,1)}); return false; }; };
  addP("llvm.uadd.with",ovf(0)); addP("llvm.usub.with",ovf(1)); addP("llvm.umul.with",ovf(2)); addP("llvm.sadd.with",ovf(3)); addP("llvm.ssub.with",ovf(4)); addP("llvm.smul.with",ovf(5));
  auto imm=[](int k){ return [k](Engine&E,State&s,Ins&x,Val&r)->bool{ Val a=A(0),b=A(1); if(a.k==VUndef||b.k==VUndef) return false; if(a.k==VInt&&b.k==VInt){ int64_t p=Terms::sx(a.u,a.w),q=Terms::sx(b.u,b.w); bool f= k==0?p<q:k==1?p>q:k==2?a.u<b.u:a.u>b.u; r=f?a:b; return false; } T p=toBV(a),q=toBV(b); T c= k==0?TM.bvlt(true,p,q):k==1?TM.bvlt(true,q,p):k==2?TM.bvlt(false,p,q):TM.bvlt(false,q,p); r=vBV(TM.bvite(c,p,q)); return false; }; };
  addP("llvm.smin",imm(0)); addP("llvm.smax",imm(1)); addP("llvm.umin",imm(2)); addP("llvm.umax",imm(3));
  auto iabs=[](Engine&E,State&s,Ins&x,Val&r)->bool{ Val a=A(0); if(a.k==VUndef) return false; if(a.k==VInt){ int64_t p=Terms::sx(a.u,a.w); r=vInt((uint64_t)(p<0?-p:p),a.w); return false; } T p=toBV(a); r=vBV(TM.bvite(TM.bvlt(true,p,TM.bvc(0,a.w)),TM.bvbin(Op::BvSub,TM.bvc(0,a.w),p),p)); return false; };
  addP("llvm.abs",iabs); add("abs",iabs); add("labs",iabs);
  auto cnt=[](int k){ return [k](Engine&E,State&s,Ins&x,Val&r)->bool{ uint64_t u=U(0); int w=x.w; int n=0; if(k==0){ for(int i=w-1;i>=0&&!((u>>i)&1);i--) n++; } else if(k==1){ for(int i=0;i<w&&!((u>>i)&1);i++) n++; } else n=__builtin_popcountll(u); r=vInt(n,w); return false; }; };
  addP("llvm.ctlz",cnt(0)); addP("llvm.cttz",cnt(1)); addP("llvm.ctpop",cnt(2));
  // ---- math ----
  auto fa=[](Engine&E,State&s,Ins&x,Val&r)->bool{ r=E.fabsV(A(0)); return false; };
  add("fabs",fa); add("fabsf",fa); addP("llvm.fabs",fa);
  auto sq=[](Engine&E,State&s,Ins&x,Val&r)->bool{ r=E.sqrtV(s,x.o[0]); return false; };
  add("sqrt",sq); add("sqrtf",sq); addP("llvm.sqrt",sq);
  auto pw=[](Engine&E,State&s,Ins&x,Val&r)->bool{ r=E.powV(s,x.o[0],x.o[1]); return false; };
  add("pow",pw); add("powf",pw); addP("llvm.pow.",pw);
  auto fm=[](bool mn){ return [mn](Engine&E,State&s,Ins&x,Val&r)->bool{ r=E.minmaxV(s,mn,A(0),A(1)); return false; }; };
  for(const char*n:{"fmin","fminf"}) add(n,fm(true)); for(const char*n:{"fmax","fmaxf"}) add(n,fm(false)); addP("llvm.minnum",fm(true)); addP("llvm.maxnum",fm(false));
  typedef double(*DF)(double);
  auto m1=[](DF f,char fl){ return [f,fl](Engine&E,State&s,Ins&x,Val&r)->bool{ Val a=A(0); if(a.k==VUndef) return false; if(a.k==VFP){ r=vFP(f(a.d),a.w); return false; } if(fl!='-'){ if(a.g) E.resolveGuard(x.o[0],a); T v=a.t, h=TM.rc(mpq_class(1,2)), q; auto up=[&](T y){ return TM.rneg(TM.rfloor(TM.rneg(y))); }; T neg=TM.rlt(v,TM.rc(0));
      if(fl=='f') q=TM.rfloor(v); else if(fl=='c') q=up(v); else if(fl=='t') q=TM.rite(neg,up(v),TM.rfloor(v)); else if(fl=='r') q=TM.rite(neg,up(TM.rsub(v,h)),TM.rfloor(TM.radd(v,h)));
      else { T y=TM.rfloor(TM.radd(v,h)); T tie=TM.band(TM.req(y,TM.radd(v,h)),TM.bnot(TM.req(TM.rscale(TM.rfloor(TM.rscale(y,mpq_class(1,2))),2),y))); q=TM.rite(tie,TM.rsub(y,TM.rc(1)),y); }
      r=vReal(q,nullptr,a.w); return false; } throw PathEnd{"engine: math function on symbolic value"}; }; };
  struct MF{ const char*n; DF f; char fl; }; for(MF q: {MF{"floor",::floor,'f'},MF{"ceil",::ceil,'c'},MF{"trunc",::trunc,'t'},MF{"round",::round,'r'},MF{"rint",::rint,'e'},MF{"nearbyint",::nearbyint,'e'},MF{"exp",::exp,'-'},MF{"log",::log,'-'},MF{"log10",::log10,'-'},MF{"sin",::sin,'-'},MF{"cos",::cos,'-'}}){ add(q.n,m1(q.f,q.fl)); add(string(q.n)+"f",m1(q.f,q.fl)); addP(string("llvm.")+q.n,m1(q.f,q.fl)); }
  B("fmod"){ r=E.fbin(s,x,Instruction::FRem,x.o[0],x.o[1],64); return false; });
  P("llvm.fmuladd"){ throw PathEnd{"engine: fmuladd"}; });
  P("llvm.is.fpclass"){ Val a=A(0); uint64_t m=U(1); if(a.k==VUndef) return false; if(a.k==VFP){ int c=std::isnan(a.d)?3:std::isinf(a.d)?(a.d<0?4:0x200):a.d==0?(std::signbit(a.d)?0x20:0x40):(a.d<0?0x18:0x180); r=vInt((m&c)!=0,1); return false; } bool inf=(m&0x200)!=0; uint64_t fin=m&0x1f8; if(fin==0x1f8) { r=vBool(inf?TM.tTrue:TM.bnot(gOr0(a.g))); return false; } if(fin==0){ r=vBool(inf?gOr0(a.g):TM.tFalse); return false; } throw PathEnd{"engine: is.fpclass"}; });
  P("llvm.copysign"){ Val a=A(0),b=A(1); if(a.k==VFP&&b.k==VFP){ r=vFP(std::copysign(a.d,b.d),a.w); return false; } throw PathEnd{"engine: copysign"}; });
  // ---- C++ runtime ----
  B("__cxa_allocate_exception"){ r=vInt(E.heapAlloc(s,U(0),OExc,false),64); return false; });
  B("__cxa_free_exception"){ E.heapFree(s,U(0),OExc); return false; });
  B("__cxa_throw"){ uint64_t o=U(0),t=U(1),d=U(2); s.exc[o]=ExcInfo{t,d,0}; E.ctlPoint=E.unwind(s,o); return true; });
  B("__cxa_begin_catch"){ uint64_t o=U(0); auto&e=s.exc[o]; e.handlers= e.handlers<0?-e.handlers+1:e.handlers+1; if(s.caught.empty()||s.caught.back()!=o) s.caught.push_back(o); r=vInt(o,64); return false; });
  B("__cxa_end_catch"){ if(s.caught.empty()) throw PathEnd{"engine: end_catch"}; uint64_t o=s.caught.back(); auto&e=s.exc[o]; if(e.handlers<0){ if(++e.handlers==0) s.caught.pop_back(); return false; } if(--e.handlers==0){ s.caught.pop_back(); uint64_t d=e.dtor; E.retAfterBuiltin(s,x); if(d&&E.addrFn.count(d)&&!E.addrFn[d]->isDeclaration()){ E.pushFrame(s,E.addrFn[d],{vInt(o,64)}); s.st.back().freeAfter=o; } else { s.exc.erase(o); E.heapFree(s,o,OExc); } return true; } return false; });
  B("__cxa_rethrow"){ if(s.caught.empty()) throw Violation{"terminate","rethrow without exception"}; uint64_t o=s.caught.back(); s.exc[o].handlers=-s.exc[o].handlers; E.ctlPoint=E.unwind(s,o); return true; });
  B("__cxa_get_exception_ptr"){ r=A(0); return false; });
  for(const char*n:{"__cxa_atexit","atexit","__cxa_thread_atexit"}) add(n,[](Engine&E,State&s,Ins&x,Val&r)->bool{ r=vInt(0,32); return false; });
  B("__cxa_guard_acquire"){ uint64_t a=U(0); Val v=E.loadTy(s,a,IntegerType::get(E.C,8)); r=vInt(v.u?0:1,32); return false; });
  B("__cxa_guard_release"){ E.storeTy(s,U(0),vInt(1,8),IntegerType::get(E.C,8)); return false; });
  add("__cxa_guard_abort",nop);
  B("__cxa_pure_virtual"){ throw Violation{"terminate","pure virtual call"}; });
  B("_ZSt9terminatev"){ throw Violation{"terminate","std::terminate called"}; });
  B("abort"){ throw Violation{"terminate","abort called"}; });
  B("__assert_fail"){ throw Violation{"terminate","assert failed: "+E.argStr(s,x,0)}; });
  B("exit"){ throw PathEnd{"exit called"}; }); B("_exit"){ throw PathEnd{"exit called"}; });
  // ---- harness intrinsics ----
  B("vs_real"){ string n=E.uniq(s,E.argStr(s,x,0)); Val lo=A(1),hi=A(2); mpq_class l(lo.d),h(hi.d); T t=TM.var(n+"|"+q2s(lo.d)+"|"+q2s(hi.d),'r',0,true,l,h); r=vReal(t,nullptr,x.w); s.inputs.push_back({n,r}); return false; });
  B("vs_int"){ string n=E.uniq(s,E.argStr(s,x,0)); int lo=(int)U(1),hi=(int)U(2); if(lo==hi){ r=vInt((uint64_t)lo,32); s.choices.push_back({n,lo}); return false; } T t=TM.var(n+"|"+std::to_string(lo)+"|"+std::to_string(hi),'v',32,true,mpq_class(lo),mpq_class(hi)); r=vBV(t); s.inputs.push_back({n,r}); return false; });
  B("vs_char"){ string n=E.uniq(s,E.argStr(s,x,0)); string al=E.argStr(s,x,1); int k=al.size(); T t=TM.var(n+"|c"+std::to_string(k),'v',32,true,mpq_class(0),mpq_class(k-1)); Val iv=vBV(t); T v=TM.bvc((uint8_t)al[k-1],8); for(int i=k-2;i>=0;i--) v=TM.bvite(TM.bveq(t,TM.bvc(i,32)),TM.bvc((uint8_t)al[i],8),v); r=vBV(v); if(x.w!=8) r=vBV(TM.zext(v,x.w)); s.inputs.push_back({n,iv}); return false; });
  B("vs_choice"){ string nm=E.argStr(s,x,0); int n=(int)U(1); string nn=E.uniq(s,nm); long forced=-1; auto pit=E.params.find("choice:"+nn); if(pit!=E.params.end()) forced=pit->second; Frame&f=s.st.back(); 
      if(forced>=0){ s.choices.push_back({nn,forced}); s.choiceKey.push_back(forced); r=vInt(forced,32); return false; }
      if(n<=0) throw PathEnd{"empty choice"};
      for(int i=1;i<n;i++){ State*o=E.fork(s); o->choices.push_back({nn,i}); o->choiceKey.push_back(i); Frame&g=o->st.back(); if(x.dst>=0) g.r[x.dst]=vInt(i,32); E.retAfterBuiltin(*o,x); E.enqueue(o); }
      s.choices.push_back({nn,0}); s.choiceKey.push_back(0); if(x.dst>=0) f.r[x.dst]=vInt(0,32); E.retAfterBuiltin(s,x); E.ctlPoint=true; return true; });
  B("vs_param"){ string n=E.argStr(s,x,0); auto it=E.params.find(n); r= it!=E.params.end()? vInt((uint64_t)it->second,32):A(1); return false; });
  B("vs_assume"){ Val v=A(0); if(v.k==VUndef) throw PathEnd{"engine: assume(undef)"}; T c= v.k==VInt?(v.u?TM.tTrue:TM.tFalse):TM.bnot(TM.bveq(toBV(v),TM.bvc(0,v.w))); if(!SV->feasible(s.pc,c)) throw PathEnd{"assumed away"}; E.addPc(s,c); return false; });
  B("vs_assert"){ Val v=A(0); string m=E.argStr(s,x,1); if(v.k==VUndef) throw Violation{"uninit","assertion on uninitialised value: "+m}; T c= v.k==VInt?(v.u?TM.tTrue:TM.tFalse):TM.bnot(TM.bveq(toBV(v),TM.bvc(0,v.w))); E.doAssert(s,c,m); return false; });
  B("vs_assert_eq"){ Val a=A(0),b=A(1); string m=E.argStr(s,x,2); E.assertCmp(s,a,b,m,true); return false; });
  B("vs_assert_same"){ Val a=A(0),b=A(1); string m=E.argStr(s,x,2); if(a.k==VFP&&b.k==VFP){ E.doAssert(s,a.d==b.d?TM.tTrue:TM.tFalse,m); return false; } E.assertCmp(s,a,b,m,true); return false; });
  B("vs_assert_le"){ Val a=A(0),b=A(1); string m=E.argStr(s,x,2); E.assertCmp(s,a,b,m,false); return false; });
  B("vs_reach"){ string t=E.argStr(s,x,0); if(E.reach.count(t)) return false; if(E.reachTries[t]++>6) return false; Model m; int q=E.findModel(s.pc,m,true); if(q==1) E.reach[t]=E.modelJson(s,m); return false; });
  B("vs_is_inf"){ Val a=A(0); if(a.k==VUndef) throw Violation{"uninit","use of uninitialised value"}; r=vBV(TM.b2bv(guardOf(a),32)); return false; });
  B("vs_is_nan"){ Val a=A(0); r=vInt(a.k==VFP&&std::isnan(a.d),32); return false; });
  B("vs_concrete"){ r=vInt(U(0),32); return false; });
  B("vs_stop"){ throw PathEnd{"stopped by harness"}; });
  B("vs_fail"){ throw Violation{E.argStr(s,x,0),E.argStr(s,x,1)}; });
  B("vs_native"){ r=vInt(0,32); return false; });
  B("vs_defined"){ uint64_t p=U(0),n=U(1); int64_t off; Obj*o=E.lookup(s,p,n,false,off,false); bool ok=true; for(uint64_t i=0;i<n;i++) if(!o->st[off+i]) ok=false; r=vInt(ok,32); return false; });
  B("vs_debug"){ fprintf(stderr,"[debug] %s\n",E.argStr(s,x,0).c_str()); return false; });
  B("vs_debug_d"){ Val v=A(1); fprintf(stderr,"[debug] %s = %s\n",E.argStr(s,x,0).c_str(), v.k==VFP?std::to_string(v.d).c_str(): v.k==VReal? (TM.str(v.t)+(v.g?" | inf:"+TM.str(v.g):"")).c_str():"?"); return false; });
  B("vs_debug_i"){ Val v=A(1); fprintf(stderr,"[debug] %s = %s\n",E.argStr(s,x,0).c_str(), v.k==VInt?std::to_string((int64_t)v.u).c_str(): v.k==VBV||v.k==VBool? TM.str(v.t).c_str():"?"); return false; });
  // text <-> symbolic numbers
  B("vs_fmt_real"){ // (double v, int prec, int flags, char* buf) -> length
      Val v=A(0); int prec=(int)U(1), fl=(int)U(2); uint64_t buf=U(3); if(v.k==VUndef) throw Violation{"uninit","printing an uninitialised value"}; if(v.k==VReal&&v.g) E.resolveGuard(x.o[0],v); char b[400]; if(v.k==VFP){ const char*f= fl==1?"%.*f":fl==2?"%.*e":"%.*g"; snprintf(b,sizeof b,f,prec,v.d); } else { int id=-1; for(size_t i=0;i<E.toks.size();i++) if(same(E.toks[i].v,v)&&E.toks[i].prec==(prec|fl<<16)) id=i; if(id<0){ id=E.toks.size(); E.toks.push_back({v,prec|fl<<16}); } snprintf(b,sizeof b,"\x01%d\x02",id); } int n=strlen(b); for(int i=0;i<n;i++) E.storeTy(s,buf+i,vInt((uint8_t)b[i],8),IntegerType::get(E.C,8)); r=vInt(n,32); return false; });
  B("vs_token_value"){ // (int id, int digits) -> value as read back into a type with `digits` max_digits10
      int id=(int)U(0), dig=std::min((int)U(1),E.maxDigits); if(id<0||id>=(int)E.toks.size()){ r=vFP(0,x.w); return false; } Tok t=E.toks[id]; int prec=t.prec&0xffff, fl=t.prec>>16; if(prec>=dig&&fl!=1){ r=t.v; r.w=x.w; return false; }
      T v=TM.var("rounded:"+std::to_string(t.v.t->id)+":"+std::to_string(t.prec),'r',0); mpq_class eps=1; for(int i=1;i<prec&&i<40;i++) eps/=10; eps*=16; E.addPc(s,TM.band(TM.rle(v,TM.radd(t.v.t,TM.rc(eps))),TM.rle(TM.rsub(t.v.t,TM.rc(eps)),v))); r=vReal(v,nullptr,x.w); return false; });
  B("vs_num_token"){ // register a symbolic number for use in input text: (double v, char* buf) -> length
      Val v=A(0); uint64_t buf=U(1); char b[64]; if(v.k==VFP) snprintf(b,64,"%.17g",v.d); else { int id=E.toks.size(); E.toks.push_back({v,17}); snprintf(b,64,"\x01%d\x02",id); } int n=strlen(b); for(int i=0;i<n;i++) E.storeTy(s,buf+i,vInt((uint8_t)b[i],8),IntegerType::get(E.C,8)); r=vInt(n,32); return false; });
  #undef B
  #undef P
  #undef A
  #undef U
}
int leakTags=0, maxDigits=17; map<string,int> reachTries;
void assertCmp(State&s,const Val&a,const Val&b,const string&m,bool eq){
  if(a.k==VUndef||b.k==VUndef) throw Violation{"uninit","assertion on uninitialised value: "+m};
  if(a.k==VFP&&b.k==VFP){ bool inf=std::isinf(a.d)||std::isinf(b.d); bool ok= inf? (eq? a.d==b.d: a.d<=b.d): eq? (a.d==b.d||std::fabs(a.d-b.d)<=1e-9*std::max(1.0,std::max(std::fabs(a.d),std::fabs(b.d)))) : a.d<=b.d+1e-9*std::max(1.0,std::fabs(b.d)); if(std::isnan(a.d)||std::isnan(b.d)) ok=false; doAssert(s,ok?TM.tTrue:TM.tFalse,m); return; }
  T ta,ga,tb,gb; bool o1=toReal(a,ta,ga),o2=toReal(b,tb,gb); if(!o1||!o2){ doAssert(s,TM.tFalse,m+" (NaN or -inf)"); return; } ga=gOr0(ga); gb=gOr0(gb);
  if(eq){ T cond=TM.band(TM.bnot(TM.bxor(ga,gb)),TM.bor(ga,TM.req(ta,tb))); T d=TM.rsub(ta,tb); T far=TM.bor(TM.rle(TM.rc(mpq_class(1,8)),d),TM.rle(d,TM.rc(mpq_class(-1,8)))); T mar=TM.bor(TM.bxor(ga,gb),TM.band(std::vector<T>{TM.bnot(ga),TM.bnot(gb),far})); doAssert(s,cond,m,mar); }
  else { T cond=TM.bor(gb,TM.band(TM.bnot(ga),TM.rle(ta,tb))); T mar=TM.band(TM.bnot(gb),TM.bor(ga,TM.rle(TM.radd(tb,TM.rc(mpq_class(1,8))),ta))); doAssert(s,cond,m,mar); }
}
// throw an exception by calling a model function (does not return normally)
bool throwModel(State&s,Ins&x,const char*name){ Function*F=M->getFunction(name); if(!F) throw PathEnd{string("engine: missing model ")+name}; pushFrame(s,F,{}); return true; }
