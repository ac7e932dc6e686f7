#include "common.hpp"
using namespace onex;
// C03
extern "C" void c03_optimum(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=RATIOS[vs_choice("ratio",7)]; setWarpingBandRatio(ratio);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n);
  double d=warpedDistance(A,B,INF); double want=trueWarped(a,m,b,n,ratio);
  if(want==INF_) vs_reach("no path"); else vs_reach("path");
  vs_assert_eq(d,want,"warped distance is the optimum over all band paths");
}

// a cut-off: infinite or any real
static double cut(const char*n,double lo=-8){ return vs_choice("cutinf",2)? INF_ : vs_real(n,lo,8); }
// the promise about a result computed under a cut-off
static void cutSpec(double got,double truth,double c,const char*what,const char*what2){
  if(vs_is_inf(truth)){ vs_assert(vs_is_inf(got),what); return; }
  if(vs_is_inf(got)){ vs_assert_le(c,truth,what2); vs_reach("abandoned"); return; }
  vs_reach("exact"); vs_assert_eq(got,truth,what); }
// C04
extern "C" void c04_warped(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=bandFor(m>n?m:n);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n); double c=cut("cut",0);
  double d=warpedDistance(A,B,c);
  cutSpec(d,trueWarped(a,m,b,n,ratio),c,"warped distance under a cut-off is exact","warped distance abandoned only when the true distance reaches the cut-off"); }
// Squared Keogh bound of y against the envelope of x, position by position. Asserting that no position
// exceeds any point pair in the band (small queries) leaves the comparison of the sums linear.
static void keoghLemma(const TimeSeries&X,const data_t*x,int m,const data_t*y,int n,int r){
  const data_t*e=X.getKeoghLower(r); std::vector<data_t> lo(e,e+m); e=X.getKeoghUpper(r); std::vector<data_t> up(e,e+m); int len=m<n?m:n;
  for(int i=0;i<len;i++){ double t=0; if(y[i]>up[i]) t=sq((double)y[i]-(double)up[i]); else if(y[i]<lo[i]) t=sq((double)y[i]-(double)lo[i]);
    for(int k=0;k<m;k++) if((i>k?i-k:k-i)<=r) vs_assert_le(t,sq((double)x[k]-(double)y[i]),"distance to the envelope is at most the distance to any point of the band"); } }
extern "C" void c04_cascade(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=bandFor(m>n?m:n); int r=bandOf(m>n?m:n,ratio);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n); double c=cut("cut",0);
  double d=cascadeDistance(A,B,c), truth=trueWarped(a,m,b,n,ratio);
  if(vs_is_inf(truth)){ vs_assert(vs_is_inf(d),"cascaded distance under a cut-off is exact"); return; }
  keoghLemma(A,a,m,b,n,r); keoghLemma(B,b,n,a,m,r);
  if(vs_is_inf(d)){ leWarped(c,a,m,b,n,ratio,"cascaded distance pruned only when the true distance reaches the cut-off"); vs_reach("abandoned"); return; }
  vs_reach("exact"); vs_assert_eq(d,truth,"cascaded distance under a cut-off is exact"); }
extern "C" void c04_pairwise(){
  int n=vs_param("n",3); data_t a[64],b[64]; fill(a,n,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,n),B(b,0,0,n); double c=cut("cut",0);
  double d=pairwiseDistance(A,B,c);
  cutSpec(d,trueEuclid(a,b,n),c,"point-wise distance under a cut-off is exact","point-wise distance abandoned only when the true distance reaches the cut-off"); }
// C05
extern "C" void c05_keogh(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=bandFor(m>n?m:n);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n);
  double w=trueWarped(a,m,b,n,ratio); if(vs_is_inf(w)){ vs_reach("no path"); vs_assert(1,"-"); return; }
  vs_reach("path"); double c=cut("cut",0); int which=vs_choice("dir",2); int r=bandOf(m>n?m:n,ratio);
  if(which) keoghLemma(B,b,n,a,m,r); else keoghLemma(A,a,m,b,n,r);
  double lb= which? keoghLowerBound(B,A,c):keoghLowerBound(A,B,c);
  vs_assert_le(0,lb,"Keogh bound is not negative"); leWarped(lb,a,m,b,n,ratio,"Keogh bound is at most the warped distance"); }
extern "C" void c05_cross(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=bandFor(m>n?m:n);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n);
  double w=trueWarped(a,m,b,n,ratio); if(vs_is_inf(w)){ vs_reach("no path"); vs_assert(1,"-"); return; }
  vs_reach("path"); double c=cut("cut",0); int r=bandOf(m>n?m:n,ratio); keoghLemma(A,a,m,b,n,r); keoghLemma(B,b,n,a,m,r);
  double lb=crossKeoghLowerBound(A,B,c);
  if(vs_is_inf(lb)){ vs_reach("pruned"); leWarped(c,a,m,b,n,ratio,"two-sided bound is infinite only when the warped distance reaches the cut-off"); }
  else leWarped(lb,a,m,b,n,ratio,"two-sided bound is at most the warped distance"); }
// C06
extern "C" void c06_envelope(){
  int n=vs_param("n",4), off=vs_choice("off",2), w=vs_choice("band",n+3);
  data_t d[80]; fill(d,n+off+1,"d"); TimeSeries A(d,0,off,off+n);
  int first=vs_choice("first",2); if(first) A.getKeoghUpper(w); // either order, cached or not
  const data_t*e=A.getKeoghLower(w); std::vector<data_t> lo(e,e+n); e=A.getKeoghUpper(w); std::vector<data_t> up(e,e+n);
  for(int i=0;i<n;i++){ double mx=d[off+i],mn=d[off+i]; for(int j=0;j<n;j++) if((i>j?i-j:j-i)<=w){ mx=dmax(mx,d[off+j]); mn=dmin(mn,d[off+j]); }
    vs_assert_same(up[i],mx,"upper envelope is the window maximum"); vs_assert_same(lo[i],mn,"lower envelope is the window minimum"); }
  vs_reach("done"); }
extern "C" void c06_rebands(){   // changing the band back and forth
  int n=vs_param("n",4); data_t d[80]; fill(d,n,"d"); TimeSeries A(d,n);
  for(int k=0;k<3;k++){ int w=vs_choice("band",n+1); const data_t*up=0,*lo=0; int wh=vs_choice("side",2); if(wh) up=A.getKeoghUpper(w); else lo=A.getKeoghLower(w);
    for(int i=0;i<n;i++){ double mx=d[i],mn=d[i]; for(int j=0;j<n;j++) if((i>j?i-j:j-i)<=w){ mx=dmax(mx,d[j]); mn=dmin(mn,d[j]); }
      if(wh) vs_assert_same(up[i],mx,"upper envelope is the window maximum after a change of band"); else vs_assert_same(lo[i],mn,"lower envelope is the window minimum after a change of band"); } }
  vs_reach("done"); }
// C07
extern "C" void c07_warped(){
  int m=vs_param("m",3), n=vs_param("n",3); double ratio=bandFor(m>n?m:n);
  data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n);
  int fn=vs_choice("fn",2); dist_t f= fn?cascadeDistance:warpedDistance;
  double x=f(A,B,INF), y=f(B,A,INF);
  if(vs_is_inf(x)){ vs_assert(vs_is_inf(y),"warped distance is symmetric"); vs_reach("infinite"); return; } vs_reach("finite");
  vs_assert_le(0,x,"warped distance is not negative"); vs_assert_eq(x,y,"warped distance is symmetric");
  if(m==n){ double p=pairwiseDistance(A,B,INF); vs_assert_le(x*x*(4*n),p*p,"warped distance is at most half the point-wise distance over the root of the length");
    TimeSeries C(a,0,0,m); vs_assert_eq(f(A,C,INF),0,"warped distance between equal series is zero"); } }
extern "C" void c07_pairwise(){
  int n=vs_param("n",3); data_t a[64],b[64]; fill(a,n,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,n),B(b,0,0,n);
  dist_t f=getDistance("euclidean");
  double x=f(A,B,INF), y=f(B,A,INF); vs_assert(!vs_is_inf(x),"point-wise distance is finite"); vs_assert_eq(x,trueEuclid(a,b,n),"point-wise distance is the root mean squared difference");
  vs_assert_eq(x,y,"point-wise distance is symmetric"); vs_assert_le(0,x,"point-wise distance is not negative"); vs_assert_eq(f(A,A,INF),0,"point-wise distance to itself is zero");
  if(x==0){ for(int i=0;i<n;i++) vs_assert_eq(a[i],b[i],"point-wise distance is zero only for equal series"); vs_reach("zero"); }
  vs_reach("done"); }
extern "C" void c07_lengths(){
  int m=1+vs_choice("m",5), n=1+vs_choice("n",5); data_t a[64],b[64]; fill(a,m,"a"); fill(b,n,"b"); TimeSeries A(a,0,0,m),B(b,0,0,n); bool thrown=false; double c=cut("cut",0);
  try{ pairwiseDistance(A,B,c); } catch(OnexException&){ thrown=true; }
  vs_assert(thrown==(m!=n),"point-wise distance refuses exactly series of different length"); vs_reach("done"); }
extern "C" void c07_names(){
  int k=vs_choice("name",6); const char*N[]={"euclidean","euclidean_dtw","","Euclidean","euclidean_","dtw"}; bool thrown=false; dist_t f=0;
  try{ f=getDistance(N[k]); } catch(OnexException&){ thrown=true; }
  vs_assert(thrown==(k>1),"exactly the known distance names are accepted"); 
  if(!thrown){ data_t a[3],b[3]; fill(a,3,"a"); fill(b,3,"b"); TimeSeries A(a,0,0,3),B(b,0,0,3); setWarpingBandRatio(0.5); 
    vs_assert_eq(f(A,B,INF), k==0?trueEuclid(a,b,3):trueWarped(a,3,b,3,0.5),"a distance name denotes its distance"); vs_reach("known"); } else vs_reach("unknown"); }
// C24
static candidate_time_series_t cand(const char*nm,data_t*d,double&dist,int&ix,int&st,int&len){ std::string s(nm); dist=vs_real((s+"d").c_str(),0,8); ix=vs_int((s+"i").c_str(),0,3); st=vs_int((s+"s").c_str(),0,3); len=vs_int((s+"l").c_str(),1,4); return candidate_time_series_t(TimeSeries(d,ix,st,st+len),dist); }
extern "C" void c24_order(){
  data_t d[8]={0}; double x,y; int i1,s1,l1,i2,s2,l2; candidate_time_series_t A=cand("a",d,x,i1,s1,l1),B=cand("b",d,y,i2,s2,l2);
  bool ab=A<B, ba=B<A; double df=x-y; if(df<0) df=-df; double tol=(data_t)1e-12;
  if(df>tol){ vs_reach("apart"); vs_assert(ab==(x<y),"the nearer candidate ranks first"); vs_assert(ba==(y<x),"the nearer candidate ranks first"); }
  else if(df<tol){ vs_reach("tie"); bool w= i1!=i2? i1<i2 : s1!=s2? s1<s2 : l1<l2; vs_assert(ab==w,"ties rank by series, start and length"); }
  vs_assert(!(ab&&ba),"never both before each other"); vs_assert(!(A<A),"never before itself"); }
extern "C" void c24_sort(){
  data_t d[8]={0}; std::vector<candidate_time_series_t> v; int n=vs_param("n",3); 
  for(int k=0;k<n;k++){ double dist=vs_real("d",0,8); int ix=vs_choice("i",2),st=vs_choice("s",2); v.push_back(candidate_time_series_t(TimeSeries(d,ix,st,st+2),dist)); }
  for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double df=v[i].dist-v[j].dist; if(df<0) df=-df; vs_assume(df==0||df>1e-9); }
  std::sort(v.begin(),v.end());
  for(int i=0;i+1<n;i++){ vs_assert(v[i].dist<=v[i+1].dist,"sorted candidates have ascending distance"); if(v[i].dist==v[i+1].dist) vs_assert(v[i].data.getIndex()<v[i+1].data.getIndex()||(v[i].data.getIndex()==v[i+1].data.getIndex()&&v[i].data.getStart()<=v[i+1].data.getStart()),"equally distant candidates are sorted by position"); }
  vs_reach("done"); }
