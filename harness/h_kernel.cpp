// C26: the bundled search kernels (lib/trillionDTW).
#include "common.hpp"
#include "lib/trillionDTW.h"
using namespace onex;
typedef std::vector<data_t> Vec;
static Vec any(int n,const char*name){ Vec v(n); fill(v.data(),n,name); return v; }
static void envelope(const Vec&v,int r,Vec&lo,Vec&up){ int n=v.size(); lo.resize(n); up.resize(n); for(int i=0;i<n;i++){ double a=v[i],b=v[i]; for(int j=std::max(0,i-r);j<=std::min(n-1,i+r);j++){ a=dmin(a,v[j]); b=dmax(b,v[j]); } lo[i]=a; up[i]=b; } }
static double outside(double x,double lo,double up){ return x>up?sq(x-up):x<lo?sq(x-lo):0; }
static std::vector<int> anyOrder(int n){ std::vector<int> o(n); for(int i=0;i<n;i++) o[i]=i; int k=vs_choice("order",3); if(k==1) std::reverse(o.begin(),o.end()); if(k==2) std::rotate(o.begin(),o.begin()+n/2,o.end()); return o; }
static const double MEAN[]={0,1.5,-3}, STD[]={1,2,0.25};
// every path of the band, or the best one only (large shapes)
template<class F> static void paths(const Vec&z,const Vec&q,int r,F f){ int m=z.size(); if(vs_param("fix",0)){ double o; bandOpt(z.data(),m,q.data(),m,r,o); f(o); } else eachPath(z.data(),m,q.data(),m,r,f); }
// the optimum in the band; a suffix of zeros as the remaining bound
extern "C" void c26_dtw(){
  int m=vs_param("m",3), r=vs_param("r",1); Vec A=any(m,"a"),B=any(m,"b"),cb(m+r+2,0); double opt; bandOpt(A.data(),m,B.data(),m,r,opt);
  vs_assert_eq(dtw(A.data(),B.data(),cb.data(),m,r),opt,"the kernel returns the optimum over the band"); vs_reach("exact"); }
extern "C" void c26_abandon(){
  int m=vs_param("m",3), r=vs_param("r",1); Vec A=any(m,"a"),B=any(m,"b"),cb(m); int kind=vs_param("cb",0);
  if(kind==1){ for(int i=m-1;i>=0;i--) cb[i]=(data_t)vs_real("cb",0,50)+(i+1<m?cb[i+1]:0); }
  if(kind==2){ Vec lo,up; envelope(A,r,lo,up); for(int i=m-1;i>=0;i--) cb[i]=outside(B[i],lo[i],up[i])+(i+1<m?cb[i+1]:0); }
  data_t bsf=(data_t)vs_real("bsf",0,3000); double opt; bandOpt(A.data(),m,B.data(),m,r,opt);
  data_t got=dtw(A.data(),B.data(),cb.data(),m,r,bsf);
  if(got<bsf){ vs_assert_eq(got,opt,"a value below the best so far is the optimum"); vs_reach("below"); }
  else { if(kind!=1) vs_assert_le(bsf,opt,"an optimum below the best so far is not abandoned"); vs_reach("not below"); } }
extern "C" void c26_keogh(){
  int m=vs_param("m",3), r=vs_param("r",1), k=vs_choice("scale",3), j=vs_choice("at",2)*2; double mean=MEAN[k],sd=STD[k]; Vec z=any(m,"z"),q=any(m,"q"),lo,up; envelope(q,r,lo,up); std::vector<int> o=anyOrder(m);
  Vec t(m+j,100),ls(m),us(m),cb(m+2,-1); for(int i=0;i<m;i++){ t[i+j]=z[i]*sd+mean; ls[i]=lo[o[i]]; us[i]=up[o[i]]; }
  bool all=vs_choice("cut",2)==0; data_t bsf=all?(data_t)INF_TRILLION:(data_t)vs_real("bsf",0,1000);
  data_t lb=lb_keogh_cumulative(o.data(),t.data(),us.data(),ls.data(),cb.data(),j,m,mean,sd,bsf); double sum=0; int n=0; for(int i=0;i<m;i++){ int p=o[i]; if(!all&&!(sum<bsf)){ vs_assert_eq(cb[p],-1,"contributions are the distances to the envelope"); continue; } double d=outside(z[p],lo[p],up[p]); vs_assert_eq(cb[p],d,"contributions are the distances to the envelope"); sum+=d; n++; }
  vs_assert(cb[m]==-1&&cb[m+1]==-1,"contributions stay inside their array"); vs_assert_eq(lb,sum,"contributions sum up to the bound"); if(all&&k==0&&j==0) paths(z,q,r,[&](double c){ vs_assert_le(lb,c,"a cumulative bound never exceeds the optimum"); }); if(n<m) vs_reach("cut short"); else vs_reach("complete"); }
extern "C" void c26_keoghData(){
  int m=vs_param("m",3), r=vs_param("r",1), k=vs_choice("scale",3); double mean=MEAN[k],sd=STD[k]; Vec z=any(m,"z"),q=any(m,"q"),lo,up; envelope(z,r,lo,up); std::vector<int> o=anyOrder(m);
  Vec t(m),qs(m),l(m),u(m),cb(m+2,-1); for(int i=0;i<m;i++){ t[i]=z[i]; qs[i]=q[o[i]]; l[i]=lo[i]*sd+mean; u[i]=up[i]*sd+mean; }
  bool all=vs_choice("cut",2)==0; data_t bsf=all?(data_t)INF_TRILLION:(data_t)vs_real("bsf",0,1000);
  data_t lb=lb_keogh_data_cumulative(o.data(),t.data(),qs.data(),cb.data(),l.data(),u.data(),m,mean,sd,bsf); double sum=0; int n=0; for(int i=0;i<m;i++){ int p=o[i]; if(!all&&!(sum<bsf)){ vs_assert_eq(cb[p],-1,"contributions are the distances to the envelope"); continue; } double d=outside(q[p],lo[p],up[p]); vs_assert_eq(cb[p],d,"contributions are the distances to the envelope"); sum+=d; n++; }
  vs_assert(cb[m]==-1&&cb[m+1]==-1,"contributions stay inside their array"); vs_assert_eq(lb,sum,"contributions sum up to the bound"); if(all&&k==0) paths(z,q,r,[&](double c){ vs_assert_le(lb,c,"a cumulative bound never exceeds the optimum"); }); if(n<m) vs_reach("cut short"); else vs_reach("complete"); }
extern "C" void c26_kim(){
  int m=vs_param("m",6), r=vs_param("r",1), k=vs_choice("scale",2), j=vs_choice("at",2)*3; double mean=MEAN[k],sd=STD[k]; Vec z=any(m,"z"),q=any(m,"q"),t(m+j,100); for(int i=0;i<m;i++) t[i+j]=z[i]*sd+mean;
  bool cut=vs_choice("cut",2); data_t bsf=cut?(data_t)vs_real("bsf",0,1000):(data_t)INF_TRILLION; data_t lb=lb_kim_hierarchy(t.data(),q.data(),j,m,mean,sd,bsf);
  if(k||j){ vs_assert_eq(lb,lb_kim_hierarchy(z.data(),q.data(),0,m,0,1,bsf),"the first/last-point bound is that of the normalised data"); return; }
  paths(z,q,r,[&](double c){ vs_assert_le(lb,c,"the first/last-point bound never exceeds the optimum"); }); vs_reach(cut?"cut short":"complete"); }
