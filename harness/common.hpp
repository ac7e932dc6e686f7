// Shared helpers of the harnesses.
#pragma once
#include "vs.h"
#include <vector>
#include <string>
#include <cmath>
#include <limits>
#include <algorithm>
#include "TimeSeries.hpp"
#include "TimeSeriesSet.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "GlobalGroupSpace.hpp"
#include "Group.hpp"
#include "OnexAPI.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
using onex::data_t;
static const double INF_ = std::numeric_limits<double>::infinity();
// band ratios used as concrete alternatives
static const double RATIOS[] = {0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 0.4};
static inline double sq(double x){ return x*x; }
static inline double dmin(double a,double b){ return std::fmin(a,b); }
static inline double dmax(double a,double b){ return std::fmax(a,b); }
// the warping band the documentation defines: floor(length * ratio), at most length-1
static inline int bandOf(int len,double ratio){ int b=(int)std::floor(len*ratio); return b<len-1?b:len-1; }
// smallest total squared difference over all monotone paths inside the band; <0: no path
static inline bool bandOpt(const data_t*a,int m,const data_t*b,int n,int r,double&out){
  std::vector<double> c(m*n,0.0); std::vector<char> ok(m*n,0);
  for(int i=0;i<m;i++) for(int j=0;j<n;j++){ int d=i>j?i-j:j-i; if(d>r) continue; double e=sq((double)a[i]-(double)b[j]);
    if(i==0&&j==0){ c[0]=e; ok[0]=1; continue; }
    bool h=false; double best=0; const int P[3][2]={{i-1,j-1},{i-1,j},{i,j-1}};
    for(int k=0;k<3;k++){ int p=P[k][0],q=P[k][1]; if(p<0||q<0||!ok[p*n+q]) continue; double v=c[p*n+q]; best= h?dmin(best,v):v; h=true; }
    if(h){ c[i*n+j]=best+e; ok[i*n+j]=1; } }
  out=c[m*n-1]; return ok[m*n-1]; }
// true warped distance (INF when no path)
static inline double trueWarped(const data_t*a,int m,const data_t*b,int n,double ratio){ int L=m>n?m:n; double o; if(m==1&&n==1) return std::sqrt(sq((double)a[0]-(double)b[0]))/2; if(!bandOpt(a,m,b,n,bandOf(L,ratio),o)) return INF_; return std::sqrt(o)/(2*L); }
static inline double trueEuclid(const data_t*a,const data_t*b,int n){ double t=0; for(int i=0;i<n;i++) t+=sq((double)a[i]-(double)b[i]); return std::sqrt(t/n); }
// Parameter "fix"=k > 0: only every k-th value (from position k/2) is symbolic, the others are fixed multiples of 0.5 (large shapes).
static inline bool fixedAt(int i){ int k=vs_param("fix",0); return k>0&&i%k!=k/2; }
static inline double fixedValue(int i,char salt){ return ((i*37+salt*5)%31-15)/2.0; }
// Parameter "wide"=1: any value up to 1e30; 2: up to 1e120, ...
static inline data_t anyValue(int i,const char*name,double lo=-8,double hi=8){ if(vs_param("wide",0)){ hi=1e30; for(int k=vs_param("wide",0);k>1;k--) hi*=1e90; lo=-hi; } return fixedAt(i)? (data_t)fixedValue(i,name[0]) : (data_t)vs_real(name,lo,hi); }
static inline void fill(data_t*d,int n,const char*name,double lo=-8,double hi=8){ for(int i=0;i<n;i++) d[i]=anyValue(i,name,lo,hi); }
// any warping band 0..len-1 for series of the given length (parameter "band" of the run, or all of them)
static inline double bandFor(int len){ int b=vs_param("band",-1); if(b<0) b=vs_choice("bandc",len); double r=(b+0.25)/len; if(b>=len) r=1.0; onex::setWarpingBandRatio(r); return r; }
// Calls f(total squared difference) for every monotone path inside the band.
template<class F> static void pathsFrom(const data_t*a,int m,const data_t*b,int n,int r,int i,int j,double c,F&f){
  int d=i>j?i-j:j-i; if(i>=m||j>=n||d>r) return; c+=sq((double)a[i]-(double)b[j]);
  if(i==m-1&&j==n-1){ f(c); return; }
  pathsFrom(a,m,b,n,r,i+1,j+1,c,f); pathsFrom(a,m,b,n,r,i+1,j,c,f); pathsFrom(a,m,b,n,r,i,j+1,c,f); }
template<class F> static void eachPath(const data_t*a,int m,const data_t*b,int n,int r,F f){ pathsFrom(a,m,b,n,r,0,0,0.0,f); }
// lo <= the warped distance, path by path (the distance is the least over the paths): each goal is small
static void leWarped(double lo,const data_t*a,int m,const data_t*b,int n,double ratio,const char*msg){ int L=m>n?m:n; if(vs_param("fix",0)){ vs_assert_le(lo,trueWarped(a,m,b,n,ratio),msg); return; }
  eachPath(a,m,b,n,bandOf(L,ratio),[&](double c){ vs_assert_le(lo,std::sqrt(c)/(2*L),msg); }); }
// ---- datasets ----
static inline std::string numText(double v){ char b[64]; int n=vs_num_token(v,b); return std::string(b,n); }
// a table of symbolic values and the text file that holds it
struct Table { int n,l; std::vector<double> v; double at(int i,int j)const{ return v[i*l+j]; } double&at(int i,int j){ return v[i*l+j]; }
  Table(int N,int L,const char*name,double lo=-8,double hi=8):n(N),l(L),v(N*L){ for(int i=0;i<N*L;i++) v[i]=anyValue(i,name,lo,hi); }
  void write(const char*file,const char*sep=" ")const{ std::string s; for(int i=0;i<n;i++){ for(int j=0;j<l;j++){ if(j) s+=sep; s+=numText(v[i*l+j]); } s+="\n"; } vs_file_put(file,s.data(),(long)s.size()); } };
template<class S> static void loadTable(S&s,const Table&t,const char*file="in"){ t.write(file); s.loadData(vs_path(file),0,0," "); }
template<class S> static void sameValues(const S&s,const Table&t,const char*msg){ vs_assert(s.getItemCount()==t.n&&s.getItemLength()==t.l,msg); for(int i=0;i<t.n;i++){ onex::TimeSeries x=s.getTimeSeries(i); for(int j=0;j<t.l;j++) vs_assert_same(x[j],t.at(i,j),msg); } }
template<class F> static bool throws(F f){ try{ f(); } catch(onex::OnexException&){ return true; } return false; }
