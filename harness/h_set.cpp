#include "common.hpp"
using namespace onex;
// C16
extern "C" void c16_normalize(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t(n,l,"x"); TimeSeriesSet s; loadTable(s,t);
  vs_assert(!s.isNormalized(),"a loaded dataset is not normalised yet");
  double mn=t.v[0],mx=t.v[0]; for(double x:t.v){ mn=dmin(mn,x); mx=dmax(mx,x); }
  std::pair<data_t,data_t> r=s.normalize();
  vs_assert_same(r.first,mn,"normalising returns the smallest value of the dataset"); vs_assert_same(r.second,mx,"normalising returns the largest value of the dataset");
  vs_assert(s.isNormalized(),"the dataset is reported as normalised"); vs_assert(s.getItemCount()==n&&s.getItemLength()==l,"normalising keeps the dimensions");
  bool flat=mn==mx; if(flat) vs_reach("flat"); else vs_reach("spread");
  for(int i=0;i<n;i++){ TimeSeries x=s.getTimeSeries(i); for(int j=0;j<l;j++){ double y=x[j];
    if(flat) vs_assert_eq(y,0,"a constant dataset becomes all zeros");
    else { vs_assert_eq(y,(t.at(i,j)-mn)/(mx-mn),"every value is mapped by min-max"); vs_assert(mn<=t.at(i,j)&&t.at(i,j)<=mx,"-"); vs_assert_le(0,y,"normalised values are at least 0"); vs_assert_le(y,1,"normalised values are at most 1"); } } } }
extern "C" void c16_flag(){   // normalised only while normalised data is held
  Table t(2,2,"x"), u(1,3,"y"); TimeSeriesSet s; int k=vs_choice("what",4);
  if(k==0){ vs_assert(throws([&]{ s.normalize(); }),"an empty dataset cannot be normalised"); vs_assert(!s.isNormalized(),"a refused normalisation leaves the flag alone"); vs_reach("empty"); return; }
  loadTable(s,t); s.normalize(); vs_assert(s.isNormalized(),"the dataset is reported as normalised");
  if(k==1){ loadTable(s,u,"in2"); vs_assert(!s.isNormalized(),"newly loaded data is not reported as normalised"); sameValues(s,u,"a reloaded dataset holds the new table"); vs_reach("reload"); }
  if(k==2){ s.clearData(); vs_assert(!s.isNormalized(),"a cleared dataset is not reported as normalised"); vs_assert(throws([&]{ s.normalize(); }),"an empty dataset cannot be normalised"); vs_reach("clear"); }
  if(k==3){ s.normalize(); vs_assert(s.isNormalized(),"normalising twice keeps the flag"); s.PAA(1); vs_assert(s.isNormalized()&&s.getItemLength()==2,"aggregating keeps the flag"); vs_reach("twice"); } }
extern "C" void c16_api(){
  Table t(2,3,"x"); t.write("in"); OnexAPI a; dataset_info_t d=a.loadDataset(vs_path("in"),0,0," "); vs_assert(!d.isNormalized,"a loaded dataset is not normalised yet");
  double mn=t.v[0],mx=t.v[0]; for(double x:t.v){ mn=dmin(mn,x); mx=dmax(mx,x); }
  std::pair<data_t,data_t> r=a.normalizeDataset(d.id); vs_assert_same(r.first,mn,"normalising returns the smallest value of the dataset"); vs_assert_same(r.second,mx,"normalising returns the largest value of the dataset");
  vs_assert(a.getDatasetInfo(d.id).isNormalized,"the dataset is reported as normalised"); vs_reach("done"); }
// C17
extern "C" void c17_paa(){
  int n=vs_param("n",2), l=vs_param("l",5); int b=1+vs_choice("block",l+2); if(b==l+2) b=2147483647; Table t(n,l,"x"); TimeSeriesSet s; loadTable(s,t);
  s.PAA(b); int k=l/b+(l%b?1:0); vs_assert(s.getItemCount()==n,"aggregating keeps the number of series"); vs_assert(s.getItemLength()==k,"aggregating shortens every series to one value per block");
  for(int i=0;i<n;i++){ TimeSeries x=s.getTimeSeries(i); for(int j=0;j<k;j++){ double sum=0; int c=0; for(int q=0;q<b&&j*b+q<l;q++){ sum+=t.at(i,j*b+q); c++; } vs_assert_eq(x[j],sum/c,"every value is the mean of its block"); } }
  vs_reach("done"); }
extern "C" void c17_refused(){
  Table t(2,3,"x"); TimeSeriesSet s; loadTable(s,t); int b=vs_int("block",-2147483647-1,3);
  bool th=throws([&]{ s.PAA(b); }); vs_assert(th==(b<=0),"exactly non-positive block sizes are refused"); if(th){ sameValues(s,t,"a refused aggregation changes nothing"); vs_reach("refused"); } else vs_reach("accepted"); }
extern "C" void c17_empty(){
  TimeSeriesSet s; int b=1+vs_choice("block",4); bool th=throws([&]{ s.PAA(b); }); (void)th; vs_assert(s.getItemCount()==0&&s.getItemLength()==0,"aggregating an empty dataset leaves it empty"); vs_reach("done"); }
extern "C" void c17_twice(){   // aggregating again, after other operations, in every order
  int l=vs_param("l",5); Table t(2,l,"x"); TimeSeriesSet s; loadTable(s,t); int a=1+vs_choice("a",3), b=1+vs_choice("b",3);
  s.PAA(a); s.PAA(b); int k=(l+a-1)/a, m=(k+b-1)/b; vs_assert(s.getItemLength()==m&&s.getItemCount()==2,"aggregating twice gives the block count of both");
  for(int i=0;i<2;i++){ std::vector<double> u(k); for(int j=0;j<k;j++){ double q=0; int c=0; for(int z=j*a;z<l&&z<j*a+a;z++){ q+=t.at(i,z); c++; } u[j]=q/c; }
    TimeSeries x=s.getTimeSeries(i); for(int j=0;j<m;j++){ double q=0; int c=0; for(int z=j*b;z<k&&z<j*b+b;z++){ q+=u[z]; c++; } vs_assert_eq(x[j],q/c,"aggregating twice averages the averages"); } }
  vs_reach("done"); }
// C18
extern "C" void c18_access(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t(n,l,"x"); TimeSeriesSet s; loadTable(s,t); const int MIN=-2147483647-1, MAX=2147483647;
  int i=vs_int("i",MIN,MAX), a=vs_int("a",MIN,MAX), b=vs_int("b",MIN,MAX); bool whole=a<0&&b<0; bool ok= i>=0&&i<n&&(whole||(a>=0&&a<b&&b<=l));
  bool th=throws([&]{ s.getTimeSeries(i,a,b); }); vs_assert(th==!ok,"exactly the requests inside the dataset succeed"); if(th){ vs_reach("refused"); return; }
  TimeSeries x=s.getTimeSeries(i,a,b); i=vs_concrete(i); if(whole){ a=0; b=l; vs_reach("whole"); } else { a=vs_concrete(a); b=vs_concrete(b); vs_reach("part"); }
  vs_assert(x.getLength()==b-a&&x.getIndex()==i&&x.getStart()==a&&x.getEnd()==b,"a subsequence has the requested position and length");
  int k=vs_int("k",MIN,MAX); double v=0; bool te=throws([&]{ v=x[k]; }); vs_assert(te==!(k>=0&&k<b-a),"exactly the elements inside the series can be read");
  if(!te){ k=vs_concrete(k); vs_assert_same(v,t.at(i,a+k),"element k of a subsequence is value start+k of its series"); vs_reach("element"); } }
extern "C" void c18_empty(){ TimeSeriesSet s; int i=vs_int("i",-2147483647-1,2147483647),a=vs_int("a",-2,2),b=vs_int("b",-2,2); vs_assert(throws([&]{ s.getTimeSeries(i,a,b); }),"an empty dataset has no subsequences"); vs_reach("done"); }
extern "C" void c18_add(){
  int m=1+vs_choice("m",4), n=1+vs_choice("n",4); int own=vs_choice("own",2); data_t a[8],b[8]; fill(a,m+1,"a"); fill(b,n+1,"b");
  TimeSeries V(a,0,1,m+1), B(b,0,1,n+1); TimeSeries O(m); for(int i=0;i<m;i++) O[i]=a[1+i]; TimeSeries&A= own?O:V; data_t a0=a[0]; std::vector<double> old(m); for(int i=0;i<m;i++) old[i]=a[1+i];
  bool th=throws([&]{ A+=B; }); vs_assert(th==(m!=n),"adding succeeds exactly for equal lengths");
  for(int i=0;i<m;i++) vs_assert_eq(A[i],th?old[i]:old[i]+b[1+i],"adding is element-wise"); for(int i=0;i<n;i++) vs_assert_same(B[i],b[1+i],"the added series is unchanged"); vs_assert_same(a[0],a0,"adding stays inside the series"); vs_reach(th?"refused":"added"); }
// C22
static void envelopeOk(const TimeSeries&x,const std::vector<double>&v,int w,bool upperFirst=false){ int n=v.size();
  for(int k=0;k<2;k++){ bool up=upperFirst==(k==0); const data_t*e= up?x.getKeoghUpper(w):x.getKeoghLower(w);
    for(int i=0;i<n;i++){ double want=v[i]; for(int j=0;j<n;j++) if((i>j?i-j:j-i)<=w) want= up?dmax(want,v[j]):dmin(want,v[j]); vs_assert_same(e[i],want,"an envelope reflects the current contents"); } } }
extern "C" void c22_series(){   // pool: two owned series, one view; any sequence of copies, assignments, moves, additions
  int K=vs_param("steps",2); static data_t base[4]; double bv[4]; for(int i=0;i<4;i++){ bv[i]=i*i-3; base[i]=bv[i]; }
  vs_leak_begin();
  { std::vector<TimeSeries*> p; std::vector<std::vector<double>> m; std::vector<char> own;
    { TimeSeries*a=new TimeSeries(3); std::vector<double> v(3); for(int i=0;i<3;i++){ v[i]=vs_real("a",-8,8); (*a)[i]=v[i]; } p.push_back(a); m.push_back(v); own.push_back(1); }
    { TimeSeries*a=new TimeSeries(2); std::vector<double> v(2); for(int i=0;i<2;i++){ v[i]=vs_real("b",-8,8); (*a)[i]=v[i]; } p.push_back(a); m.push_back(v); own.push_back(1); }
    { p.push_back(new TimeSeries(base,0,1,4)); m.push_back({bv[1],bv[2],bv[3]}); own.push_back(0); }
    bool warm=vs_choice("warm",2); if(warm) for(int i=0;i<3;i++) envelopeOk(*p[i],m[i],1);
    std::vector<char> moved(3,0);
    for(int k=0;k<K;k++){ int op=vs_choice("op",4), i=vs_choice("i",3), j=vs_choice("j",3); if(moved[j]) continue;
      if(op==0){ TimeSeries*c=new TimeSeries(*p[j]); delete p[i]; if(i==j){ p[i]=c; } else { p[i]=c; m[i]=m[j]; own[i]=own[j]; } moved[i]=0; }
      else if(op==1){ *p[i]=*p[j]; m[i]=m[j]; own[i]=own[j]; moved[i]=0; }
      else if(op==2){ if(i==j) continue; *p[i]=std::move(*p[j]); m[i]=m[j]; own[i]=own[j]; moved[i]=0; moved[j]=1; }
      else { if(moved[i]||!own[i]) continue; bool th=throws([&]{ *p[i]+=*p[j]; }); vs_assert(th==(m[i].size()!=m[j].size()),"adding succeeds exactly for equal lengths"); if(!th){ std::vector<double> o=m[j]; for(size_t q=0;q<o.size();q++) m[i][q]+=o[q]; } } }
    for(int i=0;i<3;i++) if(!moved[i]){ vs_assert(p[i]->getLength()==(int)m[i].size(),"a series has the length of its source"); for(size_t q=0;q<m[i].size();q++) vs_assert_eq((*p[i])[q],m[i][q],"a series keeps its own correct contents"); bool first=i!=1; envelopeOk(*p[i],m[i],1,first); envelopeOk(*p[i],m[i],0,first); envelopeOk(*p[i],m[i],2,first); }
    for(int i=0;i<4;i++) vs_assert_same(base[i],bv[i],"viewed data is not changed");
    for(int i=0;i<3;i++) delete p[i]; }
  vs_leak_check("series release everything they allocate"); vs_reach("done"); }
extern "C" void c22_set(){
  Table t(2,3,"x"), u(1,2,"y"); t.write("in"); u.write("in2"); int K=vs_param("steps",2); std::string p1=vs_path("in"),p2=vs_path("in2"),p3=vs_path("nofile"),sep=" ",deflt=""; 
  vs_leak_begin();
  { TimeSeriesSet s; s.loadData(p1,0,0,sep);
    for(int k=0;k<K;k++) switch(vs_choice("op",7)){ case 0: s.loadData(p1,0,0,sep); break; case 1: s.loadData(p2,0,0,sep); break; case 2: throws([&]{ s.loadData(p3,0,0,sep); }); break; case 3: s.clearData(); break; case 4: if(s.isLoaded()) s.PAA(2); break; case 5: throws([&]{ s.normalize(); }); break; case 6: if(s.isLoaded()){ TimeSeries x=s.getTimeSeries(0); x.getKeoghLower(1); TimeSeries y=x; y=s.getTimeSeries(0,0,1); } break; } }
  vs_leak_check("datasets release everything they allocate"); vs_reach("done"); }
extern "C" void c22_groups(){
  Table t(2,3,"x"); t.write("in"); std::string p1=vs_path("in"),sep=" ",e="euclidean",g=vs_path("g"); int K=vs_param("steps",2); double th=vs_choice("th",2)?100:0.0001;
  vs_leak_begin();
  { GroupableTimeSeriesSet s; s.loadData(p1,0,0,sep);
    for(int k=0;k<K;k++) switch(vs_choice("op",5)){ case 0: s.groupAllLengths(e,th); break; case 1: s.reset(); break; case 2: if(s.isGrouped()){ TimeSeries q=s.getTimeSeries(0,0,2); candidate_time_series_t c=s.getBestMatch(q); candidate_time_series_t d=c; d=c; } break; case 3: if(s.isGrouped()){ s.saveGroups(g,false); s.loadGroups(g); } break; case 4: throws([&]{ s.groupAllLengths("nonsense",th); }); break; } }
  vs_leak_check("groups release everything they allocate"); vs_reach("done"); }
