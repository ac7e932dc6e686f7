#include "groups.hpp"
using namespace onex;
static const char* DIST[]={"euclidean","euclidean_dtw"};
// fixed parts of the data are computed with rounding: borders within this margin are not judged
static const double SLACK=1e-7;
static double sumSq(const std::vector<double>&rep,const Table&t,int idx,int start){ double s=0; for(size_t j=0;j<rep.size();j++) s+=sq(rep[j]-t.at(idx,start+j)); return s; }
static double pick(double*v,int n,const char*name){ return v[vs_choice(name,n)]; }
static double anyThreshold(){ double T[]={0,0.001,1,3,40}; int k=vs_param("th",-1); if(k>=0) return T[k]; return vs_real("threshold",0,40); }
// ---- C01: whole space, as saved
extern "C" void c01_partition(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t=partly(n,l,vs_param("sym",100),vs_param("kind",0)); GroupableTimeSeriesSet s; loadTable(s,t); onex::setWarpingBandRatio(vs_param("band",1)/2.0); double th=anyThreshold(); int d=vs_param("dist",0);
  int c=s.groupAllLengths(DIST[d],th); vs_assert(s.isGrouped(),"a grouped dataset reports it"); s.saveGroups(vs_path("g"),false); GroupFile g=readGroups("g"); assertPartition(g,n,l,"groups partition the subsequences of every length"); vs_assert(g.total()==c,"the reported group count is the total over all lengths");
  if(vs_param("sizes",0)){ s.saveGroups(vs_path("s"),true); std::ifstream f(vs_path("s")); std::string line; std::getline(f,line); std::getline(f,line); std::getline(f,line); for(int len=2;len<=l;len++){ int k=-1; f>>k; vs_assert(k==(int)g.byLength[len].size(),"the sizes file lists every group"); for(int i=0;i<k;i++){ int z=-1; f>>z; vs_assert(z==(int)g.byLength[len][i].members.size(),"a group's reported size is its number of members"); } } int x; f>>x; vs_assert(!f,"the sizes file lists nothing else"); }
  vs_reach(c==(l-1)*(1)?"one group per length":"several groups"); }
// one length at a time, through the classes
static void local(int n,int l,int len,bool quality){
  Table t=partly(n,l,vs_param("sym",100),vs_param("kind",0)); TimeSeriesSet s; loadTable(s,t); double th=anyThreshold(); LocalLengthGroupSpace g(s,len); int c=g.generateGroups(pairwiseDistance,th); vs_assert(c==g.getNumberOfGroups(),"the reported group count is the number of groups");
  int sub=l-len+1; std::vector<int> of(n*sub,-1); std::vector<std::vector<double>> reps;
  for(int i=0;i<g.getNumberOfGroups();i++){ const Group*q=g.getGroup(i); std::vector<TimeSeries> m=q->getMembers(); vs_assert(!m.empty(),"no group is empty"); vs_assert((int)m.size()==q->getCount(),"a group's reported size is its number of members"); vs_assert(q->getMemberLength()==len,"a group holds subsequences of its length");
    std::vector<double> r; for(int j=0;j<len;j++) r.push_back(q->getCentroid()[j]); reps.push_back(r);
    for(auto&x:m){ int a=vs_concrete(x.getIndex()), b=vs_concrete(x.getStart()); vs_assert(a>=0&&a<n&&b>=0&&b<sub&&x.getLength()==len,"members are subsequences of the dataset"); vs_assert(of[a*sub+b]<0,"no subsequence is in two groups"); of[a*sub+b]=i; for(int j=0;j<len;j++) vs_assert_same(x[j],t.at(a,b+j),"members are subsequences of the dataset"); } }
  for(int x:of) vs_assert(x>=0,"every subsequence is in a group");
  if(quality){ int next=0; // in processing order
    for(int b=0;b<sub;b++) for(int a=0;a<n;a++){ int i=of[a*sub+b]; double own=sumSq(reps[i],t,a,b); bool founder= i==next;
      vs_assert(i<=next,"a subsequence joins a group that exists");
      if(founder){ next++; for(int j=0;j<len;j++) vs_assert_same(reps[i][j],t.at(a,b+j),"the representative is the subsequence that founded the group"); for(int k=0;k<i;k++) vs_assert_le(th*th*len,4*sumSq(reps[k],t,a,b)+SLACK,"a subsequence founds a group only if no representative is near"); vs_reach(i?"second group":"first group"); }
      else { vs_assert_le(4*own,th*th*len+SLACK,"members are within half the threshold of their representative"); for(int k=0;k<next;k++) if(k!=i) vs_assert_le(own,sumSq(reps[k],t,a,b)+SLACK,"a subsequence joins the nearest group"); vs_reach("joined"); } } }
  vs_reach("done"); }
extern "C" void c01_local(){ local(vs_param("n",2),vs_param("l",3),vs_param("len",2),false); }
extern "C" void c02_local(){ local(vs_param("n",2),vs_param("l",3),vs_param("len",2),true); }
// ---- C02 as saved: representative and distance, every length at once
extern "C" void c02_saved(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t=partly(n,l,vs_param("sym",100),vs_param("kind",0)); GroupableTimeSeriesSet s; loadTable(s,t); double th=anyThreshold(); s.groupAllLengths("euclidean",th); s.saveGroups(vs_path("g"),false); GroupFile g=readGroups("g"); vs_assert(g.ok,"groups can be saved"); vs_assert_eq(g.threshold,th,"the threshold is saved");
  for(int len=2;len<=l;len++) for(auto&r:g.byLength[len]){ bool own=false; for(auto&m:r.members){ double d=sumSq(r.rep,t,m.first,m.second); vs_assert_le(4*d,th*th*len+SLACK,"members are within half the threshold of their representative"); bool same=true; for(int j=0;j<len;j++) if(r.rep[j]!=t.at(m.first,m.second+j)) same=false; own=own||same; } vs_assert(own,"the representative is a member"); } vs_reach("done"); vs_reach("first group"); vs_reach("second group"); vs_reach("joined"); }
// ---- C21
static std::string saved(GroupableTimeSeriesSet&s,const char*f){ s.saveGroups(vs_path(f),false); std::string r; long k=vs_file_len(f); for(long i=0;i<k;i++) r+=(char)vs_file_get(f,i); return r; }
extern "C" void c21_sizes(){ // however few series or points; also long logs
  int n=1+vs_choice("n",vs_param("maxn",8)), l=1+vs_choice("l",vs_param("maxl",7)); Table t=wild(n,l,vs_choice("kind",3)); GroupableTimeSeriesSet s; loadTable(s,t); vs_clock_mode(2); double T[]={0,0.5,100}; double th=T[vs_choice("th",3)]; int c=-1; bool e=throws([&]{ c=s.groupAllLengths("euclidean",th); });
  vs_assert(!e,"every loaded dataset can be grouped"); vs_assert(s.isGrouped(),"every loaded dataset can be grouped"); s.saveGroups(vs_path("g"),false); GroupFile g=readGroups("g"); vs_assert(g.total()==c,"the reported group count is the total over all lengths"); assertPartition(g,n,l,"every loaded dataset can be grouped"); vs_reach("grouped"); }
extern "C" void c21_clock(){ // any sequence of clock readings against a frozen clock
  int n=vs_param("n",2), l=vs_param("l",4); Table t=wild(n,l,vs_choice("kind",3)); GroupableTimeSeriesSet a,b; loadTable(a,t); loadTable(b,t); double T[]={0,0.5,2,100}; double th=T[vs_choice("th",4)]; vs_clock_mode(0); int ca=a.groupAllLengths("euclidean",th); vs_clock_mode(1); int cb=b.groupAllLengths("euclidean",th); vs_clock_mode(0);
  vs_assert(ca==cb&&saved(a,"a")==saved(b,"b"),"grouping does not depend on the clock"); vs_reach("compared"); }
extern "C" void c21_symbolic(){ // progress reporting against silence, on any values
  int n=vs_param("n",2), l=vs_param("l",3); Table t=partly(n,l,vs_param("sym",100),vs_param("kind",0)); GroupableTimeSeriesSet a,b; loadTable(a,t); loadTable(b,t); double th=anyThreshold(); vs_clock_mode(0); int ca=a.groupAllLengths("euclidean",th); vs_clock_mode(2); int cb=b.groupAllLengths("euclidean",th); vs_clock_mode(0); vs_assert(ca==cb,"grouping does not depend on the clock");
  a.saveGroups(vs_path("a"),false); b.saveGroups(vs_path("b"),false); GroupFile f=readGroups("a"),g=readGroups("b"); vs_assert(f.ok&&g.ok,"groups can be saved"); for(int len=2;len<=l;len++){ vs_assert(f.byLength[len].size()==g.byLength[len].size(),"grouping does not depend on the clock"); for(size_t i=0;i<f.byLength[len].size();i++) vs_assert(sameMembers(f.byLength[len][i],g.byLength[len][i]),"grouping does not depend on the clock"); } vs_reach("compared"); }
// ---- C29
extern "C" void c29_regroup(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t=partly(n,l,vs_param("sym",100),vs_param("kind",0)); GroupableTimeSeriesSet a,b; loadTable(a,t); loadTable(b,t); double T[]={0,1,3,40}; int steps=vs_param("steps",1); onex::setWarpingBandRatio(0.5);
  for(int i=0;i<steps;i++){ int o=vs_choice("op",6); if(o<4) a.groupAllLengths("euclidean",T[o]); else if(o==4) a.groupAllLengths("euclidean_dtw",T[vs_param("dtwth",1)]); else vs_assert(throws([&]{ a.groupAllLengths("nonsense",1); }),"an unknown distance is refused"); }
  double th=vs_param("symth",0)?vs_real("threshold",0.1,12):T[1+vs_choice("th",2)]; int ca=a.groupAllLengths("euclidean",th), cb=b.groupAllLengths("euclidean",th); vs_assert(ca==cb,"regrouping gives the groups of fresh grouping");
  a.saveGroups(vs_path("a"),false); b.saveGroups(vs_path("b"),false); GroupFile f=readGroups("a"),g=readGroups("b"); vs_assert(f.ok&&g.ok&&f.name==g.name,"regrouping replaces the distance"); vs_assert_same(f.threshold,g.threshold,"regrouping replaces the threshold");
  for(int len=2;len<=l;len++){ vs_assert(f.byLength[len].size()==g.byLength[len].size(),"regrouping gives the groups of fresh grouping"); for(size_t i=0;i<f.byLength[len].size();i++){ vs_assert(sameMembers(f.byLength[len][i],g.byLength[len][i]),"regrouping gives the groups of fresh grouping"); for(int j=0;j<len;j++) vs_assert_same(f.byLength[len][i].rep[j],g.byLength[len][i].rep[j],"regrouping gives the groups of fresh grouping"); } } vs_reach("regrouped"); }
extern "C" void c29_fails(){
  Table t=wild(2,4,vs_choice("kind",3)); GroupableTimeSeriesSet s; bool data=vs_choice("data",2); if(data) loadTable(s,t); double T[]={0,1,40}; bool pre=data&&vs_choice("pre",2); if(pre) s.groupAllLengths("euclidean",T[vs_choice("th",3)]); std::string before= pre?saved(s,"b"):"";
  static const char*N[]={"","Euclidean","euclid","euclidean ","dtw","euclidean_dtw_","euclidean"}; int k=vs_choice("name",data?6:7); vs_assert(throws([&]{ s.groupAllLengths(N[k],1); }),data?"an unknown distance is refused":"a dataset without data is not grouped");
  if(s.isGrouped()){ vs_assert(pre,"a failed grouping request does not half group"); vs_assert(saved(s,"a")==before,"after a failed request the dataset is grouped as before or not grouped"); vs_reach("kept"); }
  else { vs_assert(throws([&]{ s.saveGroups(vs_path("x"),false); }),"a dataset that is not grouped has no groups to save"); data_t q[2]={1,2}; TimeSeries Q(q,0,0,2); vs_assert(throws([&]{ s.getBestMatch(Q); }),"a dataset that is not grouped refuses to match"); vs_reach("refused"); }
  if(data){ int c=s.groupAllLengths("euclidean",1); GroupableTimeSeriesSet f; loadTable(f,t); vs_assert(c==f.groupAllLengths("euclidean",1)&&saved(s,"c")==saved(f,"d"),"grouping after a failed request is as fresh"); } }
extern "C" void c29_api(){ // through the API: not loaded, not existing
  OnexAPI a; Table t=wild(2,3,0); t.write("in"); int id=a.loadDataset(vs_path("in"),0,0," ").id; int k=vs_int("id",-3,3); bool e=throws([&]{ a.groupDataset(k,1); }); vs_assert(e==(k!=id),"grouping an id that is not in use is refused"); vs_assert(a.getDatasetInfo(id).isGrouped==!e,"a refused grouping request changes nothing"); vs_reach(e?"refused":"regrouped"); }
// values and thresholds at the edge of the numeric range, and fields that are not finite
extern "C" void c21_extreme(){
  static const char*W[]={"3","1e30","-1e30","nan","inf","-inf"}; int big=sizeof(data_t)==8; static const char*D[]={"3","1e200","-1e200","nan","inf","-inf"}; const char**w=big?D:W; int n=2,l=3; std::string s; int kind=vs_choice("kind",4); for(int i=0;i<n;i++){ for(int j=0;j<l;j++){ int k= kind==0?vs_choice("v",3): kind==1?(vs_choice("v",2)?3:0): kind==2?(vs_choice("v",2)?4:0): ((i*l+j)==vs_param("at",2)?vs_choice("v",6):(i+j)%3); if(j) s+=" "; s+=w[k]; } s+="\n"; }
  vs_file_put("in",s.data(),s.size()); GroupableTimeSeriesSet d; std::string p=vs_path("in"),sp=" "; if(throws([&]{ d.loadData(p,0,0,sp); })){ vs_reach("not loaded"); return; }
  double inf=std::numeric_limits<double>::infinity(); const double T[]={1,inf,-1,std::numeric_limits<double>::quiet_NaN(),0}; int c=d.groupAllLengths(vs_choice("dist",2)?"euclidean_dtw":"euclidean",(data_t)T[vs_choice("th",5)]); d.saveGroups(vs_path("g"),true); std::ifstream f(vs_path("g")); std::string line; for(int i=0;i<3;i++) std::getline(f,line); int total=0, members=0; for(int L=2;L<=l;L++){ int k=-1; f>>k; total+=k; for(int i=0;i<k;i++){ int z=-1; f>>z; vs_assert(z>0,"every loaded dataset can be grouped"); members+=z; } } vs_assert(f&&total==c&&members==n*2+n,"every loaded dataset can be grouped");
  for(int L=2;L<=l;L++){ LocalLengthGroupSpace sp2(d,L); sp2.generateGroups(pairwiseDistance,(data_t)T[vs_param("th2",0)]); int cnt=0; for(int i=0;i<sp2.getNumberOfGroups();i++) cnt+=sp2.getGroup(i)->getMembers().size(); vs_assert(cnt==n*(l-L+1),"every loaded dataset can be grouped"); }
  onex::setWarpingBandRatio(0.5); data_t q[2]={1,2}; TimeSeries Q(q,0,0,2); candidate_time_series_t m; bool th=false; try { m=d.getBestMatch(Q); } catch(OnexException&){ th=true; } if(!th) vs_assert(m.data.getIndex()>=0&&m.data.getIndex()<n&&m.data.getLength()>=2&&m.data.getEnd()<=l,"a match on any loaded dataset is inside it"); vs_reach("grouped"); }
