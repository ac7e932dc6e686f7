// Searching: C08, C09, C10, C20, C25, C27.
#include "groups.hpp"
namespace onex { std::vector<int> generateTraverseOrder(int,int); }
using namespace onex;
static double thr(){ double T[]={0,1,3,40,8}; return T[vs_param("th",1)]; }
// any query: `qsym` symbolic points, the rest fixed
struct Query { std::vector<data_t> v; int m; Query(int M,int qsym):v(M),m(M){ for(int i=0;i<M;i++){ int at=(i*3+1)%M; (void)at; v[i]=(i*5+2)%7-2.5; } for(int k=0;k<qsym&&k<M;k++) v[(M/2+k)%M]=(data_t)vs_real("q",-10,10); } };
struct Found { int idx,start,len; };
static Found real(const candidate_time_series_t&c,const Table&t,int m,double ratio){
  Found f; f.idx=vs_concrete(c.data.getIndex()); f.start=vs_concrete(c.data.getStart()); f.len=vs_concrete(c.data.getLength());
  vs_assert(f.idx>=0&&f.idx<t.n&&f.start>=0&&f.len>=2&&f.start+f.len<=t.l,"the match is a subsequence of the searched dataset");
  int L=f.len>m?f.len:m, d=f.len>m?f.len-m:m-f.len; vs_assert(d<=bandOf(L,ratio),"the match's length is within the band of the query length");
  for(int j=0;j<f.len;j++) vs_assert_same(c.data[j],t.at(f.idx,f.start+j),"the match's values are those of the dataset"); return f; }
static std::vector<data_t> sub(const Table&t,int i,int s,int len){ std::vector<data_t> r; for(int j=0;j<len;j++) r.push_back((data_t)t.at(i,s+j)); return r; }
static double setBand(int m,int l){ int b=vs_param("ratio",-1); double r= b>=0?RATIOS[b]:RATIOS[vs_choice("ratio",7)]; onex::setWarpingBandRatio(r); return r; }
// parameter "loaded": the groups come from a file
static void reloadGroups(GroupableTimeSeriesSet&s){ if(vs_param("loaded",0)){ std::string g=vs_path("g"); s.saveGroups(g,false); s.loadGroups(g); } }
// ---- C08
extern "C" void c08_match(){
  int n=vs_param("n",2), l=vs_param("l",3), m=vs_param("m",2); Table t=partly(n,l,vs_param("sym",0),vs_param("kind",0)); GroupableTimeSeriesSet s; loadTable(s,t); s.groupAllLengths(vs_param("dist",0)?"euclidean_dtw":"euclidean",thr()); double r=setBand(m,l);
  reloadGroups(s); Query q(m,vs_param("qsym",100)); TimeSeries Q(&q.v[0],0,0,m); bool any=false; for(int L=2;L<=l;L++){ int x=L>m?L:m,d=L>m?L-m:m-L; if(d<=bandOf(x,r)) any=true; }
  bool th=false; candidate_time_series_t c; try { c=s.getBestMatch(Q); } catch(OnexException&){ th=true; } vs_assert(th==!any,"a query is answered exactly if a grouped length is within the band"); if(th){ vs_reach("refused"); return; }
  Found f=real(c,t,m,r); std::vector<data_t> x=sub(t,f.idx,f.start,f.len); double d=trueWarped(&q.v[0],m,&x[0],f.len,r); vs_assert_eq(c.dist,d,"the reported distance is the warped distance to the match"); vs_reach("matched"); }
// through the API: query from any dataset at any position, also from the searched one
extern "C" void c08_api(){
  int n=2,l=4; Table t=partly(n,l,0,vs_choice("kind",2)*2), u=partly(2,5,vs_param("qsym",1),3); t.write("t"); u.write("u"); OnexAPI a; std::string tp=vs_path("t"),up=vs_path("u"); a.loadDataset(tp,0,0," "); a.loadDataset(up,0,0," "); double r=RATIOS[vs_param("ratio",2)]; a.groupDataset(0,thr()); if(vs_param("loaded",0)){ std::string g=vs_path("g"); a.saveGroup(0,g,false); a.loadGroup(0,g); } a.setWarpingBandRatio(r);
  int src=vs_choice("from",2), k=vs_choice("series",2), b=vs_choice("start",3), e=b+2+vs_choice("more",2); if(e>(src?5:4)) e=src?5:4; if(e-b<2) return; const Table&o=src?u:t; std::vector<data_t> q=sub(o,k,b,e-b); int m=e-b;
  candidate_time_series_t c=a.getBestMatch(0,src,k,b,e); Found f=real(c,t,m,r); std::vector<data_t> x=sub(t,f.idx,f.start,f.len); vs_assert_eq(c.dist,trueWarped(&q[0],m,&x[0],f.len,r),"the reported distance is the warped distance to the match"); vs_reach("matched"); vs_reach("refused"); }
// ---- C09
extern "C" void c09_nearest(){
  int n=vs_param("n",2), l=vs_param("l",3), m=vs_param("m",2); Table t=partly(n,l,vs_param("sym",0),vs_param("kind",0)); GroupableTimeSeriesSet s; loadTable(s,t); s.groupAllLengths(vs_param("dist",0)?"euclidean_dtw":"euclidean",thr()); double r=setBand(m,l); s.saveGroups(vs_path("g"),false); GroupFile g=readGroups("g"); vs_assert(g.ok,"groups can be saved"); reloadGroups(s);
  Query q(m,vs_param("qsym",100)); TimeSeries Q(&q.v[0],0,0,m); bool th=false; candidate_time_series_t c; try { c=s.getBestMatch(Q); } catch(OnexException&){ th=true; } if(th) { vs_reach("refused"); return; }
  int fi=vs_concrete(c.data.getIndex()), fs=vs_concrete(c.data.getStart()), fl=vs_concrete(c.data.getLength()); vs_assert(fl>=2&&fl<=l,"the match is in a group"); const GroupRec*own=0; for(auto&x:g.byLength[fl]) for(auto&y:x.members) if(vs_concrete(y.first)==fi&&vs_concrete(y.second)==fs) own=&x; vs_assert(own!=0,"the match is in a group");
  std::vector<data_t> rep(own->rep.begin(),own->rep.end()); double d=trueWarped(&rep[0],fl,&q.v[0],m,r);
  for(int L=2;L<=l;L++){ int x=L>m?L:m,w=L>m?L-m:m-L; if(w>bandOf(x,r)) continue; for(auto&o:g.byLength[L]){ if(&o==own) continue; std::vector<data_t> p(o.rep.begin(),o.rep.end()); if(p.size()==rep.size()&&p==rep) continue; leWarped(d,&p[0],L,&q.v[0],m,r,"no group has a nearer representative"); vs_reach("other groups"); } }
  for(auto&y:own->members){ int a=vs_concrete(y.first),b=vs_concrete(y.second); if(a==fi&&b==fs) continue; std::vector<data_t> p=sub(t,a,b,fl); leWarped(c.dist,&q.v[0],m,&p[0],fl,r,"no member of the group is nearer"); vs_reach("other members"); }
  vs_reach("matched"); }
// ---- C10
static void orderOk(const std::vector<int>&o,int q,int total,const std::vector<int>&band){ // band[L]: floor(L*ratio) capped
  std::vector<int> seen(total+1,0); int lo=q, hi=q; for(size_t i=0;i<o.size();i++){ int L=o[i]; vs_assert(L>=2&&L<=total,"only grouped lengths are searched"); vs_assert(!seen[L],"no length is searched twice"); seen[L]=1; if(q<=total) vs_assert((i==0)==(L==q),"the query's own length is searched first"); if(L<q){ vs_assert(L<lo,"nearer lengths are searched first"); lo=L; } if(L>q){ vs_assert(L>hi,"nearer lengths are searched first"); hi=L; } }
  for(int L=2;L<=total;L++){ int x=L>q?L:q,d=L>q?L-q:q-L; vs_assert((seen[L]!=0)==(d<=band[x]),"exactly the lengths within the band are searched"); if(seen[L]&&L!=q) vs_reach("other length"); if(!seen[L]) vs_reach("left out"); } }
extern "C" void c10_order(){ // any ratio
  int total=vs_param("total",6), q=vs_param("q",0); if(!q) q=2+vs_choice("q",total+3-1); double r=vs_real("ratio",0,1); onex::setWarpingBandRatio(r);
  std::vector<int> band(total+4+1,0); int top=q>total?q:total; for(int x=2;x<=top;x++) band[x]=0;
  std::vector<int> o=generateTraverseOrder(q,total);
  // definition: L is in the band of the longer length x iff d <= floor(x*ratio) iff d <= x*ratio, and d <= x-1
  std::vector<int> seen(total+1,0); int lo=q, hi=q; for(size_t i=0;i<o.size();i++){ int L=vs_concrete(o[i]); vs_assert(L>=2&&L<=total,"only grouped lengths are searched"); vs_assert(!seen[L],"no length is searched twice"); seen[L]=1; if(q<=total) vs_assert((i==0)==(L==q),"the query's own length is searched first"); if(L<q){ vs_assert(L<lo,"nearer lengths are searched first"); lo=L; } if(L>q){ vs_assert(L>hi,"nearer lengths are searched first"); hi=L; } }
  for(int L=2;L<=total;L++){ int x=L>q?L:q,d=L>q?L-q:q-L; vs_assert((seen[L]!=0)==(d<=x*r&&d<=x-1),"exactly the lengths within the band are searched"); if(seen[L]&&L!=q) vs_reach("other length"); if(!seen[L]) vs_reach("left out"); } }
extern "C" void c10_long(){ // long series, many ratios
  static const double R[]={0,0.01,0.05,0.1,0.15,0.2,0.25,0.3,0.45,0.5,0.75,0.9,1}; int k=vs_choice("ratio",13), total=vs_param("total",30), q=2+vs_choice("q",total+6); onex::setWarpingBandRatio(R[k]); std::vector<int> band(total+10,0); for(int x=2;x<(int)band.size();x++) band[x]=bandOf(x,R[k]); orderOk(generateTraverseOrder(q,total),q,total,band); }
// the lengths actually searched: a dataset whose only exact match has the given length
extern "C" void c10_match(){
  int l=vs_param("l",5), m=2+vs_choice("m",l+1); double r=vs_real("ratio",0,1); onex::setWarpingBandRatio(r); Table t(1,l,"unused"); for(int j=0;j<l;j++) t.v[j]=j*j; GroupableTimeSeriesSet s; loadTable(s,t); s.groupAllLengths("euclidean",0); std::vector<data_t> q(m); int L=2+vs_choice("len",l-1), at=vs_choice("at",l-L+1);
  // a query that the subsequence (L, at) matches at distance 0 when stretched or shrunk onto it
  for(int i=0;i<m;i++){ int p= m==1?0:(i*(L-1))/(m-1); q[i]=t.v[at+p]; } TimeSeries Q(&q[0],0,0,m); bool any=false; for(int k=2;k<=l;k++){ int x=k>m?k:m,d=k>m?k-m:m-k; if(d<=x*r&&d<=x-1) any=true; }
  candidate_time_series_t c; bool th=false; try{ c=s.getBestMatch(Q); } catch(OnexException&){ th=true; } vs_assert(th==!any,"a query is answered exactly if a grouped length is within the band"); if(th){ vs_reach("left out"); return; }
  int f=vs_concrete(c.data.getLength()); int x=f>m?f:m,d=f>m?f-m:m-f; vs_assert(d<=x*r,"exactly the lengths within the band are searched"); 
  if(L==m){ vs_assert_eq(c.dist,0,"the query's own length is searched"); } vs_reach("other length"); }
// ---- C25
extern "C" void c25_api(){
  OnexAPI a; Table t=wild(2,4,0), u=wild(1,6,2); t.write("t"); u.write("u"); std::string tp=vs_path("t"),up=vs_path("u"); a.loadDataset(tp,0,0," "); a.loadDataset(up,0,0," "); bool grouped=vs_choice("grouped",2); if(grouped) a.groupDataset(0,thr()); double r=RATIOS[vs_choice("ratio",7)]; a.setWarpingBandRatio(r);
  int k=vs_int("searched",-2,3), j=vs_int("querying",-2,3), i=vs_int("series",-2,3), b=vs_int("start",-3,8), e=vs_int("end",-3,8);
  bool ok=false; if(grouped&&k==0&&(j==0||j==1)){ j=vs_concrete(j); int cnt=j?1:2, len=j?6:4; if(i>=0&&i<cnt&&((b>=0&&b<e&&e<=len)||(b<0&&e<0))){ k=0; i=vs_concrete(i); b=vs_concrete(b); e=vs_concrete(e); int m=b<0?len:e-b; for(int L=2;L<=4;L++){ int x=L>m?L:m,d=L>m?L-m:m-L; if(m>=2&&d<=bandOf(x,r)) ok=true; } } }
  bool th=false; candidate_time_series_t c; try { c=a.getBestMatch(k,j,i,b,e); } catch(OnexException&){ th=true; }
  vs_assert(th==!ok,"exactly the queries that cannot be answered are refused"); vs_reach(th?"refused":"answered"); if(!th){ int f=vs_concrete(c.data.getLength()); vs_assert(f>=2&&f<=4,"an answered query has a match"); } }
extern "C" void c25_short(){ // short queries, tiny datasets
  int l=1+vs_choice("l",3), m=vs_choice("m",5), n=1+vs_choice("n",2); Table t=wild(n,l,0); GroupableTimeSeriesSet s; loadTable(s,t); s.groupAllLengths("euclidean",1); double r=RATIOS[vs_choice("ratio",7)]; onex::setWarpingBandRatio(r); std::vector<data_t> q(m+1); for(int i=0;i<m;i++) q[i]= i==m/2?(data_t)vs_real("q",-8,8):i;
  bool any=false; for(int L=2;L<=l;L++){ int x=L>m?L:m,d=L>m?L-m:m-L; if(d<=bandOf(x,r)) any=true; } TimeSeries Q(&q[0],0,0,m); bool th=throws([&]{ s.getBestMatch(Q); }); vs_assert(th==(m<2||!any),"exactly the queries that cannot be answered are refused"); vs_reach(th?"refused":"answered"); }
extern "C" void c25_long(){ // queries longer than the series
  int l=vs_param("l",3), m=l+1+vs_choice("more",4); Table t=wild(2,l,0); GroupableTimeSeriesSet s; loadTable(s,t); s.groupAllLengths("euclidean",1); double r=vs_real("ratio",0,1); onex::setWarpingBandRatio(r); std::vector<data_t> q(m); for(int i=0;i<m;i++) q[i]=(i*3)%5; bool any= m-l<=m*r&&m-l<=m-1; TimeSeries Q(&q[0],0,0,m); candidate_time_series_t c; bool th=false; try{ c=s.getBestMatch(Q); } catch(OnexException&){ th=true; } vs_assert(th==!any,"exactly the queries that cannot be answered are refused"); vs_reach(th?"refused":"answered"); if(!th) vs_assert(c.data.getIndex()>=0&&c.data.getIndex()<2&&c.data.getEnd()<=l,"an answered query has a match"); }
// ---- C27
static std::string bytes(const char*f){ std::string r; long k=vs_file_len(f); for(long i=0;i<k;i++) r+=(char)vs_file_get(f,i); return r; }
struct Snap { std::string data,groups; dataset_info_t info; };
static Snap snap(OnexAPI&a,int id){ Snap s; s.info=a.getDatasetInfo(id); a.saveDataset(id,vs_path("sd"),' '); s.data=bytes("sd"); if(s.info.isGrouped){ a.saveGroup(id,vs_path("sg"),false); s.groups=bytes("sg"); } return s; }
static void sameSnap(const Snap&a,const Snap&b){ const char*m="queries and exports change nothing"; vs_assert(a.data==b.data,m); vs_assert(a.groups==b.groups,m); vs_assert(a.info.itemCount==b.info.itemCount&&a.info.itemLength==b.info.itemLength&&a.info.isGrouped==b.info.isGrouped&&a.info.isNormalized==b.info.isNormalized&&a.info.name==b.info.name&&a.info.id==b.info.id,m); }
extern "C" void c27_history(){
  Table t=partly(2,4,vs_param("sym",0),vs_choice("kind",2)*2), u=partly(2,4,vs_param("qsym",1),3); t.write("t"); u.write("u"); OnexAPI a; std::string tp=vs_path("t"),up=vs_path("u"); a.loadDataset(tp,0,0," "); a.loadDataset(up,0,0," "); a.groupDataset(0,thr()); if(vs_choice("norm",2)) a.normalizeDataset(1); double r=RATIOS[vs_param("ratio",3)]; a.setWarpingBandRatio(r);
  Snap x=snap(a,0), y=snap(a,1); int qb=vs_choice("qb",2); candidate_time_series_t c=a.getBestMatch(0,1,1,qb,qb+3);
  for(int i=0;i<vs_param("steps",2);i++){ int o=vs_choice("op",7);
    if(o==0) a.getBestMatch(0,1,0,0,2); else if(o==1){ a.getBestMatch(0,0,1,0,4); a.getBestMatch(0,0,1,qb,qb+3); } else if(o==2) throws([&]{ a.getBestMatch(1,0,0,0,3); }); else if(o==3){ a.setWarpingBandRatio(RATIOS[vs_choice("other",4)]); throws([&]{ a.getBestMatch(0,1,0,0,4); }); throws([&]{ a.getBestMatch(0,1,1,qb,qb+3); }); a.setWarpingBandRatio(r); } else if(o==4){ a.getAllDatasetInfo(); a.getDatasetCount(); a.getDatasetInfo(1); } else if(o==5){ a.saveDataset(0,vs_path("e"),','); a.saveGroup(0,vs_path("e"),vs_choice("sizes",2)); } else { throws([&]{ a.loadGroup(0,vs_path("none")); }); throws([&]{ a.saveGroup(1,vs_path("e"),false); }); throws([&]{ a.getDatasetInfo(7); }); } }
  sameSnap(x,snap(a,0)); sameSnap(y,snap(a,1)); candidate_time_series_t d=a.getBestMatch(0,1,1,qb,qb+3);
  vs_assert(c.data.getIndex()==d.data.getIndex()&&c.data.getStart()==d.data.getStart()&&c.data.getLength()==d.data.getLength(),"the same query has the same answer"); vs_assert_same(c.dist,d.dist,"the same query has the same answer"); vs_reach("repeated"); }
extern "C" void c27_other(){ // the dataset queries came from changes afterwards: the searched dataset does not
  Table t=partly(2,3,vs_param("sym",0),vs_choice("kind",2)*2); t.write("t"); OnexAPI a; std::string tp=vs_path("t"); a.loadDataset(tp,0,0," "); a.loadDataset(tp,0,0," "); a.loadDataset(tp,0,0," "); a.groupDataset(0,thr()); a.setWarpingBandRatio(0.5); int k=vs_choice("k",2), b=vs_choice("b",2), e=b+2+(b?0:vs_choice("e",2));
  Snap x=snap(a,0), z=snap(a,2); candidate_time_series_t c=a.getBestMatch(0,1,k,b,e); if(vs_choice("more",2)) a.getBestMatch(0,1,1-k,-1,-1);
  int o=vs_choice("then",4); if(o==0) a.normalizeDataset(1); else if(o==1) a.PAA(1,2); else if(o==2) a.unloadDataset(1); else { a.groupDataset(1,0.5); a.getBestMatch(1,0,k,-1,-1); a.normalizeDataset(1); }
  sameSnap(x,snap(a,0)); sameSnap(z,snap(a,2)); candidate_time_series_t d=a.getBestMatch(0,2,k,b,e);
  vs_assert(c.data.getIndex()==d.data.getIndex()&&c.data.getStart()==d.data.getStart()&&c.data.getLength()==d.data.getLength(),"the same query has the same answer"); vs_assert_same(c.dist,d.dist,"the same query has the same answer"); sameSnap(x,snap(a,0)); vs_reach("repeated"); }
extern "C" void c27_distance(){ // distances leave both series alone, whatever the band was before
  int m=vs_param("m",3), n=vs_param("n",3); std::vector<data_t> p(m),q(n); fill(&p[0],m,"a"); fill(&q[0],n,"b"); std::vector<data_t> p0=p,q0=q; TimeSeries A(&p[0],0,0,m),B(&q[0],1,0,n); onex::setWarpingBandRatio(RATIOS[vs_choice("r",4)]); data_t d1=cascadeDistance(A,B,INF_); double keep=RATIOS[vs_choice("r2",4)]; onex::setWarpingBandRatio(keep); data_t e1=cascadeDistance(A,B,INF_);
  for(int i=0;i<2;i++){ int o=vs_choice("op",5); if(o==0) pairwiseDistance(A,A,INF_); if(o==1) warpedDistance(A,B,INF_); if(o==2) cascadeDistance(B,A,INF_); if(o==3){ onex::setWarpingBandRatio(1); keoghLowerBound(A,B,INF_); onex::setWarpingBandRatio(keep); } if(o==4){ onex::setWarpingBandRatio(0); crossKeoghLowerBound(A,B,INF_); onex::setWarpingBandRatio(keep); } }
  data_t e2=cascadeDistance(A,B,INF_); vs_assert_same(e1,e2,"the same query has the same answer"); (void)d1; for(int i=0;i<m;i++) vs_assert_same(A[i],p0[i],"queries and exports change nothing"); for(int i=0;i<n;i++) vs_assert_same(B[i],q0[i],"queries and exports change nothing"); vs_reach("repeated"); }
// ---- C20
extern "C" void c20_history(){
  Table t=partly(2,vs_param("l",4),vs_param("sym",0),0), u=wild(3,3,2); t.write("t"); u.write("u"); std::string tp=vs_path("t"),up=vs_path("u"),gp=vs_path("g"); onex::setWarpingBandRatio(0.5); { GroupableTimeSeriesSet o; o.loadData(tp,0,0," "); o.groupAllLengths("euclidean",1); o.saveGroups(gp,false); } vs_file_put("bad","1 2\n3\n",6); vs_file_put("badg","1 1 2 4\n2 5\neuclidean\n1\n1 2\n",28);
  GroupableTimeSeriesSet s; std::string bad=vs_path("bad"), badg=vs_path("badg"); s.loadData(tp,0,0," "); int steps=vs_param("steps",3); bool orig=true, foreign=false; // foreign: groups loaded from a file that was made for other values
  for(int i=0;i<steps;i++){ int o=vs_choice("op",vs_param("ops",10)); try { if(o==0){ s.groupAllLengths("euclidean",thr()); foreign=false; } else if(o==1){ orig=false; s.normalize(); } else if(o==2){ orig=false; s.PAA(2); } else if(o==3){ orig=false; bool w=vs_choice("which",2); s.loadData(w?up:tp,0,0," "); orig=!w; } else if(o==4){ s.loadGroups(gp); foreign=!orig; } else if(o==5) s.loadData(bad,0,0," "); else if(o==6) s.loadGroups(badg); else if(o==7) s.groupAllLengths("nonsense",1); else if(o==8){ s.groupAllLengths("euclidean_dtw",2); foreign=false; } else { data_t q[3]={1,2,4}; TimeSeries Q(q,0,0,s.getItemLength()<3?2:3); s.getBestMatch(Q); } } catch(OnexException&){} }
  // whatever happened: the answer is right for the data as they are now, or refused as not grouped
  int m=2; data_t q[2]={1.5,(data_t)vs_real("q",-9,9)}; TimeSeries Q(q,0,0,m); bool th=false; candidate_time_series_t c; try { c=s.getBestMatch(Q); } catch(OnexException&){ th=true; }
  bool answerable= s.isGrouped()&&s.getItemLength()>=2; vs_assert(th==!answerable,"a match is answered exactly if the dataset reports to be grouped"); if(th){ vs_reach("refused"); return; }
  int n=s.getItemCount(), l=s.getItemLength(); Table now(n,l,"unused"); for(int i=0;i<n;i++){ TimeSeries x=s.getTimeSeries(i); for(int j=0;j<l;j++) now.at(i,j)=x[j]; }
  Found f=real(c,now,m,0.5); std::vector<data_t> x=sub(now,f.idx,f.start,f.len); vs_assert_eq(c.dist,trueWarped(q,m,&x[0],f.len,0.5),"the answer is right for the current values");
  s.saveGroups(vs_path("h"),false); GroupFile g=readGroups("h"); assertPartition(g,n,l,"groups are those of the current data"); for(int L=2;L<=l;L++) for(auto&r:g.byLength[L]){ bool own=false; for(auto&y:r.members){ bool same=true; for(int j=0;j<L;j++) if(r.rep[j]-now.at(y.first,y.second+j)>1e-9||r.rep[j]-now.at(y.first,y.second+j)<-1e-9) same=false; own=own||same; } vs_assert(own||foreign,"groups represent the current values"); if(!foreign&&g.name=="euclidean") for(auto&y:r.members){ double d=0; for(int j=0;j<L;j++) d+=sq(r.rep[j]-now.at(y.first,y.second+j)); vs_assert_le(4*d,g.threshold*g.threshold*L+1e-9,"groups represent the current values"); } } vs_reach("answered"); }
