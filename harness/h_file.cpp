#include "groups.hpp"
using namespace onex;
static const char* SEPS[]={" ",",","\t",", ",";|"};
// C11
extern "C" void c11_table(){
  int n=vs_param("n",2), l=vs_param("l",3); const char*seps=SEPS[vs_choice("seps",5)]; int style=vs_choice("style",4), nl=vs_choice("lastnewline",2), max=vs_choice("max",n+3)-1, from=vs_choice("from",l);
  Table t(n,l,"x"); std::string s; int rows= max>0&&max<n?max:n;
  auto gap=[&]{ if(style==0) s+=seps[0]; else { s+=(char)vs_char("sep",seps); if(style>1) s+=(char)vs_char("sep",seps); } };
  for(int i=0;i<n;i++){ if(i>=rows&&style==3){ s+="junk"; if(i+1<n||nl) s+="\n"; continue; } if(style==2) gap(); for(int j=0;j<l;j++){ if(j) gap(); s+=numText(t.at(i,j)); } if(style==2) gap(); if(i+1<n||nl) s+="\n"; }
  vs_file_put("in",s.data(),s.size()); TimeSeriesSet d; d.loadData(vs_path("in"),max,from,seps);
  vs_assert(d.isLoaded(),"a loaded dataset reports it"); vs_assert(d.getItemCount()==rows,"the number of series is the number of requested lines"); vs_assert(d.getItemLength()==l-from,"the series length is the number of kept fields");
  for(int i=0;i<rows;i++){ TimeSeries x=d.getTimeSeries(i); for(int j=0;j<l-from;j++) vs_assert_same(x[j],t.at(i,from+j),"every value is the field at its position"); } vs_reach("done"); }
extern "C" void c11_text(){   // numbers spelled out
  std::string s; double v[3]; for(int i=0;i<3;i++){ if(i) s+=","; int f=vs_choice("form",5); int a=vs_choice("digit",2)*7+1, b=vs_choice("digit",2)*5; char A='0'+a,B='0'+b;
    if(f==0){ s+=A; s+=B; v[i]=10*a+b; } else if(f==1){ s+='-'; s+=A; s+='.'; s+=B; v[i]=-(a+b/10.0); } else if(f==2){ s+=A; s+="e2"; v[i]=a*100.0; } else if(f==3){ s+='.'; s+=B; v[i]=b/10.0; } else { s+='+'; s+=A; s+="e-1"; v[i]=a/10.0; } }
  s+="\n"; vs_file_put("in",s.data(),s.size()); TimeSeriesSet d; d.loadData(vs_path("in"),0,0,","); vs_assert(d.getItemCount()==1&&d.getItemLength()==3,"three fields make a series of three values"); TimeSeries x=d.getTimeSeries(0); for(int i=0;i<3;i++){ double e=x[i]-(data_t)v[i]; vs_assert(e<1e-6&&e>-1e-6,"a field is parsed as the decimal number it spells"); } vs_reach("done"); }
extern "C" void c11_name(){ Table t(1,2,"x"); t.write("in"); TimeSeriesSet d; std::string p=vs_path("in"); d.loadData(p,0,0," "); vs_assert(d.getFilePath()==p,"the dataset remembers its file"); OnexAPI a; vs_assert(a.loadDataset(p,0,0," ").name==p,"the dataset remembers its file"); vs_reach("done"); }
// C12: any bytes. An independent reading of the file decides what must be refused.
static void looksEmpty(TimeSeriesSet&d){ vs_assert(!d.isLoaded()&&d.getItemCount()==0,"a refused file leaves no dataset behind"); vs_assert(throws([&]{ d.getTimeSeries(0); }),"a refused file leaves no dataset behind"); }
static void anyBytes(const std::string&s,int max,int from,const std::string&seps,bool pre){
  // reference
  std::vector<std::string> lines; { std::string cur; bool open=false; for(char c:s){ if(c=='\n'){ lines.push_back(cur); cur.clear(); open=false; } else { cur+=c; open=true; } } if(open) lines.push_back(cur); }
  int rows=lines.size(); if(max>0&&max<rows) rows=max; bool bad=rows==0; int cols=-1;
  std::vector<std::vector<std::string>> f;
  for(int i=0;i<rows&&!bad;i++){ std::vector<std::string> t; std::string cur; for(char c:lines[i]){ bool sp=false; for(char q:seps) if(q==c) sp=true; if(sp){ if(!cur.empty()) t.push_back(cur); cur.clear(); } else cur+=c; } if(!cur.empty()) t.push_back(cur); f.push_back(t);
    if(i==0) cols=t.size(); if((int)t.size()!=cols||from<0||from>=cols){ bad=true; break; }
    for(int j=from;j<cols;j++){ const std::string&w=t[j]; size_t p=0; while(p<w.size()&&(w[p]==' '||w[p]=='\t')) p++; if(p<w.size()&&w[p]=='-') p++; if(!(p<w.size()&&w[p]>='0'&&w[p]<='9')) bad=true; } }
  vs_file_put("in",s.data(),s.size()); TimeSeriesSet d; std::string path=vs_path("in"); if(pre){ Table t(1,2,"pre"); loadTable(d,t,"pre"); }
  bool th=throws([&]{ d.loadData(path,max,from,seps); });
  vs_assert(th==bad,"exactly the malformed files are refused");
  if(th){ looksEmpty(d); vs_reach("refused"); return; }
  vs_reach("accepted"); vs_assert(d.getItemCount()==rows&&d.getItemLength()==cols-from,"an accepted file has the dimensions of its table");
  for(int i=0;i<rows;i++){ TimeSeries x=d.getTimeSeries(i); for(int j=0;j<cols-from;j++){ double v=x[j]; (void)v; int want=0; const std::string&w=f[i][from+j]; size_t p=0; while(p<w.size()&&(w[p]==' '||w[p]=='\t')) p++; bool neg=w[p]=='-'; if(neg) p++; while(p<w.size()&&w[p]>='0'&&w[p]<='9'){ want=want*10+(w[p]-'0'); p++; } if(p==w.size()) vs_assert_eq(v,neg?-want:want,"an accepted file is loaded as its table"); } } }
static std::string anyText(int k,const char*al){ std::string s; for(int i=0;i<k;i++) s+=(char)vs_concrete(vs_char("c",al)); return s; }
extern "C" void c12_bytes(){ static const char*AL[]={"1 \na","1,\n-","7\t\n ","3\n "}; int k=vs_param("k",4), a=vs_param("al",0); static const int MAX[]={0,1,2,-1,5}, FROM[]={0,1,-1,2}; int max=MAX[vs_choice("max",5)], from=FROM[vs_choice("from",4)];
  std::string seps= a==1?",":a==2?"\t ":" "; anyBytes(anyText(k,AL[a]),max,from,seps,false); }
extern "C" void c12_args(){ // any limit and start column over a few tables
  static const char*T[]={"","\n","1 2 3\n4 5 6\n7 8 9\n","1 2\n3\n","x 2\ny 3\n","1","1 2 3\n4 5 6\n\n"," \n1\n","1 2 3\n4 x 6\n"}; std::string s=T[vs_choice("file",9)]; int max=vs_choice("max",6)-2, from=vs_choice("from",7)-3; static const char*SP[]={" ","",",","2"};
  anyBytes(s,max,from,SP[vs_choice("seps",4)],vs_choice("pre",2)); }
extern "C" void c12_extreme(){ // extreme limits and columns
  int max=vs_choice("max",2)?2147483647:-2147483647-1; int from=vs_int("from",-2147483647-1,2147483647); vs_file_put("in","1 2\n3 4\n",8); TimeSeriesSet d; std::string p=vs_path("in"),sp=" "; bool th=throws([&]{ d.loadData(p,max,from,sp); }); vs_assert(th==(from<0||from>=2),"exactly start columns inside the table are accepted");
  if(th) looksEmpty(d); else { from=vs_concrete(from); vs_assert(d.getItemCount()==2&&d.getItemLength()==2-from,"an accepted file has the dimensions of its table"); vs_assert_eq(d.getTimeSeries(1)[0],from?4:3,"an accepted file is loaded as its table"); } vs_reach(th?"refused":"accepted"); }
extern "C" void c12_range(){ static const char*W[]={"1e999","-1e999","1e400","1e39","-1e39","1e38","3"}; int k=vs_choice("w",7), row=vs_choice("row",2), col=vs_choice("col",2), from=vs_choice("from",2); std::string s; for(int i=0;i<2;i++){ for(int j=0;j<2;j++){ if(j) s+=" "; s+= i==row&&j==col?W[k]:"1"; } s+="\n"; }
  vs_file_put("in",s.data(),s.size()); TimeSeriesSet d; std::string p=vs_path("in"),sp=" "; bool fl=sizeof(data_t)==4; bool th=throws([&]{ d.loadData(p,0,from,sp); });
  bool bad= col>=from&&(k<3||(fl&&k<5)); if(col>=from) vs_assert(th==bad,"exactly values outside the numeric range are refused"); if(th) looksEmpty(d); else vs_assert(d.getItemCount()==2&&d.getItemLength()==2-from,"an accepted file has the dimensions of its table"); vs_reach(th?"refused":"accepted"); }
extern "C" void c12_open(){ TimeSeriesSet d; std::string p=vs_path("none"),sp=" "; int pre=vs_choice("pre",2); if(pre){ Table t(2,2,"x"); loadTable(d,t); } if(vs_choice("empty",2)) p=""; vs_assert(throws([&]{ d.loadData(p,0,0,sp); }),"a file that cannot be opened is refused"); looksEmpty(d); vs_reach("refused"); vs_reach("accepted"); }
// C13
extern "C" void c13_roundtrip(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t(n,l,"x"); TimeSeriesSet s; loadTable(s,t); int pre=vs_choice("pre",3); if(pre==1) s.normalize(); if(pre==2) s.PAA(2);
  static const char SEP[]={' ',',',';','\t','|','_'}; char c=SEP[vs_choice("sep",6)]; std::string p=vs_path("out"); s.saveData(p,c);
  TimeSeriesSet r; r.loadData(p,0,0,std::string(1,c)); vs_assert(r.getItemCount()==s.getItemCount()&&r.getItemLength()==s.getItemLength(),"saving and loading keeps the dimensions");
  for(int i=0;i<s.getItemCount();i++){ TimeSeries a=s.getTimeSeries(i),b=r.getTimeSeries(i); for(int j=0;j<s.getItemLength();j++) vs_assert_same(a[j],b[j],"saving and loading keeps every value exactly"); }
  vs_reach("done"); }
extern "C" void c13_overwrite(){ // onto an existing, longer file, and through the API, twice
  Table t(1,2,"x"), u(3,3,"y"); u.write("out"); t.write("in"); OnexAPI a; std::string p=vs_path("out"); int id=a.loadDataset(vs_path("in"),0,0," ").id; a.saveDataset(id,p,','); if(vs_choice("twice",2)) a.saveDataset(id,p,','); dataset_info_t d=a.loadDataset(p,0,0,","); vs_assert(d.itemCount==1&&d.itemLength==2,"saving replaces the whole file");
  TimeSeriesSet r; r.loadData(p,0,0,","); sameValues(r,t,"saving and loading keeps every value exactly"); vs_reach("done"); }
// C14
static void sameGroups(const GroupFile&a,const GroupFile&b){ vs_assert(a.ok&&b.ok&&a.byLength.size()==b.byLength.size(),"loaded groups cover the same lengths"); vs_assert_same(a.threshold,b.threshold,"the threshold is restored"); vs_assert(a.name==b.name,"the distance is restored");
  for(size_t L=2;L<a.byLength.size();L++){ vs_assert(a.byLength[L].size()==b.byLength[L].size(),"loaded groups have the same number for every length"); for(size_t i=0;i<a.byLength[L].size();i++){ const GroupRec&x=a.byLength[L][i],&y=b.byLength[L][i]; vs_assert(sameMembers(x,y),"loaded groups have the same members in the same order of groups"); for(size_t j=0;j<x.rep.size();j++) vs_assert_same(x.rep[j],y.rep[j],"loaded groups have exactly the same representative"); } } }
extern "C" void c14_roundtrip(){
  int n=vs_param("n",2), l=vs_param("l",3); Table t(n,l,"x"); GroupableTimeSeriesSet s,r; loadTable(s,t); r.loadData(vs_path("in"),0,0," "); double th=vs_param("th",0)?vs_param("th",0)/4.0:vs_real("threshold",0.1,4); onex::setWarpingBandRatio(1);
  int dist=vs_choice("dist",2); int c=s.groupAllLengths(dist?"euclidean_dtw":"euclidean",th); std::string g=vs_path("g"),h=vs_path("h"); s.saveGroups(g,false);
  int pre=vs_choice("pregrouped",2); if(pre) r.groupAllLengths("euclidean",0.1);
  int k=r.loadGroups(g); vs_assert(k==c,"the loaded group count equals the one reported when grouping"); vs_assert(r.isGrouped(),"a dataset with loaded groups is grouped"); r.saveGroups(h,false);
  GroupFile a=readGroups("g"),b=readGroups("h"); sameGroups(a,b); vs_assert(a.total()==c,"the loaded group count equals the one reported when grouping"); vs_reach("done"); }
extern "C" void c14_match(){ // matches after loading are as good as before
  int sym=vs_param("sym",0); if(sym){ Table t(1,3,"x"); t.write("in"); } else vs_file_put("in","1 2 9\n1 3 5\n2 8 -4\n",19); GroupableTimeSeriesSet s,r; s.loadData(vs_path("in"),0,0," "); r.loadData(vs_path("in"),0,0," "); double th=vs_choice("th",2)?3:0.2; onex::setWarpingBandRatio(0.5);
  s.groupAllLengths("euclidean",th); std::string g=vs_path("g"); s.saveGroups(g,false); r.loadGroups(g);
  int m=vs_param("m",2); data_t q[4]={1,2,8,-3}; int at=vs_choice("at",m); q[at]=(data_t)vs_real("q",-12,12); TimeSeries Q(q,0,0,m); candidate_time_series_t a=s.getBestMatch(Q),b=r.getBestMatch(Q); vs_assert_eq(a.dist,b.dist,"a match with loaded groups is as good as before"); vs_reach("done"); }
// C15
static std::string groupedFile(GroupableTimeSeriesSet&s,const char*file,double th,bool sizes=false){ vs_file_put("in","1 2 9\n1 3 5\n",12); s.loadData(vs_path("in"),0,0," "); s.groupAllLengths("euclidean",th); s.saveGroups(vs_path(file),sizes); std::string r; long k=vs_file_len(file); for(long i=0;i<k;i++) r+=(char)vs_file_get(file,i); return r; }
// after a refused group file the dataset still works
static void stillWorks(GroupableTimeSeriesSet&r,bool pre,double before){ data_t q[2]={1,2}; TimeSeries Q(q,0,0,2); onex::setWarpingBandRatio(0.5);
  if(r.isGrouped()){ vs_assert(pre,"a refused group file does not group the dataset"); candidate_time_series_t c=r.getBestMatch(Q); vs_assert_same(c.dist,before,"a refused group file leaves the previous groups intact"); r.saveGroups(vs_path("after"),false); assertPartition(readGroups("after"),2,3,"a refused group file leaves the previous groups intact"); }
  else vs_assert(throws([&]{ r.getBestMatch(Q); }),"a dataset that is not grouped refuses to match"); vs_assert(r.getItemCount()==2&&r.getItemLength()==3,"a refused group file leaves the data alone"); vs_assert_same(r.getTimeSeries(1)[2],5,"a refused group file leaves the data alone"); r.groupAllLengths("euclidean",1); vs_assert(r.isGrouped(),"a dataset can be grouped after a refused group file"); }
static double prepare(GroupableTimeSeriesSet&r,bool pre){ r.loadData(vs_path("in"),0,0," "); if(!pre) return 0; r.groupAllLengths("euclidean",0.5); data_t q[2]={1,2}; TimeSeries Q(q,0,0,2); onex::setWarpingBandRatio(0.5); return r.getBestMatch(Q).dist; }
extern "C" void c15_truncate(){
  GroupableTimeSeriesSet s,r; int th=vs_param("th",0); std::string f=groupedFile(s,"g",th?20:0.1); bool pre=vs_choice("pre",2); int cut=vs_choice("cut",f.size()); bool lost=false; for(size_t i=cut;i<f.size();i++) if(f[i]!=' '&&f[i]!='\n') lost=true; vs_file_resize("g",cut);
  double before=prepare(r,pre); std::string g=vs_path("g"); bool t=throws([&]{ r.loadGroups(g); }); vs_assert(t==lost,"exactly truncated group files are refused"); if(t){ stillWorks(r,pre,before); vs_reach("refused"); } else { r.saveGroups(vs_path("h"),false); assertPartition(readGroups("h"),2,3,"accepted groups partition the subsequences"); vs_reach("accepted"); } }
static void acceptedOk(GroupableTimeSeriesSet&r){ r.saveGroups(vs_path("h"),false); assertPartition(readGroups("h"),2,3,"accepted groups partition the subsequences"); data_t q[2]={1,2}; TimeSeries Q(q,0,0,2); onex::setWarpingBandRatio(0.5); candidate_time_series_t c=r.getBestMatch(Q); vs_assert(c.data.getIndex()>=0&&c.data.getIndex()<2&&c.data.getLength()>=2&&c.data.getEnd()<=3,"a match from accepted groups is inside the dataset"); }
extern "C" void c15_bytes(){ // any single byte replaced
  GroupableTimeSeriesSet s,r; int th=vs_param("th",0); std::string f=groupedFile(s,"g",th?20:0.1); bool pre=vs_choice("pre",2); int at=vs_choice("at",f.size()); int c=vs_concrete(vs_char("byte","0127- x\n")); vs_file_set("g",at,c);
  double before=prepare(r,pre); std::string g=vs_path("g"); bool t=throws([&]{ r.loadGroups(g); }); if(t){ stillWorks(r,pre,before); vs_reach("refused"); } else { acceptedOk(r); vs_reach("accepted"); } }
// every whole number of the file replaced by any other number
static std::string spell(int v){ return std::to_string(v); }
extern "C" void c15_numbers(){
  // header, then: length 2 with groups {rep, members}, length 3; one field replaced
  static const int V[]={-1,0,1,2,3,4,5,100,-2147483647-1,2147483647}; 
  static const char*F[]={"1","0.5","2","3","2","4","euclidean", "2","1","2","3","0","0","1","0","0","1","3","5","1","1","1", "1","1","2","9","2","0","0","1","0"};
  int N=sizeof(F)/sizeof(*F); static const int ISINT[]={1,0,1,1,1,1,0, 1,0,0,1,1,1,1,1,1,1,0,0,1,1,1, 1,0,0,0,1,1,1,1,1}; int at=vs_choice("at",N); int to=V[vs_choice("to",10)]; if(!ISINT[at]) return; std::string s; for(int i=0;i<N;i++){ s+= i==at?spell(to):std::string(F[i]); s+= i==3||i==5||i==6?"\n":" "; } s+="\n"; bool same= spell(to)==F[at];
  vs_file_put("in","1 2 9\n1 3 5\n",12); vs_file_put("g",s.data(),s.size()); GroupableTimeSeriesSet r; bool pre=vs_choice("pre",2); double before=prepare(r,pre); std::string g=vs_path("g");
  bool t=throws([&]{ r.loadGroups(g); }); if(same) vs_assert(!t,"a complete and compatible group file is accepted"); if(at==0||at==2||at==3) vs_assert(t==!same,"another version or other dimensions are refused"); if(t){ stillWorks(r,pre,before); vs_reach("refused"); } else { acceptedOk(r); vs_reach("accepted"); } }
extern "C" void c15_other(){
  vs_file_put("in","1 2 9\n1 3 5\n",12); GroupableTimeSeriesSet s,r; int k=vs_choice("what",9); bool pre=vs_choice("pre",2); double th=vs_choice("th",2)?20:0.1; bool need=true; std::string g=vs_path("g");
  if(k==0) g=vs_path("none"); else if(k==1) groupedFile(s,"g",th,true); else if(k==2) vs_file_put("g","",0); else if(k==8) g="";
  else { std::string f=groupedFile(s,"g",th); size_t p=f.find("euclidean"); vs_assert(p!=std::string::npos,"the distance name is saved"); 
    if(k==3) f.replace(p,9,"manhattan"); if(k==4){ f.replace(p,9,"euclidean_dtw"); need=false; } if(k==5) f.insert(p,"x"); if(k==6){ f+=" 17 18\n"; need=false; } if(k==7) f="-"+f; vs_file_put("g",f.data(),f.size()); }
  double before=prepare(r,pre); bool t=throws([&]{ r.loadGroups(g); }); if(need) vs_assert(t,"missing, incompatible, sizes-only and unreadable group files are refused"); if(t){ stillWorks(r,pre,before); vs_reach("refused"); } else { acceptedOk(r); vs_reach("accepted"); } }
static Table mixed(int n,int l){ Table t(n,l,"unused"); for(int i=0;i<n*l;i++) t.v[i]=(i*7)%5-i; return t; }
extern "C" void c15_dims(){ // groups of a dataset with other dimensions
  GroupableTimeSeriesSet s,r; Table a=mixed(1+vs_choice("n",3),2+vs_choice("l",3)), b=mixed(1+vs_choice("n2",3),2+vs_choice("l2",3)); loadTable(s,a,"in1"); loadTable(r,b,"in2"); s.groupAllLengths("euclidean",0.5); std::string g=vs_path("g"); s.saveGroups(g,false); bool t=throws([&]{ r.loadGroups(g); });
  vs_assert(t==(a.n!=b.n||a.l!=b.l),"exactly groups for other dimensions are refused"); vs_assert(r.isGrouped()==!t,"a refused group file does not group the dataset"); vs_reach(t?"refused":"accepted"); }
extern "C" void c15_unloaded(){ GroupableTimeSeriesSet s,r; groupedFile(s,"g",1); std::string g=vs_path("g"); if(vs_choice("zero",2)) vs_file_put("g","1 1 0 0\n2 1\neuclidean\n",22); vs_assert(throws([&]{ r.loadGroups(g); }),"groups cannot be loaded without data"); vs_assert(!r.isGrouped(),"groups cannot be loaded without data"); vs_reach("refused"); }
// C28
extern "C" void c28_save(){
  Table t(2,2,"x"); TimeSeriesSet s; loadTable(s,t); std::string p=vs_path("out"); s.saveData(p,' '); long full=vs_file_len("out"); int k=vs_choice("at",full+2); vs_file_put("out","",0);
  vs_fault(2,k); bool th=throws([&]{ s.saveData(p,' '); }); int hits=vs_fault_hits(); vs_fault(0,0); vs_assert(th==(hits>0),"saving fails exactly if a write failed"); if(!th) vs_assert(vs_file_len("out")==full,"saving that returns has written everything"); sameValues(s,t,"saving does not change the dataset"); vs_reach(th?"failed":"written"); }
extern "C" void c28_saveGroups(){
  vs_file_put("in","1 2 9\n1 3 5\n",12); GroupableTimeSeriesSet s; s.loadData(vs_path("in"),0,0," "); s.groupAllLengths("euclidean",1); bool sizes=vs_choice("sizes",2); std::string p=vs_path("out"); s.saveGroups(p,sizes); long full=vs_file_len("out"); int k=vs_choice("at",full+2); vs_file_put("out","",0);
  vs_fault(2,k); bool th=throws([&]{ s.saveGroups(p,sizes); }); int hits=vs_fault_hits(); vs_fault(0,0); vs_assert(th==(hits>0),"saving groups fails exactly if a write failed"); if(!th) vs_assert(vs_file_len("out")==full,"saving groups that returns has written everything"); vs_assert(s.isGrouped(),"saving groups keeps them"); vs_reach(th?"failed":"written"); }
extern "C" void c28_load(){
  const char*T="1 2 3\n4 5 6\n7 8 9\n"; int total=18; vs_file_put("in",T,total); std::string p=vs_path("in"),sp=" "; int k=vs_choice("at",2*total+4), max=vs_choice("max",4); TimeSeriesSet s; vs_fault(1,k); bool th=throws([&]{ s.loadData(p,max,0,sp); }); int hits=vs_fault_hits(); vs_fault(0,0);
  vs_assert(th==(hits>0),"loading fails exactly if a read failed"); if(th){ looksEmpty(s); vs_reach("failed"); } else { vs_assert(s.getItemCount()==(max>0&&max<3?max:3)&&s.getItemLength()==3,"loading that returns has read everything"); vs_assert_eq(s.getTimeSeries(s.getItemCount()-1)[2],3*s.getItemCount(),"loading that returns has read everything"); vs_reach("read"); } }
extern "C" void c28_loadGroups(){
  GroupableTimeSeriesSet s,r; std::string f=groupedFile(s,"g",1); r.loadData(vs_path("in"),0,0," "); std::string p=vs_path("g"); int k=vs_choice("at",f.size()+2); vs_fault(1,k); bool th=throws([&]{ r.loadGroups(p); }); int hits=vs_fault_hits(); vs_fault(0,0);
  if(!th){ r.saveGroups(vs_path("h"),false); assertPartition(readGroups("h"),2,3,"loading groups that returns has read everything"); vs_reach("read"); } else { vs_assert(hits>0,"loading groups fails only if a read failed"); vs_assert(!r.isGrouped(),"groups that could not be read are not used"); vs_reach("failed"); } }
extern "C" void c28_open(){
  vs_file_put("in","1 2 9\n1 3 5\n",12); GroupableTimeSeriesSet s; std::string p=vs_path("in"),o=vs_path("out"),sp=" "; s.loadData(p,0,0,sp); s.groupAllLengths("euclidean",1); s.saveGroups(o,false); int k=vs_choice("what",4); vs_fault(3,0); bool th=throws([&]{ if(k==0) s.saveData(o,' '); if(k==1) s.saveGroups(o,false); if(k==2) s.loadGroups(o); if(k==3) s.loadData(p,0,0,sp); }); vs_fault(0,0);
  vs_assert(th,"a file that cannot be opened is an error"); if(k<3) vs_assert(s.isGrouped()&&s.getItemCount()==2,"a file that cannot be opened changes nothing"); else vs_assert(!s.isLoaded(),"a file that cannot be opened leaves no dataset behind"); vs_reach("failed"); }
