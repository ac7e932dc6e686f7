// C23: the command line. Every line is executed by the real main loop and by a reference built on a second OnexAPI.
#include "groups.hpp"
#include <cstring>
using namespace onex;
extern OnexAPI gOnexAPI;
extern bool gTimerEnabled;
int onex_main(int,char**);
static int say(const std::string&line){ char*c=(char*)malloc(line.size()+1); memcpy(c,line.c_str(),line.size()+1); vs_script(c); return 0; }
static std::string run(){ long b=vs_out_len(); char n[]="onex"; char*v[]={n,0}; onex_main(1,v); long e=vs_out_len(); std::string r; for(long i=b;i<e;i++) r+=(char)vs_out_get(i); return r; }
static bool has(const std::string&s,const std::string&w){ return s.find(w)!=std::string::npos; }
static std::string num(long v){ char b[24]; int n=0; bool neg=v<0; if(neg) v=-v; do b[n++]='0'+v%10; while(v/=10); if(neg) b[n++]='-'; return std::string(std::reverse_iterator<char*>(b+n),std::reverse_iterator<char*>(b)); }
enum Out { DONE, FAILED, QUIT, NOTHING, OPEN };  // OPEN: the description leaves it open
struct Ref { OnexAPI api; bool timer; std::vector<std::string> want; bool list; Ref():timer(gTimerEnabled){} };
static const char*PLACE[]={"in","in2","in3","uneven","none","out","g","g2"};
static std::vector<std::string> split(const std::string&s){ std::vector<std::string> r; std::string c; for(char x:s){ if(x==' '){ if(!c.empty()) r.push_back(c); c.clear(); } else c+=x; } if(!c.empty()) r.push_back(c); return r; }
static int cls(const std::string&s,bool real){ size_t i=0; if(i<s.size()&&(s[i]=='-'||s[i]=='+')) i++; size_t d=0; while(i<s.size()&&s[i]>='0'&&s[i]<='9'){ i++; d++; } if(real&&i<s.size()&&s[i]=='.'){ i++; while(i<s.size()&&s[i]>='0'&&s[i]<='9'){ i++; d++; } } if(!d) return 0; return i==s.size()?1:2; } // 0 not a number, 1 a number, 2 a number followed by something
struct Bad {}; struct Unclear {};
static int integer(const std::string&s){ int c=cls(s,false); if(c==0) throw Bad(); if(c==2) throw Unclear(); long v=0; size_t i=s[0]=='-'||s[0]=='+'; for(;i<s.size();i++){ v=v*10+(vs_concrete(s[i])-'0'); if(v>4000000000L) throw Bad(); } if(s[0]=='-') v=-v; if(v>2147483647L||v<-2147483647L-1) throw Bad(); return (int)v; }
static data_t realNumber(const std::string&s){ int c=cls(s,true); if(c==0) throw Bad(); if(c==2) throw Unclear(); double v=0,f=1; bool dot=false; for(char y:s){ char x=(char)vs_concrete(y); if(x=='.') dot=true; else if(x>='0'&&x<='9'){ if(dot){ f/=10; v+=f*(x-'0'); } else v=v*10+(x-'0'); } } if(s[0]=='-') v=-v; return v; }
static void countArgs(const std::vector<std::string>&a,size_t lo,size_t hi){ if(a.size()<lo||a.size()>hi) throw Bad(); }
static void info(Ref&r,const dataset_info_t&d){ r.want={"Name:        "+d.name,"ID:          "+num(d.id)+"\n","Item count:  "+num(d.itemCount)+"\n","Item length: "+num(d.itemLength)+"\n"}; }
static Out perform(Ref&r,const std::string&line){
  std::vector<std::string> a=split(line); r.want.clear(); if(a.empty()||a[0].compare(0,2,"//")==0) return NOTHING; const std::string&c=a[0]; if(c=="quit"||c=="exit") return QUIT;
  try {
    if(c=="help"){ countArgs(a,1,2); if(a.size()==2){ static const char*K[]={"load","save","unload","list","timer","group","saveGroup","loadGroup","normalize","paa","match","help","exit","quit"}; bool k=false; for(const char*x:K) if(a[1]==x) k=true; if(!k) throw Bad(); } return DONE; }
    if(c=="load"){ countArgs(a,2,5); int m=a.size()>2?integer(a[2]):0, s=a.size()>3?integer(a[3]):0; info(r,r.api.loadDataset(a[1],m,s,a.size()>4?a[4]:" ")); return DONE; }
    if(c=="save"){ countArgs(a,3,4); int i=integer(a[1]); r.api.saveDataset(i,a[2]+"#",a.size()>3?a[3][0]:' '); return DONE; }
    if(c=="unload"){ countArgs(a,2,2); r.api.unloadDataset(integer(a[1])); return DONE; }
    if(c=="list"){ countArgs(a,2,2); if(a[1]=="dataset"){ auto v=r.api.getAllDatasetInfo(); r.want={"There are "+num(v.size())+" loaded datasets"}; for(auto&d:v) r.want.push_back(d.name); } else if(a[1]=="distance") r.want={"euclidean","euclidean_dtw"}; else throw Bad(); return DONE; }
    if(c=="timer"){ countArgs(a,1,2); if(a.size()==2){ if(a[1]=="on") r.timer=true; else if(a[1]=="off") r.timer=false; else throw Bad(); } r.want={r.timer?"Timer is ON":"Timer is OFF"}; return DONE; }
    if(c=="group"){ countArgs(a,3,3); int i=integer(a[1]); data_t t=realNumber(a[2]); r.want={"Number of Groups: "+num(r.api.groupDataset(i,t))+"\n"}; if(r.timer) r.want.push_back("Command executed in "); return DONE; }
    if(c=="saveGroup"){ countArgs(a,3,4); int i=integer(a[1]); bool o=a.size()>3&&integer(a[3])!=0; r.api.saveGroup(i,a[2]+"#",o); return DONE; }
    if(c=="loadGroup"){ countArgs(a,3,3); int i=integer(a[1]); r.want={num(r.api.loadGroup(i,a[2]))+" groups loaded"}; return DONE; }
    if(c=="normalize"){ countArgs(a,2,2); r.api.normalizeDataset(integer(a[1])); return DONE; }
    if(c=="paa"){ countArgs(a,3,3); int i=integer(a[1]),b=integer(a[2]); info(r,r.api.PAA(i,b)); return DONE; }
    if(c=="match"){ if(a.size()!=4&&a.size()!=6) throw Bad(); int i=integer(a[1]),q=integer(a[2]),t=integer(a[3]),s=-1,e=-1; if(a.size()==6){ s=integer(a[4]); e=integer(a[5]); }
      candidate_time_series_t m=r.api.getBestMatch(i,q,t,s,e); r.want={"Best Match is timeseries "+num(m.data.getIndex())+" starting at "+num(m.data.getStart())+" with length "+num(m.data.getLength())+". Distance = "}; if(r.timer) r.want.push_back("Command executed in "); return DONE; }
  } catch(OnexException&){ return FAILED; } catch(Bad&){ return FAILED; } catch(Unclear&){ return OPEN; }
  return FAILED; }
static std::string content(const char*f){ std::string s; long n=vs_file_len(f); if(n<0) return "(none)"; for(long i=0;i<n;i++) s+=(char)vs_file_get(f,i); return s; }
static void sameFile(const char*f,const std::string&g,const char*msg){ vs_assert(content(f)==content(g.c_str()),msg); }
static void compare(Ref&r){
  static const char*M="a command does exactly what was asked";
  vs_assert(gTimerEnabled==r.timer,M);
  std::vector<dataset_info_t> x=gOnexAPI.getAllDatasetInfo(),y=r.api.getAllDatasetInfo(); vs_assert(x.size()==y.size()&&gOnexAPI.getDatasetCount()==(int)y.size(),M);
  for(size_t i=0;i<y.size();i++){ vs_assert(x[i].id==y[i].id&&x[i].name==y[i].name&&x[i].itemCount==y[i].itemCount&&x[i].itemLength==y[i].itemLength&&x[i].isNormalized==y[i].isNormalized&&x[i].isGrouped==y[i].isGrouped,M);
    gOnexAPI.saveDataset(x[i].id,vs_path("c1"),' '); r.api.saveDataset(y[i].id,vs_path("c2"),' '); sameFile("c1","c2",M);
    if(y[i].isGrouped){ gOnexAPI.saveGroup(x[i].id,vs_path("c1"),false); r.api.saveGroup(y[i].id,vs_path("c2"),false); sameFile("c1","c2",M); } }
  sameFile("out","out#",M); sameFile("g","g#",M); }
static void files(){
  vs_file_put("in","1 2 4\n3 0 2.5\n",14); vs_file_put("in2","5,1\n2,2\n7,0\n",12); vs_file_put("in3","1\n2\n",4); vs_file_put("uneven","1 2\n3\n",6); vs_file_put("g2","1 1 2 3\n2 4\neuclidean\n2\n1 2\n2 0 0\n1 0\n0 2.5\n2 0 1\n1 1\n1\n1 2 4\n2 0 0\n1 0\n",0); }
// the same state on both sides: dataset 0 grouped or not, dataset 1, dataset 2 unloaded again
static void setup(Ref&r){ files(); int k=vs_param("state",0); auto f=[&](OnexAPI&a){ if(k>0){ a.loadDataset(vs_path("in"),0,0," "); a.loadDataset(vs_path("in2"),0,0,","); } if(k>1) a.groupDataset(0,1); if(k>2){ a.loadDataset(vs_path("in3"),0,0," "); a.unloadDataset(1); } }; f(gOnexAPI); f(r.api); if(k>1){ gOnexAPI.saveGroup(0,vs_path("g2"),false); } }
// one line, executed by both; then the session must go on
static Out step(Ref&r,const std::string&line){
  Out o=perform(r,line); say(line); if(o!=QUIT) say("list dataset"); std::string t=run(); if(o==OPEN){ vs_reach("open"); vs_stop(); }
  size_t at=t.find("help' to see the list of available commands.\n"); vs_assert(at!=std::string::npos,"a command's outcome is reported"); t=t.substr(at+45);
  size_t there=t.rfind("There are "); 
  if(o==QUIT){ vs_assert(!has(t,"Error!"),"exit ends the session"); compare(r); vs_reach("quit"); return o; }
  vs_assert(there!=std::string::npos&&t.compare(there,10+num(r.api.getDatasetCount()).size()+16,"There are "+num(r.api.getDatasetCount())+" loaded datasets")==0,"the session goes on");
  std::string own=t.substr(0,there); bool err=has(own,"Error!");
  if(o==FAILED){ vs_assert(err,"a command that cannot be carried out is reported as an error"); vs_reach("failed"); }
  if(o==DONE){ vs_assert(!err,"a command that was carried out is not reported as an error"); for(auto&w:r.want) vs_assert(has(own,w),"a command's outcome is reported"); vs_reach("done"); }
  if(o==NOTHING){ vs_assert(!err,"comments and empty lines do nothing"); vs_reach("nothing"); }
  compare(r); return o; }
// ---- every command with any number of arguments of any kind ----
static std::string arg(int kind){ switch(kind){
  case 'p': return vs_path(PLACE[vs_choice("path",3)==0?0:vs_choice("path",2)==0?3:4]); case 'o': return vs_path("out"); case 'g': return vs_path("g");
  case 'G': { static const char*L[]={"g2","none","in"}; return vs_path(L[vs_choice("gfile",3)]); }
  case 'i': { static const char*L[]={"0","1","x","-1","2147483648"}; return L[vs_choice("int",vs_param("ints",5))]; }
  case 'j': { static const char*L[]={"0","x","1","2"}; return L[vs_choice("idx",3)]; }
  case 'n': { static const char*L[]={"0","1","x","2","-1","99999999999"}; return L[vs_choice("count",6)]; }
  case 'r': { static const char*L[]={"1","0.25","x","1e999","-1","."}; return L[vs_choice("real",6)]; }
  case 's': return vs_choice("sep",2)?",":" ,"; case 'c': return vs_choice("chr",2)?",":";x";
  case 't': { static const char*L[]={"on","off","On"}; return L[vs_choice("timer",3)]; }
  case 'l': { static const char*L[]={"dataset","distance","datasets"}; return L[vs_choice("what",3)]; }
  case 'h': { static const char*L[]={"load","help","exit","saveGroup","nothing"}; return L[vs_choice("topic",5)]; }
  default: return "0"; } }
static const char*NAME[]={"load","save","unload","list","timer","group","saveGroup","loadGroup","normalize","paa","match","help","exit","quit","Load","//","","   ","//match 0"};
static const char*KIND[]={"pnns","ioc","i","l","t","ir","igi","iG","i","in","jjjjj","h","","","","","","",""};
extern "C" void c23_args(){
  Ref r; setup(r); int c=vs_choice("cmd",19); std::string line=NAME[c]; int want=strlen(KIND[c]); int n=vs_choice("args",want+3); for(int i=0;i<n;i++){ line+=" "; line+=arg(i<want?KIND[c][i]:0); } step(r,line); }
// ---- a command followed by any characters ----
extern "C" void c23_chars(){
  Ref r; setup(r); static const char*C[]={"unload","normalize","group 0","paa 0","match 0 0","timer","list","saveGroup 0","match 0 1 0","load"}; int c=vs_choice("cmd",vs_param("cmds",10)); std::string line=C[c]; if(c==7) line+=" "+std::string(vs_path("g")); if(c==9) line+=" "+std::string(vs_path("in")); int k=vs_param("k",3); for(int i=0;i<k;i++) { int x=vs_char("ch",c==5?" onf":c==6?" dx":" 01-x"); line+=(char)(c==2?vs_concrete(x):x); } step(r,line); }
// ---- load with any separators ----
extern "C" void c23_load(){ // every character typed as a separator is one
  Ref r; files(); vs_file_put("mixed","5,1;3\n2;2,4\n",12); int k=1+vs_choice("separators",vs_param("k",3)); std::string line="load "+std::string(vs_path("mixed"))+(vs_choice("counts",2)?" 1 0 ":" 0 0 "); for(int i=0;i<k;i++) line+=(char)vs_concrete(vs_char("ch",",;1x")); step(r,line); }
// ---- any characters as the whole line ----
extern "C" void c23_line(){
  Ref r; setup(r); int k=vs_param("k",4); static const char*A[]={"exit ","/ q0","uqit ","help "}; const char*al=A[vs_param("al",0)]; std::string line; for(int i=0;i<k;i++) line+=(char)vs_char("ch",al); step(r,line); }
// ---- sessions ----
extern "C" void c23_history(){
  Ref r; files(); int steps=vs_param("steps",3); for(int i=0;i<steps;i++){ int k=vs_choice("line",14); std::string p=vs_path("in"),g=vs_path("g"),o=vs_path("out"),q=vs_path("in2"),l;
    switch(k){ case 0: l="load "+p; break; case 1: l="load "+q+" 2 0 ,"; break; case 2: l="unload 0"; break; case 3: l="group 0 1"; break; case 4: l="normalize 0"; break; case 5: l="paa 0 2"; break; case 6: l="match 0 0 1"; break; case 7: l="match 0 1 0 0 2"; break; case 8: l="saveGroup 0 "+g; break; case 9: l="loadGroup 0 "+g; break; case 10: l="save 0 "+o; break; case 11: l="load "+p+" 0 9"; break; case 12: l="group 1 0.5"; break; default: l="timer off"; }
    if(step(r,l)==QUIT) return; } vs_reach("session"); }
// ---- the end of input ----
extern "C" void c23_eof(){
  files(); int k=vs_choice("answer",6); static const char*W[]={"y","","n","x","yes","no"}; vs_script(0); vs_script(W[k]); bool ends=k<2; if(k>2){ int t=vs_choice("then",4); vs_script(t==0?"n":t==1?"y":t==2?"":0); ends=t!=0; vs_reach("asked again"); } say("list distance"); std::string t=run();
  vs_assert(has(t,"euclidean_dtw")==!ends,ends?"the end of input ends the session":"the session goes on"); vs_assert(!has(t,"Error!"),"the end of input is no error"); vs_reach("asked"); }
