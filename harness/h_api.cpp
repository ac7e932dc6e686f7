// C19: the registry of datasets.
#include "groups.hpp"
using namespace onex;
// reference: kind of the dataset in every slot, -1: free
static int DIM[3][2]={{1,2},{2,3},{3,2}};
static const char* FN[]={"a","b","c"};
static void same(OnexAPI&a,const std::vector<int>&ref){
  int count=0; std::vector<dataset_info_t> all=a.getAllDatasetInfo(); size_t at=0;
  for(size_t i=0;i<ref.size();i++) if(ref[i]>=0){ count++; dataset_info_t d=a.getDatasetInfo(i); vs_assert(d.id==(int)i&&d.itemCount==DIM[ref[i]][0]&&d.itemLength==DIM[ref[i]][1]&&d.name==vs_path(FN[ref[i]]),"an id denotes the same dataset until it is unloaded"); vs_assert(at<all.size()&&all[at].id==(int)i&&all[at].itemCount==d.itemCount&&all[at].itemLength==d.itemLength&&all[at].name==d.name,"the list of datasets is what is loaded"); at++; } else { vs_assert(throws([&]{ a.getDatasetInfo(i); }),"an unused id is refused"); }
  vs_assert(at==all.size(),"the list of datasets is what is loaded"); vs_assert(a.getDatasetCount()==count,"the dataset count is what is loaded"); }
static bool used(const std::vector<int>&ref,int id){ return id>=0&&id<(int)ref.size()&&ref[id]>=0; }
static void files(){ for(int k=0;k<3;k++){ Table t(DIM[k][0],DIM[k][1],"unused"); for(size_t i=0;i<t.v.size();i++) t.v[i]=(i*3)%4+k; t.write(FN[k]); } vs_file_put("bad","1 2\n3\n",6); vs_file_put("text","x\n",2); vs_file_put("empty","",0); }
static int smallest(std::vector<int>&ref){ for(size_t i=0;i<ref.size();i++) if(ref[i]<0) return i; ref.push_back(-1); return ref.size()-1; }
extern "C" void c19_history(){
  files(); OnexAPI a; std::vector<int> ref; int steps=vs_param("steps",3); static const char*BAD[]={"none","bad","text","empty"};
  for(int i=0;i<steps;i++){ int o=vs_choice("op",5);
    if(o==0){ int k=vs_choice("file",vs_param("files",3)); int want=smallest(ref); dataset_info_t d=a.loadDataset(vs_path(FN[k]),0,0," "); vs_assert(d.id==want,"a load gets the smallest id not in use"); vs_assert(d.itemCount==DIM[k][0]&&d.itemLength==DIM[k][1],"a load reports what it loaded"); ref[want]=k; vs_reach("loaded"); }
    else if(o==1){ int k=vs_choice("bad",vs_param("bads",2)); vs_assert(throws([&]{ a.loadDataset(vs_path(BAD[k]),0,0," "); }),"an unreadable file is refused"); vs_reach("failed load"); }
    else if(o==2){ int id=vs_int("id",-3,5); bool th=throws([&]{ a.unloadDataset(id); }); id=vs_concrete(id); vs_assert(th==!used(ref,id),"exactly ids in use can be unloaded"); if(!th){ ref[id]=-1; vs_reach("unloaded"); } else vs_reach("refused"); }
    else if(o==3){ a.unloadAllDataset(); ref.clear(); vs_reach("all unloaded"); }
    else { int id=vs_int("id",-2147483647-1,2147483647); int f=vs_choice("any",vs_param("anys",3)); bool inUse=false; for(size_t j=0;j<ref.size();j++) if(ref[j]>=0&&id==(int)j) inUse=true; bool th; std::string p=vs_path("x");
      if(f==0) th=throws([&]{ a.getDatasetInfo(id); }); else if(f==1) th=throws([&]{ a.saveDataset(id,p,' '); }); else if(f==2) th=throws([&]{ a.normalizeDataset(id); }); else if(f==3) th=throws([&]{ a.groupDataset(id,1); }); else th=throws([&]{ a.PAA(id,1); });
      vs_assert(th==!inUse,"exactly ids in use can be used"); }
    same(a,ref); } vs_reach("done"); }
// many datasets, then loads and unloads in any order
extern "C" void c19_holes(){
  files(); OnexAPI a; std::vector<int> ref; int n=vs_param("loads",4), steps=vs_param("steps",3); for(int k=0;k<n;k++){ int f=k%3, want=smallest(ref); vs_assert(a.loadDataset(vs_path(FN[f]),0,0," ").id==want,"a load gets the smallest id not in use"); ref[want]=f; }
  for(int i=0;i<steps;i++){ if(vs_choice("load",2)){ int want=smallest(ref); vs_assert(a.loadDataset(vs_path(FN[i%3]),0,0," ").id==want,"a load gets the smallest id not in use"); ref[want]=i%3; vs_reach("loaded"); }
    else { int id=vs_int("id",-2147483647-1,2147483647); bool th=throws([&]{ a.unloadDataset(id); }); int hit=-1; for(size_t j=0;j<ref.size();j++) if(ref[j]>=0&&id==(int)j) hit=j; vs_assert(th==(hit<0),"exactly ids in use can be unloaded"); if(!th){ ref[hit]=-1; vs_reach("unloaded"); } else vs_reach("refused"); }
    same(a,ref); } vs_reach("done"); }
// every operation on an id that is not in use fails and changes nothing
extern "C" void c19_unused(){
  files(); OnexAPI a; std::vector<int> ref(3,-1); int n=vs_choice("loads",4); for(int k=0;k<n;k++){ a.loadDataset(vs_path(FN[k]),0,0," "); ref[k]=k; } int hole=vs_choice("hole",4)-1; if(hole>=0&&hole<n){ a.unloadDataset(hole); ref[hole]=-1; }
  int id=vs_int("id",-2147483647-1,2147483647); for(int j=0;j<3;j++) if(ref[j]>=0) vs_assume(id!=j); int f=vs_choice("op",10); vs_file_put("g","1 1 1 2\n2 3\neuclidean\n1\n1 2\n1 0 0\n",34); std::string p=vs_path("out"),g=vs_path("g"); long before=vs_file_len("out");
  bool th=throws([&]{ if(f==0) a.unloadDataset(id); if(f==1) a.saveDataset(id,p,' '); if(f==2) a.getDatasetInfo(id); if(f==3) a.normalizeDataset(id); if(f==4) a.groupDataset(id,1); if(f==5) a.saveGroup(id,p,false); if(f==6) a.loadGroup(id,g); if(f==7) a.getBestMatch(id,0,0,0,2); if(f==8){ if(ref[0]>=0) a.groupDataset(0,1); a.getBestMatch(0,id,0,0,2); } if(f==9) a.PAA(id,2); });
  vs_assert(th,"every operation on an unused id is refused"); vs_assert(vs_file_len("out")==before,"a refused operation writes nothing"); same(a,ref); vs_reach("refused"); }
// a failed load leaves everything as it was, whatever the reason it failed
extern "C" void c19_failed(){
  files(); OnexAPI a; std::vector<int> ref(3,-1); int n=vs_choice("loads",4); for(int k=0;k<n;k++){ a.loadDataset(vs_path(FN[k]),0,0," "); ref[k]=k; } int hole=vs_choice("hole",4)-1; if(hole>=0&&hole<n){ a.unloadDataset(hole); ref[hole]=-1; }
  bool grouped=n>0&&ref[0]>=0&&vs_choice("group",2); if(grouped) a.groupDataset(0,1); std::string b4; std::string g=vs_path("g"); if(grouped){ a.saveGroup(0,g,false); for(long i=0;i<vs_file_len("g");i++) b4+=(char)vs_file_get("g",i); }
  int w=vs_choice("why",7); std::string p=vs_path(w==0?"none":w==1?"bad":w==2?"text":w==3?"empty":"b"),sp=" "; if(w==5) vs_fault(1,4); if(w==6) vs_fault(3,0); bool th=throws([&]{ a.loadDataset(p,0,w==4?9:0,sp); }); vs_fault(0,0); vs_assert(th,"an unreadable file is refused"); same(a,ref);
  if(grouped){ vs_assert(a.getDatasetInfo(0).isGrouped,"a failed load leaves loaded datasets alone"); a.saveGroup(0,g,false); std::string now; for(long i=0;i<vs_file_len("g");i++) now+=(char)vs_file_get("g",i); vs_assert(now==b4,"a failed load leaves loaded datasets alone"); }
  int want=smallest(ref); vs_assert(a.loadDataset(vs_path(FN[1]),0,0," ").id==want,"a load gets the smallest id not in use"); ref[want]=1; same(a,ref); vs_reach("failed load"); }
