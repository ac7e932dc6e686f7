// Reading saved group files back: the groups as a user sees them.
#pragma once
#include "common.hpp"
#include <fstream>
// a table whose entries are fixed numbers except `sym` of them (chosen spread out)
static Table wild(int n,int l,int kind){ Table t(n,l,"unused"); for(int i=0;i<n*l;i++) t.v[i]= kind==0?(i*7)%5-i*0.5: kind==1?1: kind==2?(i*i)%11: (i*5)%7-3; return t; }
static Table partly(int n,int l,int sym,int kind){ if(sym>=n*l) return Table(n,l,"x"); Table t=wild(n,l,kind); for(int k=0;k<sym;k++) t.v[(k*(2*l-1)+l/2)%(n*l)]=(data_t)vs_real("x",-8,8); return t; }
struct GroupRec { std::vector<double> rep; std::vector<std::pair<int,int>> members; };   // representative values, (series, start)
struct GroupFile { bool ok; int version; double threshold; int n,l,from,to; std::string name; std::vector<std::vector<GroupRec>> byLength; // index: length
  int total()const{ int c=0; for(auto&v:byLength) c+=v.size(); return c; } };
static inline GroupFile readGroups(const char*file){ GroupFile g; g.ok=false; std::ifstream f(vs_path(file)); f>>g.version>>g.threshold>>g.n>>g.l>>g.from>>g.to>>g.name; if(!f) return g;
  g.byLength.resize(g.to); for(int len=g.from;len<g.to;len++){ int k; f>>k; if(!f) return g; for(int i=0;i<k;i++){ GroupRec r; for(int j=0;j<len;j++){ data_t v; f>>v; r.rep.push_back(v); } int c; f>>c; if(!f) return g; for(int j=0;j<c;j++){ int a,b; f>>a>>b; r.members.push_back(std::make_pair(a,b)); } if(!f) return g; g.byLength[len].push_back(r); } }
  g.ok=true; return g; }
// every subsequence of every length 2..l in exactly one group, nothing else, no empty group
static inline void assertPartition(const GroupFile&g,int n,int l,const char*msg){ vs_assert(g.ok,msg); vs_assert(g.n==n&&g.l==l&&g.from==2&&g.to==l+1,msg);
  for(int len=2;len<=l;len++){ int sub=l-len+1; std::vector<int> seen(n*sub,0); for(auto&r:g.byLength[len]){ vs_assert(!r.members.empty(),msg); for(auto&m:r.members){ vs_assert(m.first>=0&&m.first<n&&m.second>=0&&m.second<sub,msg); seen[m.first*sub+m.second]++; } } for(int x:seen) vs_assert(x==1,msg); } }
static inline bool sameMembers(const GroupRec&a,const GroupRec&b){ if(a.members.size()!=b.members.size()) return false; for(auto&m:a.members) if(std::find(b.members.begin(),b.members.end(),m)==b.members.end()) return false; return true; }
