// Histories in which each operation is carried out by one of two modules of
// the program; the model does not know about modules.
#include "dso_impl.hpp"
#include <algorithm>
namespace pcvdso{
struct M
{
  C c;
  std::vector<int> m[NT];
  bool reg[NT]={};
};
static const int lists[5][NT]={{0,0,0,0},{1,0,0,0},{0,1,1,0},{1,0,0,1},{1,1,1,1}};

static void body(u64 seed,long)
{
  using pcv::stats;using pcv::trace;
  const Ops* mod[2]={&my_ops,pcv_library_ops()};
  for(int i=0;i<NT;++i){
    PCV_CHECK(mod[0]->info[i]!=mod[1]->info[i]&&*mod[0]->info[i]==*mod[1]->info[i],"setup","modules share a std::type_info object");
  }
  pcv::Rng r(seed);
  M s[2];
  int serial=0,n=6+int(r.below(30));
  for(int step=0;step<n;++step){
    const int w=int(r.below(2));
    const Ops& o=*mod[w];
    M& x=s[r.below(2)];
    M& y=s[&x==s?1:0];
    int ti=int(r.below(NT));
    int op=int(r.below(14));
    trace("module %d, collection %d, operation %d, type %d",w,int(&x-s),op,ti);
    int pos=x.m[ti].empty()?0:int(r.below(x.m[ti].size()+1));
    switch(op){
      case 0:case 1:case 2:case 3:case 4:{
        int how=int(r.below(6));
        if(!x.reg[ti]&&(how==3||how==4))how=0;
        o.make(x.c,how,ti,++serial,pos);
        if(how==3||how==4)x.m[ti].insert(x.m[ti].begin()+pos,serial);else x.m[ti].push_back(serial);
        x.reg[ti]=true;
        pcv::stats().add("insertions");
        break;
      }
      case 5:o.reg(x.c,ti);x.reg[ti]=true;break;
      case 6:if(!x.m[ti].empty()){
          pos=std::min<int>(pos,int(x.m[ti].size())-1);
          o.erase(x.c,ti,pos);x.m[ti].erase(x.m[ti].begin()+pos);
        }
        break;
      case 7:if(x.reg[ti]&&r.chance(1,3)){o.clear(x.c,ti);x.m[ti].clear();}break;
      case 8:o.reserve(x.c,ti,int(r.below(20)));x.reg[ti]=true;break;
      case 9:{
        std::size_t t=0;for(auto& v:y.m)t+=v.size();
        if(t>12)break;
        int how=int(r.below(4));
        if(how==1){ // hint: content of the first segment is inserted before its first element
          if(x.c.empty())how=0;
        }
        const std::type_info* first=nullptr;
        if(how==1)for(auto q:x.c.segment_traversal())if(q.begin()!=q.end()){first=&q.type_info();break;}
        o.append(x.c,y.c,how);
        if(how==3)for(bool& b:x.reg)b=true;
        for(int i=0;i<NT;++i)if(!y.m[i].empty()){
          x.reg[i]=true;
          x.m[i].insert(x.m[i].end(),y.m[i].begin(),y.m[i].end());
        }
        if(how==1&&first)for(int i=0;i<NT;++i)if(*mod[0]->info[i]==*first&&!y.m[i].empty()){
          std::rotate(x.m[i].begin(),x.m[i].end()-y.m[i].size(),x.m[i].end());
        }
        break;
      }
      case 10:{
        int how=int(r.below(4));
        o.assign(x.c,y.c,how);
        for(int i=0;i<NT;++i){
          x.m[i]=y.m[i];x.reg[i]=y.reg[i];
          if(how>=2){y.m[i].clear();y.reg[i]=mod[1]->registered(y.c,i);}
        }
        break;
      }
      default:{
        bool eq=true;
        for(int i=0;i<NT;++i)eq=eq&&x.m[i]==y.m[i];
        PCV_CHECK(o.equal(x.c,y.c)==eq,"equality","comparison across modules: expected %d",int(eq));
        PCV_CHECK(o.equal(x.c,x.c),"equality","collection not equal to itself");
        if(r.chance(1,3)){C z;mod[r.below(2)]->assign(z,x.c,0);PCV_CHECK(o.equal(x.c,z)&&o.equal(z,x.c),"equality","copy not equal");}
      }
    }
    for(M& q:s)for(int k=0;k<2;++k){
      std::size_t t=0,segs=0;
      for(int i=0;i<NT;++i){
        PCV_CHECK(mod[k]->registered(q.c,i)==q.reg[i],"registration","module %d: type %d registered? expected %d",k,i,int(q.reg[i]));
        std::vector<int> v;
        int c=mod[k]->look(q.c,i,v);
        PCV_CHECK(c==(q.reg[i]?int(q.m[i].size()):-1)&&v==q.m[i],"content","module %d: segment of type %d has %d elements, expected %d, or other values",k,i,c,int(q.m[i].size()));
        t+=v.size();segs+=q.reg[i];
      }
      PCV_CHECK(q.c.size()==t,"content","size() is %zu, expected %zu",q.c.size(),t);
      std::size_t ns=0;for(auto z:q.c.segment_traversal()){(void)z;++ns;}
      PCV_CHECK(ns==segs,"registration","%zu segments for %zu types",ns,segs);
      int list=int(r.below(5));
      std::vector<Seen> out;
      bool algs=false;
      mod[k]->run(q.c,list,out,algs);
      PCV_CHECK(out.size()==t,"algorithm","for_each visited %zu elements of %zu",out.size(),t);
      auto it=q.c.begin();
      for(auto& e:out){
        int i=0;
        for(;i<NT;++i)if(std::find(q.m[i].begin(),q.m[i].end(),e.v)!=q.m[i].end())break;
        PCV_CHECK(i<NT&&e.v==get(*it),"algorithm","for_each visited another element");
        PCV_CHECK(e.ti==(lists[list][i]?i:-1),"restitution","element of type %d handed over by module %d as %d, list %d",i,k,e.ti,list);
        stats().add(e.ti>=0?"restituted":"not_restituted");
        ++it;
      }
      PCV_CHECK(algs,"restitution","algorithms do not agree on the types handed over, list %d",list);
      u64 sh=0;for(int i=0;i<NT;++i)sh=sh*4+(q.reg[i]?1+std::min<std::size_t>(q.m[i].size(),2):0);
      stats().sig.insert(pcv::mix(pcv::mix(sh,op*2+w),list*2+k));
    }
  }
  if(stats().samples.size()<3)stats().samples.push_back(pcv::trace_text());
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcvdso::body);}
