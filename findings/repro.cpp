// Reproduces, against the real library, each defect the checks found on the pinned tree.
// usage: repro <name>; exit 0 = behaves as the property says, 1 = defect (crashes count as defect too)
#include <cstdio>
#include <cstring>
#include <cmath>
#include <limits>
#include "oqualities.h"
#include "hqualities.h"
#include "dqualities.h"
#include "opartitioner.h"
#include "hpartitioner.h"
#include "dpartitioner.h"
#include "oaggregationn.h"
#include "haggregationn.h"
#include "daggregationn.h"
using namespace lpaggreg;
#define NEED(c) do{ if(!(c)){ printf("defect: %s\n", #c); return 1; } }while(0)
typedef long double L;
static shared_ptr<OValuesN1> ov(vector<double> v){return make_shared<OValuesN1>(v);}
int main(int argc,char**argv){
  string n=argv[1];
  if(n=="quality_eq"){ Quality a(100,1),b(100,2); NEED(!(a==b)); }
  else if(n=="tradeoff_cmp"){ auto q1=make_shared<Quality>(1,0), q2=make_shared<Quality>(2,0);
    Tradeoff a(5,q1), b(5,q2); NEED((b>a)==(a<b)); NEED(!(a==b)); NEED((a<=b)==(b>=a)); }
  else if(n=="tradeoff_copy"){ auto q1=make_shared<Quality>(1,1); Tradeoff a(5,q1); Tradeoff b=a; b+=a; NEED(a.getQuality()->getGain()==1); }
  else if(n=="path_unbalanced"){ // leaves 0,1; 0->2(root), 1->3->2
    HValuesMetaData m(2,{2,3,-1,2}); NEED(m.getRoot()==2); NEED(m.getSize()[2]==2); NEED(m.getPath().size()==4); NEED(m.getPath()[3]==2); NEED(m.getChildren()[2].size()==2); }
  else if(n=="path_twice"){ HValuesMetaData m(2,{2,2,-1}); m.setPath(); NEED(m.getPath().size()==3); NEED(m.getSize()[2]==2); NEED(m.getChildren()[2].size()==2);}
  else if(n=="normalize_root_first"){ // nodes 0..3 leaves, 4 root, 5,6 inner
    auto v=make_shared<HValuesN1>(vector<double>{1,2,3,4}, vector<int>{5,5,6,6,-1,4,4});
    HQualities q(v); q.computeQualities(); L g=(*q.getQualities())[5]->getGain(), r=(*q.getQualities())[4]->getGain(); q.normalize();
    NEED(fabsl((*q.getQualities())[5]->getGain()-g/r)<1e-12);
    auto dv=make_shared<DValuesN2>(vector<vector<double>>{{1,2},{3,1},{2,2},{4,1}}, vector<int>{5,5,6,6,-1,4,4});
    DQualities d(dv); d.computeQualities(); g=(*(*d.getQualities())[5])(0,1)->getGain(); r=(*(*d.getQualities())[4])(0,1)->getGain(); d.normalize();
    NEED(fabsl((*(*d.getQualities())[5])(0,1)->getGain()-g/r)<1e-12); }
  else if(n=="normalize_ready"){ OQualities q(ov({1,2,3})); q.computeQualities(); OQualities r(q.getQualities()); r.normalize(); NEED((*r.getQualities())(0,2)->getGain()==1);
    auto dv=make_shared<DValuesN2>(vector<vector<double>>{{1,2},{3,1}}, vector<int>{2,2,-1}); DQualities d(dv); d.computeQualities(); DQualities e(d.getQualities(), d.getMetaData()); e.normalize(); NEED((*(*e.getQualities())[2])(0,1)->getGain()==1);}
  else if(n=="normalize_uniform"){ OQualities q(ov({1,1,1,1})); q.computeQualities(); q.normalize(); NEED((*q.getQualities())(0,3)->getLoss()==0); }
  else if(n=="single_node"){ auto v=make_shared<HValuesN1>(vector<double>{3}, vector<int>{-1}); HQualities q(v); q.computeQualities(); NEED((*q.getQualities())[0]->getGain()==0 && (*q.getQualities())[0]->getLoss()==0);
    HPartitioner hp(q); auto p=hp.computeBestPartition(0.5); NEED(p->getParts().size()==1 && p->getParts()[0].getH()==0);
    auto dv=make_shared<DValuesN2>(vector<vector<double>>{{1,2,1}}, vector<int>{-1}); DQualities d(dv); d.computeQualities(); OQualities o(ov({1,2,1})); o.computeQualities();
    for(int i=0;i<3;i++)for(int j=i;j<3;j++) NEED((*(*d.getQualities())[0])(i,j)->getLoss()==(*o.getQualities())(i,j)->getLoss());
    DPartitioner dp(d); NEED(dp.computeBestPartition(1)->getParts().size()>=1);}
  else if(n=="aggregate_hierarchy"){ auto v=make_shared<HValuesN1>(vector<double>{1,2,4,8}, vector<int>{4,4,5,5,6,6,-1});
    HAggregateN1 leaf(HPart(1,1,nullptr),v); NEED(leaf.getSum()==2); HAggregateN1 in(HPart(5,2,nullptr),v); NEED(in.getSum()==12); NEED(in.getMean()==6); HAggregateN1 r(HPart(6,4,nullptr),v); NEED(r.getSum()==15);
    auto dv=make_shared<DValuesN2>(vector<vector<double>>{{1,2},{3,4}}, vector<int>{2,2,-1}); DAggregateN2 a(DPart(1,1,0,1,nullptr),dv); NEED(a.getSum()==7); }
  else if(n=="sweep_same_ends"){ OQualities q(ov({1,5,1,2})); q.computeQualities(); q.normalize(); OPartitioner p(q); p.computeBestPartitions(0.01,0.5,0.5); NEED(p.getPList().size()==1); NEED(p.getPartitions().size()==1); }
  else if(n=="sweep_tiny_threshold"){ OQualities q(ov({1,5,1,2})); q.computeQualities(); q.normalize(); OPartitioner p(q); p.computeBestPartitions(0); NEED(p.getPList().size()>=1); }
  else if(n=="query_empty"){ OQualities q(ov({1,5,1,2})); q.computeQualities(); OPartitioner p(q); float a=p.getP(P_MAX), b=p.getP(P_OPT), c=p.computeAUC(), d=p.getP(P_MIN); NEED(a==0&&b==0&&d==0); NEED(c==1); }
  else if(n=="query_min"){ OQualities q(ov({1,5,1,2})); q.computeQualities(); OPartitioner p(q); p.computeBestPartitions(0.01,0.25,1.0); NEED(p.getP(P_MIN)==p.getPList()[0]); }
  else if(n=="query_opt_large"){ OQualities q(ov({1e9,5e9,1e9,2e9})); q.computeQualities(); OPartitioner p(q); p.computeBestPartitions(0.01); volatile float junk=123; (void)junk; float o=p.getP(P_OPT); bool in=false; for(float f: p.getPList()) in|=f==o; 
     // every score exceeds RAND_MAX, so the pinned tree returns an uninitialised float
     for(auto &e: p.getQualityList()){ L g=e.second->getGain(), l=e.second->getLoss(); L s=(g-1)*(g-1)+l*l; L go=p.getQualityList()[o]?p.getQualityList()[o]->getGain():-1, lo=p.getQualityList()[o]?p.getQualityList()[o]->getLoss():-1; NEED(in && (go-1)*(go-1)+lo*lo<=s);} }
  else if(n=="precision"){ L v=3.0L+1e-18L*3; NEED(fabsl(entropyReduction(3.0L,0)-3.0L*log2l(3.0L))<1e-18L*4); }
  else if(n=="d_optimal"){ // t0 differs between the leaves, t1 is the same: best is leaves@0 and root@1
    auto dv=make_shared<DValuesN2>(vector<vector<double>>{{9,4},{1,4}}, vector<int>{2,2,-1}); DQualities d(dv); d.computeQualities(); d.normalize(); DPartitioner dp(d);
    for(float p=0;p<=1;p+=0.0625f){ auto part=dp.computeBestPartition(p); auto Q=d.getQualities(); auto val=[&](shared_ptr<Quality> q){return (L)p*q->getGain()-(1-(L)p)*q->getLoss();};
      L got=0; for(auto x: part->getParts()) got+=val(x.getQuality());
      L alt=val((*(*Q)[0])(0,0))+val((*(*Q)[1])(0,0))+val((*(*Q)[2])(1,1));
      NEED(got>=alt-1e-15L);} }
  else if(n=="tradeoff_plus"){
#ifdef LINK_PLUS
    auto q1=make_shared<Quality>(1,1); Tradeoff a(5,q1), b(7,q1); Tradeoff c=lpaggreg::operator+(a,b); NEED(c.getValue()==12); NEED(lpaggreg::operator*(a,b).getValue()==35);
#endif
  }
  else { puts("unknown"); return 2; }
  puts("ok"); return 0;
}
