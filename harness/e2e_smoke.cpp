#include "MiniDb.h"
#include "Logger/Logger.h"
#include <chrono>
#include <iostream>
using namespace mini;
static double now(){return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}
int main(int argc, char** argv) {
  logger::LogOptions lo(argv[0]); lo.severity_=logger::Severity::FATAL; lo.set_options(); lo.parse_command_line(argc, argv); logger::init(lo);
  double t0=now();
  Db db;
  std::cerr<<"init "<<now()-t0<<"\n";
  auto& c=db.ctx;
  Rows data{{1,10,1.5,"a"},{2,20,2.5,"b"},{1,Val(),3.5,"a"},{Val(),5,Val(),Val()}};
  db.addTable("t",{{"a",c.int32()},{"b",c.int64()},{"f",c.fp64()},{"s",db.dictType()}},data,{2,2});
  auto q=[&](const char*n,auto f){ double t=now(); try{auto b=db.builder(); auto r=f(b.scan("t"),b); std::cerr<<n<<" "<<str(r)<<" "<<now()-t<<"\n";}catch(std::exception&e){std::cerr<<n<<" EXC "<<e.what()<<"\n";} };
  for(int k=0;k<2;k++){
  q("proj",[&](auto s,auto&b){return db.run(s.proj({0,1,2,3}));});
  q("filter",[&](auto s,auto&b){return db.run(s.filter(s.ref("a").eq(1)).proj({0,1}));});
  q("agg",[&](auto s,auto&b){return db.run(s.agg({0},{"count","sum(b)","min(b)","avg(f)"}));});
  q("agg0",[&](auto s,auto&b){return db.run(s.agg(std::vector<int>{},{"count","sum(b)","min(b)","avg(f)"}));});
  q("aggs",[&](auto s,auto&b){return db.run(s.agg({"s"},{"count","sum(b)"}));});
  q("sort",[&](auto s,auto&b){return db.run(s.proj({0,1}).sort({1},"desc","first"));});
  q("join",[&](auto s,auto&b){auto r=b.scan("t"); auto l=s.proj({0,1}); auto j=l.join(r.proj({0,3},{"k","z"}),l.ref(0).eq(r.proj({0,3},{"k","z"}).ref(0))); return db.run(j.proj({0,1,3}));});
  q("join2",[&](auto s,auto&b){auto r=b.scan("t"); auto j=s.join(r,s.ref("a").eq(r.ref("a"))); return db.run(j.proj({0,1}));});
  q("filter2",[&](auto s,auto&b){return db.run(s.filter(s.ref("b").gt(7)).proj({0,1}));});
  }
  double t=now(); for(int i=0;i<100;i++){auto b=db.builder(); auto s=b.scan("t"); db.run(s.agg({0},{"count","sum(b)","min(b)","avg(f)"}));} std::cerr<<(now()-t)/100<<" per cached\n";
}
