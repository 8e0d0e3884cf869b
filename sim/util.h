// Small helpers: PRNG, hashing, JSON.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static inline u64 mix64(u64 x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
static inline u64 hcomb(u64 h,u64 v){ return mix64(h*0x9ddfea08eb382d69ull ^ (v+0x7f4a7c15)); }
static inline u64 hstr(const std::string&s){ u64 h=1469598103934665603ull; for(unsigned char c:s){h^=c;h*=1099511628211ull;} return mix64(h); }
static inline u64 hbytes(const void*p,size_t n){ const u8*b=(const u8*)p; u64 h=n*0x9e37ull+1; while(n>=8){u64 v;memcpy(&v,b,8);h=(h^v)*0x9ddfea08eb382d69ull;h^=h>>29;b+=8;n-=8;} u64 t=0;memcpy(&t,b,n);return mix64(h^t); }

struct Rng { u64 s;
  explicit Rng(u64 seed=1):s(mix64(seed)){}
  u64 next(){ s+=0x9e3779b97f4a7c15ull; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); }
  bool chance(int num,int den){ return (int)below(den)<num; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  i64 logr(i64 a,i64 b); // log-uniform integer
  template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
};

struct J; typedef std::shared_ptr<J> JP;
struct J { enum T{NUL,BOOL,NUM,STR,ARR,OBJ} t=NUL; bool b=false; i64 i=0; double d=0; bool isint=true; std::string s; std::vector<J> a; std::vector<std::pair<std::string,J>> o;
  J(){} J(bool x):t(BOOL),b(x){} J(int x):t(NUM),i(x),d(x){} J(long x):t(NUM),i(x),d(x){} J(long long x):t(NUM),i(x),d(x){} J(u64 x):t(NUM),i((i64)x),d(x){} J(u32 x):t(NUM),i(x),d(x){} J(double x):t(NUM),i((i64)x),d(x),isint(false){} J(const char*x):t(STR),s(x){} J(const std::string&x):t(STR),s(x){}
  static J arr(){J j;j.t=ARR;return j;} static J obj(){J j;j.t=OBJ;return j;}
  J& set(const std::string&k,const J&v){ t=OBJ; for(auto&p:o) if(p.first==k){p.second=v;return *this;} o.push_back({k,v}); return *this; }
  void push(const J&v){t=ARR;a.push_back(v);}
  const J* get(const std::string&k)const{ for(auto&p:o) if(p.first==k) return &p.second; return nullptr; }
  i64 num(const std::string&k,i64 d0=0)const{ auto p=get(k); if(!p) return d0; if(p->t==BOOL) return p->b; return p->i; }
  std::string str(const std::string&k,const std::string&d0="")const{ auto p=get(k); return p?p->s:d0; }
  std::string dump()const; static bool parse(const std::string&,J&);
};
std::string sfmt(const char*f,...) __attribute__((format(printf,1,2)));
