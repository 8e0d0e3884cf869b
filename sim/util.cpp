#include "util.h"
#include <cmath>
#include <cstdarg>
i64 Rng::logr(i64 a,i64 b){ if(b<=a) return a; double x=std::log((double)a)+unit()*(std::log((double)b+1)-std::log((double)a)); i64 r=(i64)std::floor(std::exp(x)); return r<a?a:(r>b?b:r); }
std::string sfmt(const char*f,...){ char buf[4096]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap); return buf; }
static void esc(std::string&r,const std::string&s){ r+='"'; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } r+='"'; }
static void dmp(std::string&r,const J&j){ switch(j.t){ case J::NUL:r+="null";break; case J::BOOL:r+=j.b?"true":"false";break; case J::NUM:{char b[40]; if(j.isint) snprintf(b,40,"%lld",(long long)j.i); else snprintf(b,40,"%.17g",j.d); r+=b;break;} case J::STR:esc(r,j.s);break;
 case J::ARR:{r+='[';bool f=1;for(auto&x:j.a){if(!f)r+=',';f=0;dmp(r,x);}r+=']';break;} case J::OBJ:{r+='{';bool f=1;for(auto&x:j.o){if(!f)r+=',';f=0;esc(r,x.first);r+=':';dmp(r,x.second);}r+='}';break;} } }
std::string J::dump()const{std::string r;dmp(r,*this);return r;}
struct PS{const char*p,*e;bool ok=true; void ws(){while(p<e&&(*p==' '||*p=='\n'||*p=='\t'||*p=='\r'))p++;}
 J val(){ ws(); J j; if(p>=e){ok=false;return j;} char c=*p; if(c=='{'){p++;j.t=J::OBJ;ws();if(p<e&&*p=='}'){p++;return j;} while(ok){ws();J k=val();if(k.t!=J::STR){ok=false;break;}ws();if(p>=e||*p!=':'){ok=false;break;}p++;J v=val();j.o.push_back({k.s,v});ws();if(p<e&&*p==','){p++;continue;}if(p<e&&*p=='}'){p++;break;}ok=false;}return j;}
 if(c=='['){p++;j.t=J::ARR;ws();if(p<e&&*p==']'){p++;return j;} while(ok){j.a.push_back(val());ws();if(p<e&&*p==','){p++;continue;}if(p<e&&*p==']'){p++;break;}ok=false;}return j;}
 if(c=='"'){p++;j.t=J::STR;while(p<e&&*p!='"'){ if(*p=='\\'&&p+1<e){p++; if(*p=='n')j.s+='\n'; else if(*p=='t')j.s+='\t'; else if(*p=='u'&&p+4<e){ char b[5]={p[1],p[2],p[3],p[4],0}; j.s+=(char)strtol(b,0,16); p+=4;} else j.s+=*p; p++;} else j.s+=*p++; } if(p<e)p++; else ok=false; return j;}
 if(!strncmp(p,"true",4)){p+=4;return J(true);} if(!strncmp(p,"false",5)){p+=5;return J(false);} if(!strncmp(p,"null",4)){p+=4;return j;}
 char*q; bool isint=true; const char*z=p; while(z<e&&strchr("+-0123456789.eE",*z)){ if(*z=='.'||*z=='e'||*z=='E')isint=false; z++; } if(z==p){ok=false;return j;} std::string t(p,z); p=z; if(isint) return J((long long)strtoull(t[0]=='-'?t.c_str()+1:t.c_str(),&q,10)*(t[0]=='-'?-1:1)); return J(strtod(t.c_str(),&q)); } };
bool J::parse(const std::string&s,J&o){PS ps{s.data(),s.data()+s.size()};o=ps.val();ps.ws();return ps.ok&&ps.p==ps.e;}
