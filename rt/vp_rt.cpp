// Native replay runtime: runs one harness entry on the concrete values of a case
// file and reports whether the property holds on the really compiled code.
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <new>
#include <map>
#include <set>
#include <string>
#include <vector>
template<class T> struct MA { typedef T value_type; MA(){} template<class U> MA(const MA<U>&){} T*allocate(size_t n){ return (T*)malloc(n*sizeof(T)); } void deallocate(T*p,size_t){ free(p);} template<class U> bool operator==(const MA<U>&)const{return true;} template<class U> bool operator!=(const MA<U>&)const{return false;} };
struct Nd { char k; unsigned long long v; };
static Nd *nd; static size_t nnd, ind;
struct Fill { unsigned ord; unsigned long off; unsigned char v; };
static Fill *fills; static size_t nfill; static unsigned char junk=0xa5;
static long *obs; static size_t nobs, iobs; static bool cmpobs;
typedef std::map<void*,std::pair<char,size_t>,std::less<void*>,MA<std::pair<void*const,std::pair<char,size_t>>>> BlockMap;
typedef std::set<const void*,std::less<const void*>,MA<const void*>> ObjSet;
static BlockMap *blocks; static ObjSet *objs; static int allocs, frees;
static void die(const char *what,const char*msg){ printf("VP-FAIL %s: %s\n",what,msg); fflush(stdout); _exit(10); }
static void diverge(const char*m){ printf("VP-DIVERGED %s\n",m); fflush(stdout); _exit(77); }
static unsigned long long next(char k){ if(ind>=nnd) diverge("out of inputs"); if(nd[ind].k!=k) diverge("input kind"); return nd[ind++].v; }
extern "C" {
int vp_int(const char*){ return (int)next('i'); }
uint8_t vp_u8(const char*){ return next('b'); }
uint16_t vp_u16(const char*){ return next('h'); }
uint32_t vp_u32(const char*){ return next('u'); }
uint64_t vp_u64(const char*){ return next('q'); }
bool vp_bool(const char*){ return next('t'); }
int vp_range(const char*,int lo,int hi){ if(lo>hi) diverge("range"); int v=(int)next('i'); if(v<lo||v>hi) diverge("range"); return v; }
int vp_choice(const char*,int n){ int v=(int)next('i'); if(v<0||v>=n) diverge("choice"); return v; }
void vp_assume(bool c){ if(!c) diverge("assume"); }
void vp_assert(bool c,const char*m){ if(!c) die("assert",m); }
void vp_fail(const char*m){ die("assert",m); }
void vp_reach(const char*){}
void vp_observe(long v){ if(cmpobs){ if(iobs>=nobs||obs[iobs]!=v){ printf("VP-OBSDIFF #%zu got %ld want %ld\n",iobs,v,iobs<nobs?obs[iobs]:0); fflush(stdout); _exit(11);} } iobs++; }
long vp_concretize(long v){ return v; }
int vp_heap_live(){ return blocks?(int)blocks->size():0; }
int vp_heap_allocs(){ return allocs; }
int vp_heap_frees(){ return frees; }
void vp_ctor(const void*p){ if(!objs->insert(p).second) die("lifetime","object constructed over a live object"); }
void vp_dtor(const void*p){ if(!objs->erase(p)) die("lifetime","destruction of an object that is not alive"); }
void vp_use(const void*p){ if(!objs->count(p)) die("lifetime","use of an object that is not alive"); }
int vp_live_objs(){ return (int)objs->size(); }
}
static void *gnew(size_t n,char kind){
  void*p=malloc(n?n:1); if(!p) die("memory","out of memory"); memset(p,junk,n);
  for(size_t i=0;i<nfill;i++) if((int)fills[i].ord==allocs&&fills[i].off<n) ((unsigned char*)p)[fills[i].off]=fills[i].v;
  allocs++; if(allocs>2000000) die("memory","unbounded allocation");
  if(blocks) (*blocks)[p]=std::make_pair(kind,n); return p; }
static void gdel(void*p,char kind){
  if(!p) return; if(blocks){ auto it=blocks->find(p); if(it==blocks->end()) die("memory","free of a pointer that is not a live allocation"); if(it->second.first!=kind) die("memory","mismatched allocation/deallocation function");
    // objects inside freed storage are no longer alive as far as reuse of the address is concerned
    for(auto o=objs->lower_bound(p);o!=objs->end()&&(char*)*o<(char*)p+it->second.second;){ static bool leaked; leaked=true; die("lifetime","storage released while an object in it is still alive"); }
    blocks->erase(it);} frees++; free(p); }
void *operator new(size_t n){ return gnew(n,'n'); }
void *operator new[](size_t n){ return gnew(n,'a'); }
void operator delete(void*p) noexcept { gdel(p,'n'); }
void operator delete(void*p,size_t) noexcept { gdel(p,'n'); }
void operator delete[](void*p) noexcept { gdel(p,'a'); }
void operator delete[](void*p,size_t) noexcept { gdel(p,'a'); }
static int runCase(const char*file,int j){
  FILE*f=fopen(file,"r"); if(!f) return 3; char line[4096]; char entry[256]=""; std::vector<Nd> n; std::vector<Fill> fi; std::vector<long> ob; bool sample=false;
  while(fgets(line,sizeof line,f)){ char k; unsigned long long a,b,c; 
    if(!strncmp(line,"kind sample",11)) sample=true; else if(sscanf(line,"entry %255s",entry)==1) continue; else if(sscanf(line,"nd %c %llu",&k,&a)==2) n.push_back(Nd{k,a});
    else if(sscanf(line,"fill %llu %llu %llu",&a,&b,&c)==3) fi.push_back(Fill{(unsigned)a,(unsigned long)b,(unsigned char)c}); else if(!strncmp(line,"obs ",4)) ob.push_back(atol(line+4)); }
  fclose(f); nd=n.data(); nnd=n.size(); if(j<0) { fills=fi.data(); nfill=fi.size(); } else junk=j; obs=ob.data(); nobs=ob.size(); cmpobs=sample;
  void(*e)()=(void(*)())dlsym(RTLD_DEFAULT,entry); if(!e){ fprintf(stderr,"no entry %s\n",entry); return 3; }
  objs=new((void*)malloc(sizeof(ObjSet))) ObjSet; allocs=frees=0; blocks=new((void*)malloc(sizeof(BlockMap))) BlockMap;
  allocs=0;
  e();
  if(sample&&iobs!=nobs){ printf("VP-OBSDIFF count\n"); fflush(stdout); _exit(11); }
  printf("VP-OK\n"); fflush(stdout); _exit(0);
}
int main(int argc,char**argv){
  // usage: prog case...   Each case is run in a child; result line: RESULT file status
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  int tmo=getenv("VP_TIMEOUT")?atoi(getenv("VP_TIMEOUT")):10;
  int js[4]={-1,0x00,0xff,0xa5}; int nj=getenv("VP_ONEFILL")?1:4;
  for(int i=1;i<argc;i++){ std::string worst="OK"; 
    for(int q=0;q<nj;q++){
      fflush(stdout); int pfd[2]; if(pipe(pfd)) return 3; pid_t p=fork(); if(!p){ close(pfd[0]); dup2(pfd[1],1); dup2(pfd[1],2); alarm(tmo); _exit(runCase(argv[i],js[q])); }
      close(pfd[1]); std::string out; char b[4096]; ssize_t n; while((n=read(pfd[0],b,sizeof b))>0) if(out.size()<20000) out.append(b,n); close(pfd[0]); int st; waitpid(p,&st,0);
      std::string r;
      if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&out.find("VP-OK")!=std::string::npos) r="OK"; else if(WIFEXITED(st)&&WEXITSTATUS(st)==77) r="DIVERGED"; else if(WIFEXITED(st)&&WEXITSTATUS(st)==11) r="OBSDIFF"; else if(WIFEXITED(st)&&WEXITSTATUS(st)==3) r="ERROR";
      else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) r="FAIL timeout"; else { r="FAIL "; size_t a=out.find("VP-FAIL"); if(a==std::string::npos) a=out.find("ERROR: AddressSanitizer"); if(a==std::string::npos) a=out.find("runtime error"); if(a==std::string::npos) r+="status "+std::to_string(st); else r+=out.substr(a,out.find('\n',a)-a); }
      if(r.substr(0,4)=="FAIL"){ worst=r; break; } if(worst=="OK") worst=r;
      if(nfill==0&&q==0&&0) break;
    }
    printf("RESULT %s %s\n",argv[i],worst.c_str()); fflush(stdout); }
  return 0;
}
