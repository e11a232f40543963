#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <set>

SolverStats gSolver;
namespace {
struct KeyH { size_t operator()(const Expr *e) const {
    size_t h = e->k * 1315423911u + e->w; auto mix=[&](uint64_t v){ h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); };
    mix(e->c); mix((uint64_t)e->a>>4); mix((uint64_t)e->b>>4); mix((uint64_t)e->d>>4); return h; } };
struct KeyE { bool operator()(const Expr *x, const Expr *y) const {
    return x->k==y->k && x->w==y->w && x->c==y->c && x->a==y->a && x->b==y->b && x->d==y->d; } };
std::unordered_map<const Expr*, E, KeyH, KeyE> table;
std::vector<E> byId;
std::vector<VarInfo> vars;
std::map<std::tuple<uint32_t,std::string,unsigned>, uint32_t> varIdx;

E intern(EK k, unsigned w, uint64_t c, E a=nullptr, E b=nullptr, E d=nullptr) {
    Expr key; key.k=k; key.w=w; key.c=c; key.a=a; key.b=b; key.d=d;
    auto it=table.find(&key); if(it!=table.end()) return it->second;
    Expr *e=new Expr(); e->k=k; e->w=(uint8_t)w; e->c=c; e->a=a; e->b=b; e->d=d; e->z=nullptr; e->stamp=0; e->val=0;
    e->id=(uint32_t)byId.size(); byId.push_back(e);
    if(k==EVar) e->vars.push_back((uint32_t)c);
    else for(E x: {a,b,d}) if(x && !x->vars.empty()) {
        if(e->vars.empty()) e->vars=x->vars;
        else if(e->vars!=x->vars){ std::vector<uint32_t> r; std::set_union(e->vars.begin(),e->vars.end(),x->vars.begin(),x->vars.end(),std::back_inserter(r)); e->vars.swap(r);} }
    table.emplace(e,e); return e;
}
}
size_t exprCount(){ return byId.size(); }
const std::vector<VarInfo> &allVars(){ return vars; }

bool foldBin(EK k, unsigned w, uint64_t a, uint64_t b, uint64_t &r) {
    uint64_t m=maskw(w); a&=m; b&=m;
    switch(k){
    case EAdd: r=(a+b)&m; return true; case ESub: r=(a-b)&m; return true; case EMul: r=(a*b)&m; return true;
    case EUDiv: if(!b) return false; r=a/b; return true;
    case EURem: if(!b) return false; r=a%b; return true;
    case ESDiv: { if(!b) return false; int64_t x=sx(a,w),y=sx(b,w); if(y==-1){ r=(0-a)&m; return true;} r=(uint64_t)(x/y)&m; return true; }
    case ESRem: { if(!b) return false; int64_t x=sx(a,w),y=sx(b,w); if(y==-1){ r=0; return true;} r=(uint64_t)(x%y)&m; return true; }
    case EAnd: r=a&b; return true; case EOr: r=a|b; return true; case EXor: r=a^b; return true;
    case EShl: r=b>=w?0:(a<<b)&m; return true; case ELShr: r=b>=w?0:a>>b; return true;
    case EAShr: r=(uint64_t)(sx(a,w)>>(b>=w?w-1:b))&m; return true;
    case EEq: r=a==b; return true; case EUlt: r=a<b; return true; case EUle: r=a<=b; return true;
    case ESlt: r=sx(a,w)<sx(b,w); return true; case ESle: r=sx(a,w)<=sx(b,w); return true;
    default: abort(); }
}
E mkConst(uint64_t v, unsigned w){ return intern(EConst,w,v&maskw(w)); }
E mkVar(uint32_t seq, const std::string &name, unsigned w){
    auto key=std::make_tuple(seq,name,w); auto it=varIdx.find(key); uint32_t i;
    if(it==varIdx.end()){ i=(uint32_t)vars.size(); vars.push_back({name,(uint8_t)w,seq}); varIdx[key]=i; } else i=it->second;
    return intern(EVar,w,i);
}
static bool isC(E e,uint64_t &v){ if(e->k==EConst){v=e->c;return true;} return false; }
E mkNot(E a){
    if(a->k==EConst) return mkConst(!a->c,1);
    if(a->k==EXor && a->b->k==EConst && a->b->c==1 && a->w==1) return a->a;
    return intern(EXor,1,0,a,mkConst(1,1));
}
// unsigned interval a value lies in for every assignment of the variables
struct Iv { uint64_t lo, hi; };
static std::vector<Iv> ivMemo; static std::vector<uint8_t> ivDone;
static Iv interval(E e){
    uint64_t m=maskw(e->w); if(e->k==EConst) return Iv{e->c,e->c};
    if(ivDone.size()<=e->id){ ivDone.resize(e->id+1024,0); ivMemo.resize(e->id+1024); }
    if(ivDone[e->id]) return ivMemo[e->id];
    Iv r{0,m};
    switch(e->k){
    case EAdd: { Iv a=interval(e->a), b=interval(e->b); uint64_t h=(a.hi+b.hi)&m, l=(a.lo+b.lo)&m; bool oh=h<a.hi, ol=l<a.lo; if(oh==ol) r=Iv{l,h}; break; }
    case ESub: { Iv a=interval(e->a), b=interval(e->b); if(a.lo>=b.hi) r=Iv{a.lo-b.hi,a.hi-b.lo}; break; }
    case EMul: { Iv a=interval(e->a), b=interval(e->b); unsigned __int128 h=(unsigned __int128)a.hi*b.hi; if(h<=m) r=Iv{a.lo*b.lo,(uint64_t)h}; break; }
    case EUDiv: if(e->b->k==EConst&&e->b->c){ Iv a=interval(e->a); r=Iv{a.lo/e->b->c,a.hi/e->b->c}; } break;
    case EURem: if(e->b->k==EConst&&e->b->c){ Iv a=interval(e->a); r=a.hi<e->b->c?a:Iv{0,e->b->c-1}; } break;
    case EAnd: { Iv a=interval(e->a), b=interval(e->b); r=Iv{0,a.hi<b.hi?a.hi:b.hi}; break; }
    case EOr: case EXor: { Iv a=interval(e->a), b=interval(e->b); uint64_t t=a.hi|b.hi; if(t) t=~0ull>>__builtin_clzll(t); r=Iv{e->k==EOr?(a.lo>b.lo?a.lo:b.lo):0,t}; break; }
    case EZExt: r=interval(e->a); break;
    case ESExt: { Iv a=interval(e->a); if(a.hi<=maskw(e->a->w)>>1) r=a; break; }
    case EIte: { Iv a=interval(e->b), b=interval(e->d); r=Iv{a.lo<b.lo?a.lo:b.lo,a.hi>b.hi?a.hi:b.hi}; break; }
    case EConcat: { Iv a=interval(e->a), b=interval(e->b); unsigned n=e->b->w; r=Iv{(a.lo<<n)+b.lo,(a.hi<<n)+b.hi}; break; }
    case EExtract: { Iv a=interval(e->a); if(a.hi>>e->c<=m) r=Iv{a.lo>>e->c,a.hi>>e->c}; break; }
    default: break;
    }
    if(ivDone.size()<=e->id){ ivDone.resize(e->id+1024,0); ivMemo.resize(e->id+1024); }
    ivDone[e->id]=1; ivMemo[e->id]=r; return r;
}
// a sum of products with constants, in the natural numbers (no step wraps around)
typedef std::map<E,uint64_t,bool(*)(E,E)> Terms;
static bool lessId(E a,E b){ return a->id<b->id; }
static unsigned tz(E e){ switch(e->k){ case EConst: return e->c?__builtin_ctzll(e->c):64; case EMul: return e->b->k==EConst&&e->b->c?__builtin_ctzll(e->b->c):0; case EAdd: { unsigned a=tz(e->a),b=tz(e->b); return a<b?a:b; } default: return 0; } }
static bool linear(E e,uint64_t f,Terms&t,uint64_t&c){
    unsigned __int128 hi=(unsigned __int128)interval(e).hi*f; if(hi>>63) return false;
    if(e->k==EConst){ c+=e->c*f; return !(c>>63); }
    if(e->k==EAdd||(e->k==EOr&&e->b->k==EConst&&e->b->c<(1ull<<std::min(tz(e->a),63u)))){ unsigned __int128 h=(unsigned __int128)interval(e->a).hi+interval(e->b).hi; if(h<=maskw(e->w)) return linear(e->a,f,t,c)&&linear(e->b,f,t,c); }
    if(e->k==EMul&&e->b->k==EConst){ unsigned __int128 h=(unsigned __int128)interval(e->a).hi*e->b->c; if(h<=maskw(e->w)&&!(((unsigned __int128)e->b->c*f)>>63)) return linear(e->a,e->b->c*f,t,c); }
    if(e->k==EZExt) return linear(e->a,f,t,c);
    uint64_t&q=t[e]; if((q+f)>>63) return false; q+=f; return true;
}
static E side(const Terms&t,uint64_t g,uint64_t c,unsigned w){ E r=mkConst(c,w); bool first=true; for(auto&x:t) if(x.second){ E a=x.first->w>w?mkExtract(x.first,0,w):mkZExt(x.first,w); E m=mkBin(EMul,a,mkConst(x.second/g,w)); r=first&&!c?m:mkBin(EAdd,r,m); first=false; } return r; }
static E linearLess(E a,E b){ // a < b, or null
    Terms x(lessId),y(lessId); uint64_t c=0,d=0; if(!linear(a,1,x,c)||!linear(b,1,y,d)) return nullptr;
    for(auto&p:x){ auto it=y.find(p.first); if(it!=y.end()){ uint64_t m=std::min(p.second,it->second); p.second-=m; it->second-=m; } }
    uint64_t m=std::min(c,d); c-=m; d-=m; uint64_t g=0;
    for(auto*z:{&x,&y}) for(auto&p:*z){ uint64_t u=p.second,v=g; while(u){ uint64_t n=v%u; v=u; u=n; } g=v; }
    if(!g) return mkConst(c<d,1);
    if(d) d=(d+g-1)/g; else c=c/g;
    unsigned __int128 hx=c,hy=d; for(auto&p:x) if(p.second) hx+=(unsigned __int128)interval(p.first).hi*(p.second/g); for(auto&p:y) if(p.second) hy+=(unsigned __int128)interval(p.first).hi*(p.second/g);
    if(hx<(unsigned __int128)d) return mkConst(1,1);
    unsigned __int128 h=hx>hy?hx:hy; unsigned w=1; while(w<63&&(h>>w)) ++w; if(h>>w) return nullptr;
    if(d) return mkNot(mkBin(EUlt,side(y,g,d-1,w),side(x,g,0,w))); // the constant is kept on the left
    return mkBin(EUlt,side(x,g,c,w),side(y,g,0,w));
}
static bool inLinear;
E mkBin(EK k, E a, E b){
    if(a->w!=b->w){ fprintf(stderr,"engine: width mismatch %d %d in op %d\n",a->w,b->w,k); abort(); }
    unsigned w=a->w; bool cmp=k>=EEq; unsigned rw=cmp?1:w; uint64_t x,y,r; bool ca=isC(a,x), cb=isC(b,y);
    if(ca&&cb&&foldBin(k,w,x,y,r)) return mkConst(r,rw);
    // commutative: constant to the right
    if((k==EAdd||k==EMul||k==EAnd||k==EOr||k==EXor||k==EEq)){ if(ca&&!cb){ std::swap(a,b); std::swap(x,y); std::swap(ca,cb);} else if(!cb && a->id>b->id) std::swap(a,b); }
    switch(k){
    case EAdd: if(cb&&y==0) return a;
        for(int i=0;i<2;++i){ E m=i?a:b, t=i?b:a; if(m->k==EMul&&m->b->k==EConst&&t->k==EAdd) for(int j=0;j<2;++j){ E n=j?t->a:t->b; if(n->k==EMul&&n->a==m->a&&n->b->k==EConst&&((n->b->c+m->b->c)&maskw(w))==0) return j?t->b:t->a; } } if(cb&&a->k==EAdd&&a->b->k==EConst) return mkBin(EAdd,a->a,mkConst(a->b->c+y,w)); break;
    case ESub: if(cb) return mkBin(EAdd,a,mkConst(0-y,w)); if(a==b) return mkConst(0,w); break;
    case EMul: if(cb&&y==0) return b; if(cb&&y==1) return a; break;
    case EUDiv: case ESDiv: case EURem: case ESRem:
        if(cb&&y==1) return k==EUDiv||k==ESDiv?a:mkConst(0,w);
        if(cb&&y&&(k==EUDiv||k==EURem||y<=maskw(w)>>1)){ Iv v=interval(a);
            if((k==ESDiv||k==ESRem)&&v.hi<=maskw(w)>>1) return mkBin(k==ESDiv?EUDiv:EURem,a,b);
            if(k==EUDiv||k==EURem){ uint64_t q=v.lo/y; if(q==v.hi/y) return k==EUDiv?mkConst(q,w):mkBin(EAdd,a,mkConst(0-q*y,w)); } }
        break;
    case EAnd: if(a==b) return a; if(cb&&y==0) return b; if(cb&&y==maskw(w)) return a;
        if(cb && (y&(y+1))==0){ unsigned n=64-__builtin_clzll(y); if(n<w) return mkZExt(mkExtract(a,0,n),w);} break;
    case EOr: if(a==b) return a; if(cb&&y==0) return a; if(cb&&y==maskw(w)) return b; break;
    case EXor: if(a==b) return mkConst(0,w); if(cb&&y==0) return a;
        if(cb&&a->k==EXor&&a->b->k==EConst) return mkBin(EXor,a->a,mkConst(a->b->c^y,w)); break;
    case EShl: if(cb&&y==0) return a; if(cb&&y>=w) return mkConst(0,w); if(cb) return mkConcat(mkExtract(a,0,w-y),mkConst(0,y)); break;
    case ELShr: if(cb&&y==0) return a; if(cb&&y>=w) return mkConst(0,w); if(cb) return mkZExt(mkExtract(a,y,w-y),w); break;
    case EAShr: if(cb&&y==0) return a; if(cb&&y<w) return mkSExt(mkExtract(a,y,w-y),w); break;
    case EEq:
        if(a==b) return mkConst(1,1);
        if(w==1&&cb) return y? a: mkNot(a);
        if(cb){
            if(a->k==EZExt){ unsigned n=a->a->w; if(y>maskw(n)) return mkConst(0,1); return mkBin(EEq,a->a,mkConst(y,n)); }
            if(a->k==ESExt){ unsigned n=a->a->w; if((uint64_t)(sx(y,n)&maskw(w))!=y) return mkConst(0,1); return mkBin(EEq,a->a,mkConst(y,n)); }
            if(a->k==EAdd&&a->b->k==EConst) return mkBin(EEq,a->a,mkConst(y-a->b->c,w));
            if(a->k==EXor&&a->b->k==EConst) return mkBin(EEq,a->a,mkConst(y^a->b->c,w));
            if(a->k==EConcat){ unsigned n=a->b->w; return mkBin(EAnd,mkBin(EEq,a->a,mkConst(y>>n,w-n)),mkBin(EEq,a->b,mkConst(y,n))); }
            if(a->k==EIte){ E t=mkBin(EEq,a->b,b), f=mkBin(EEq,a->d,b); if(t->k==EConst||f->k==EConst) return mkIte(a->a,t,f); }
        } break;
    case EUlt: if(a==b) return mkConst(0,1); if(cb&&y==0) return mkConst(0,1); if(ca&&x==maskw(w)) return mkConst(0,1);
        { Iv p=interval(a), q=interval(b); if(p.hi<q.lo) return mkConst(1,1); if(p.lo>=q.hi) return mkConst(0,1); }
        if(w>=32&&!inLinear&&a->k!=EVar&&b->k!=EVar){ inLinear=true; E r=linearLess(a,b); inLinear=false;
            if(r&&getenv("VP_SELF")) for(int i=0;i<20;++i){ Assign as(allVars().size()); for(size_t j=0;j<as.size();++j) as[j]=(i&1?(uint64_t)rand()*rand():(uint64_t)rand()%3-1)&maskw(allVars()[j].w); if((evalExpr(a,as)<evalExpr(b,as))!=evalExpr(r,as)){ fprintf(stderr,"linear: wrong\n"); abort(); } }
            if(r) return r; }
        if(cb&&y==1) return mkEq(a,mkConst(0,w));
        if(cb&&a->k==EZExt){ unsigned n=a->a->w; if(y>maskw(n)) return mkConst(1,1); return mkBin(EUlt,a->a,mkConst(y,n)); }
        if(ca&&b->k==EZExt){ unsigned n=b->a->w; if(x>=maskw(n)) return mkConst(0,1); return mkBin(EUlt,mkConst(x,n),b->a); }
        break;
    case EUle: return mkNot(mkBin(EUlt,b,a));
    case ESle: return mkNot(mkBin(ESlt,b,a));
    case ESlt: if(a==b) return mkConst(0,1);
        { Iv p=interval(a), q=interval(b); uint64_t h=maskw(w)>>1; if(w>1&&p.hi<=h&&q.hi<=h) return mkBin(EUlt,a,b); }
        if(cb&&a->k==EZExt&&a->a->w<w){ if(sx(y,w)<=0) return mkConst(0,1); return mkBin(EUlt,a,b); }
        if(ca&&b->k==EZExt&&b->a->w<w){ if(sx(x,w)<0) return mkConst(1,1); return mkBin(EUlt,a,b); }
        if(a->k==EZExt&&b->k==EZExt&&a->a->w<w&&b->a->w<w) return mkBin(EUlt,a,b);
        break;
    default: break; }
    return intern(k,rw,0,a,b);
}
E mkConcat(E hi,E lo){
    unsigned w=hi->w+lo->w; if(w>64) abort();
    if(hi->k==EConst&&lo->k==EConst) return mkConst((hi->c<<lo->w)|lo->c,w);
    if(hi->k==EConst&&hi->c==0) return mkZExt(lo,w);
    if(hi->k==EExtract&&lo->k==EExtract&&hi->a==lo->a&&hi->c==lo->c+lo->w) return mkExtract(hi->a,lo->c,w);
    if(hi->k==EExtract&&lo==hi->a&&false) return lo;
    return intern(EConcat,w,0,hi,lo);
}
E mkExtract(E a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a;
    if(lo+w>a->w) abort();
    switch(a->k){
    case EConst: return mkConst(a->c>>lo,w);
    case EExtract: return mkExtract(a->a,a->c+lo,w);
    case EConcat: { unsigned n=a->b->w; if(lo>=n) return mkExtract(a->a,lo-n,w); if(lo+w<=n) return mkExtract(a->b,lo,w);
        return mkConcat(mkExtract(a->a,0,lo+w-n),mkExtract(a->b,lo,n-lo)); }
    case EZExt: { unsigned n=a->a->w; if(lo>=n) return mkConst(0,w); if(lo+w<=n) return mkExtract(a->a,lo,w); return mkZExt(mkExtract(a->a,lo,n-lo),w); }
    case ESExt: { unsigned n=a->a->w; if(lo+w<=n) return mkExtract(a->a,lo,w); if(lo<n) return mkSExt(mkExtract(a->a,lo,n-lo),w); break; }
    case EIte: if(a->b->k==EConst||a->d->k==EConst) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->d,lo,w)); break;
    case EAnd: case EOr: case EXor: return mkBin(a->k,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
    case EAdd: case ESub: case EMul: if(lo==0) return mkBin(a->k,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    default: break; }
    return intern(EExtract,w,lo,a);
}
E mkZExt(E a,unsigned w){ if(a->w==w) return a; if(w<a->w) return mkExtract(a,0,w); if(a->k==EConst) return mkConst(a->c,w); if(a->k==EZExt) return mkZExt(a->a,w); return intern(EZExt,w,0,a); }
E mkSExt(E a,unsigned w){ if(a->w==w) return a; if(a->k==EConst) return mkConst((uint64_t)sx(a->c,a->w),w); if(a->k==ESExt) return mkSExt(a->a,w); if(a->k==EZExt&&a->a->w<a->w) return mkZExt(a->a,w); return intern(ESExt,w,0,a); }
E mkIte(E c,E a,E b){
    if(c->k==EConst) return c->c? a:b; if(a==b) return a;
    if(a->w==1){ if(a->k==EConst&&b->k==EConst) return a->c? c: mkNot(c);
        if(a->k==EConst) return a->c? mkBin(EOr,c,b): mkBin(EAnd,mkNot(c),b);
        if(b->k==EConst) return b->c? mkBin(EOr,mkNot(c),a): mkBin(EAnd,c,a); }
    return intern(EIte,a->w,0,c,a,b);
}
static uint32_t gStamp=0;
static uint64_t ev(E e,const Assign&as){
    if(e->k==EConst) return e->c;
    if(e->k==EVar) return (e->c<as.size()?as[e->c]:0)&maskw(e->w);
    if(e->stamp==gStamp) return e->val;
    uint64_t r=0;
    switch(e->k){
    case EConcat: r=(ev(e->a,as)<<e->b->w)|ev(e->b,as); break;
    case EExtract: r=(ev(e->a,as)>>e->c)&maskw(e->w); break;
    case EZExt: r=ev(e->a,as); break;
    case ESExt: r=(uint64_t)sx(ev(e->a,as),e->a->w)&maskw(e->w); break;
    case EIte: r=ev(e->a,as)?ev(e->b,as):ev(e->d,as); break;
    default: { uint64_t x=ev(e->a,as),y=ev(e->b,as); if(!foldBin(e->k,e->a->w,x,y,r)){ // smtlib division by zero
            switch(e->k){ case EUDiv: r=maskw(e->w); break; case ESDiv: r=sx(x,e->w)<0?1:maskw(e->w); break; default: r=x; } } }
    }
    e->stamp=gStamp; e->val=r; return r;
}
uint64_t evalExpr(E e,const Assign&as){ if(++gStamp==0){ for(E x:byId) x->stamp=0; gStamp=1;} return ev(e,as); }
std::string exprStr(E e,int d){
    static const char*n[]={"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle"};
    if(e->k==EConst) return std::to_string(e->c); if(e->k==EVar) return vars[e->c].name; if(d==0) return "...";
    std::string s="("; s+=n[e->k]; for(E x:{e->a,e->b,e->d}) if(x) s+=" "+exprStr(x,d-1); if(e->k==EExtract) s+=" @"+std::to_string(e->c); return s+")";
}
// ---------------------------------------------------------------- Z3
static Z3_context ctx=nullptr; static Z3_solver zs=nullptr;
static void zerr(Z3_context c, Z3_error_code e){ fprintf(stderr,"engine: z3 error %s\n",Z3_get_error_msg(c,e)); abort(); }
static void zinit(){
    if(ctx) return; Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,zerr);
    zs=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,zs);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),200000000u); Z3_solver_set_params(ctx,zs,p); Z3_params_dec_ref(ctx,p);
}
static Z3_sort bvs(unsigned w){ static Z3_sort c[65]; if(!c[w]){ c[w]=Z3_mk_bv_sort(ctx,w); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,c[w])); } return c[w]; }
static Z3_ast bit(unsigned v){ static Z3_ast c[2]; if(!c[v]){ c[v]=Z3_mk_unsigned_int64(ctx,v,bvs(1)); Z3_inc_ref(ctx,c[v]); } return c[v]; }
static Z3_ast b2v(Z3_ast b){ Z3_inc_ref(ctx,b); Z3_ast r=Z3_mk_ite(ctx,b,bit(1),bit(0)); Z3_inc_ref(ctx,r); Z3_dec_ref(ctx,b); return r; }
static Z3_ast tr(E e){
    if(e->z) return e->z; Z3_ast r; Z3_sort s=bvs(e->w);
    Z3_ast A=e->a?tr(e->a):nullptr,B=e->b?tr(e->b):nullptr,D=e->d?tr(e->d):nullptr;
    switch(e->k){
    case EConst: r=Z3_mk_unsigned_int64(ctx,e->c,s); break;
    case EVar: r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,("v"+std::to_string(e->c)).c_str()),s); break;
    case EAdd: r=Z3_mk_bvadd(ctx,A,B); break; case ESub: r=Z3_mk_bvsub(ctx,A,B); break; case EMul: r=Z3_mk_bvmul(ctx,A,B); break;
    case EUDiv: r=Z3_mk_bvudiv(ctx,A,B); break; case ESDiv: r=Z3_mk_bvsdiv(ctx,A,B); break;
    case EURem: r=Z3_mk_bvurem(ctx,A,B); break; case ESRem: r=Z3_mk_bvsrem(ctx,A,B); break;
    case EAnd: r=Z3_mk_bvand(ctx,A,B); break; case EOr: r=Z3_mk_bvor(ctx,A,B); break; case EXor: r=Z3_mk_bvxor(ctx,A,B); break;
    case EShl: r=Z3_mk_bvshl(ctx,A,B); break; case ELShr: r=Z3_mk_bvlshr(ctx,A,B); break; case EAShr: r=Z3_mk_bvashr(ctx,A,B); break;
    case EConcat: r=Z3_mk_concat(ctx,A,B); break;
    case EExtract: r=Z3_mk_extract(ctx,(unsigned)(e->c+e->w-1),(unsigned)e->c,A); break;
    case EZExt: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,A); break; case ESExt: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,A); break;
    case EIte: { Z3_ast q=Z3_mk_eq(ctx,A,bit(1)); Z3_inc_ref(ctx,q); r=Z3_mk_ite(ctx,q,B,D); Z3_inc_ref(ctx,r); Z3_dec_ref(ctx,q); break; }
    case EEq: r=b2v(Z3_mk_eq(ctx,A,B)); break; case EUlt: r=b2v(Z3_mk_bvult(ctx,A,B)); break; case EUle: r=b2v(Z3_mk_bvule(ctx,A,B)); break;
    case ESlt: r=b2v(Z3_mk_bvslt(ctx,A,B)); break; case ESle: r=b2v(Z3_mk_bvsle(ctx,A,B)); break;
    default: abort(); }
    Z3_inc_ref(ctx,r); e->z=r; return r;
}
static Z3_ast trBool(E e){ return Z3_mk_eq(ctx,tr(e),bit(1)); }
struct VH{ size_t operator()(const std::vector<uint32_t>&v)const{ size_t h=v.size(); for(auto x:v) h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h; } };
struct QRes{ int r; std::vector<std::pair<uint32_t,uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>,QRes,VH> qcache;
static int runZ3(const std::vector<E>&sl, QRes&res){
    zinit(); auto t0=std::chrono::steady_clock::now();
    Z3_solver_reset(ctx,zs); std::set<uint32_t> vs;
    for(E e:sl){ Z3_solver_assert(ctx,zs,trBool(e)); vs.insert(e->vars.begin(),e->vars.end()); }
    Z3_lbool r=Z3_solver_check(ctx,zs); gSolver.queries++;
    res.r = r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
    if(res.r==1){ gSolver.sat++; Z3_model m=Z3_solver_get_model(ctx,zs); Z3_model_inc_ref(ctx,m);
        for(uint32_t v:vs){ Z3_ast o; E ve=intern(EVar,vars[v].w,v); uint64_t x=0; if(Z3_model_eval(ctx,m,tr(ve),true,&o)) Z3_get_numeral_uint64(ctx,o,&x); res.m.push_back({v,x}); }
        Z3_model_dec_ref(ctx,m);
    } else if(res.r==0) gSolver.unsat++; else gSolver.unknown++;
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); gSolver.secs+=dt; if(getenv("VP_SLOW")&&dt>0.3){ char b[64]; static int n; snprintf(b,sizeof b,"/tmp/w/slow%d.smt2",n++%5); FILE*f=fopen(b,"w"); fprintf(f,"(set-logic QF_BV)\n%s(check-sat)\n",Z3_solver_to_string(ctx,zs)); fclose(f);} if(dt>gSolver.maxSecs) gSolver.maxSecs=dt;
    return res.r;
}
static void applyM(const QRes&q,Assign&m){ for(auto&p:q.m){ if(p.first>=m.size()) m.resize(p.first+1,0); m[p.first]=p.second; } }
static int checkSlice(std::vector<E>&sl,Assign&model){
    std::vector<uint32_t> key; for(E e:sl) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    auto it=qcache.find(key);
    if(it!=qcache.end()){ gSolver.cacheHits++; } else { QRes q; runZ3(sl,q); it=qcache.emplace(std::move(key),std::move(q)).first; }
    if(it->second.r==1) applyM(it->second,model);
    return it->second.r;
}
static bool inter(const std::vector<uint32_t>&a,const std::vector<uint32_t>&b){ size_t i=0,j=0; while(i<a.size()&&j<b.size()){ if(a[i]==b[j]) return true; if(a[i]<b[j]) i++; else j++; } return false; }
int solverCheck(const std::vector<E>&cs,E q,Assign&model){
    if(q->k==EConst) return q->c?1:0;
    std::vector<uint32_t> vs=q->vars; std::vector<E> sl{q}; std::vector<char> used(cs.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<cs.size();i++) if(!used[i]&&inter(cs[i]->vars,vs)){ used[i]=1; sl.push_back(cs[i]); std::vector<uint32_t> u; std::set_union(vs.begin(),vs.end(),cs[i]->vars.begin(),cs[i]->vars.end(),std::back_inserter(u)); if(u.size()!=vs.size()){ vs.swap(u); ch=true; } } }
    return checkSlice(sl,model);
}
int solverCheckAll(const std::vector<E>&cs,Assign&model){ if(cs.empty()) return 1; std::vector<E> c=cs; return checkSlice(c,model); }
void solverDump(const std::vector<E>&cs,E q,const char*path){
    zinit(); Z3_solver_reset(ctx,zs); for(E e:cs) Z3_solver_assert(ctx,zs,trBool(e)); if(q) Z3_solver_assert(ctx,zs,trBool(q));
    FILE*f=fopen(path,"w"); if(f){ fprintf(f,"(set-logic QF_BV)\n%s(check-sat)\n",Z3_solver_to_string(ctx,zs)); fclose(f);} }
