/* Explorer for parallel evaluation (C23): the module is compiled with OpenMP; several threads of one team evaluate one material.
 * Every call of a user function (geometry, thickness, density, material parameter) is a scheduling point. A deterministic scheduler lets one thread
 * run at a time and the schedules are enumerated depth-first up to a bound on preemptions. */
#include "lam.h"
#include <gsKLShell/src/gsMaterialMatrixContainer.h>
#include <omp.h>
#include <semaphore.h>
#include <array>
using namespace mc;
#ifndef _OPENMP
#error needs OpenMP
#endif
// ------------------------------------------------------------------ controlled scheduler
struct Sched
{
    struct Dec { std::vector<int> alt; size_t k; bool voluntary; int pre; };      // alternatives in order of exploration, the chosen one, preemptions before it
    sem_t go[8]; std::atomic<int> arrived{0}; bool on=false; int n=0; std::vector<char> done; std::vector<Dec> trace; size_t pos=0; int pre=0;
    Sched(){ for(auto&g:go) sem_init(&g,0,0); }
    int decide(int me) // the thread that runs next; me = running thread or -1 (start). Only the thread that holds the baton calls this
    {
        std::vector<int> en; if (me>=0 && !done[me]) en.push_back(me); for(int t=0;t<n;++t) if (!done[t]&&t!=me) en.push_back(t);
        if (en.empty()) return -1;
        if (pos==trace.size()) trace.push_back({en,0,me<0||done[me],pre});
        Dec&d=trace[pos++]; if (!d.voluntary && d.k>0) ++pre; return d.alt[d.k];
    }
    // When the thread that was let run makes no progress for 1 s it is blocked by a lock that a paused thread holds: such a schedule is infeasible.
    // All threads are then released to finish it freely.
    std::atomic<long> steps{0}; std::atomic<bool> freeRun{false}; bool infeasible=false;
    void wait(int t)
    {
        long last=steps; for(;;) { timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_sec+=1; if (sem_timedwait(&go[t],&ts)==0) return; if (freeRun) return; if (errno!=ETIMEDOUT) continue;
            long now=steps; if (now==last && arrived==n) { freeRun=true; infeasible=true; return; } last=now; }
    }
    void begin(int t){ ++steps; if (++arrived==n) { int c=decide(-1); if (c==t) return; sem_post(&go[c]); } wait(t); }
    void yield(){ if (!on||freeRun) return; ++steps; int t=omp_get_thread_num(),c=decide(t); if (c==t) return; sem_post(&go[c]); wait(t); }
    void end(int t){ ++steps; if (freeRun) { done[t]=1; return; } done[t]=1; int c=decide(t); if (c>=0) sem_post(&go[c]); }
    /// next schedule in depth-first order; false when all within the bound were run
    bool next(int bound){ while(!trace.empty()){ Dec&d=trace.back(); if (d.k+1<d.alt.size() && (d.voluntary||d.pre<bound)) { ++d.k; return true; } trace.pop_back(); } return false; }
    template<class F> void run(int threads,F body)
    {
        n=threads; arrived=0; freeRun=false; infeasible=false; for(auto&g:go) while(sem_trywait(&g)==0); done.assign(n,0); pos=0; pre=0; on=true;
        #pragma omp parallel num_threads(threads)
        { int t=omp_get_thread_num(); begin(t); body(t); end(t); }
        on=false;
    }
    std::string word() const { std::string s; for(auto&d:trace) s+=char('0'+d.alt[d.k]); return s; }
};
static Sched S;
// ------------------------------------------------------------------ functions whose evaluation is a scheduling point
struct YGeo : public gsFunction<real_t>
{
    ref::Poly p; int d; YGeo(const ref::Poly&q,int dd) : p(q), d(dd) {}
    GISMO_CLONE_FUNCTION(YGeo)
    short_t domainDim() const { return 2; } short_t targetDim() const { return d; } Mx support() const { Mx s(2,2); s<<0,1,0,1; return s; }
    void eval_into(const Mx&u,Mx&r) const { S.yield(); r.resize(d,u.cols()); for(index_t k=0;k<u.cols();++k){ ref::V3 x=p.d(u(0,k),u(1,k),0,0); for(int i=0;i<d;++i) r(i,k)=x[i]; } }
    void deriv_into(const Mx&u,Mx&r) const { r.resize(2*d,u.cols()); for(index_t k=0;k<u.cols();++k) for(int j=0;j<2;++j){ ref::V3 x=p.d(u(0,k),u(1,k),j==0,j==1); for(int i=0;i<d;++i) r(2*i+j,k)=x[i]; } }
    void deriv2_into(const Mx&u,Mx&r) const { S.yield(); r.resize(3*d,u.cols()); for(index_t k=0;k<u.cols();++k) for(int j=0;j<3;++j){ ref::V3 x=p.d(u(0,k),u(1,k),j==0?2:j==1?0:1,j==0?0:j==1?2:1); for(int i=0;i<d;++i) r(3*i+j,k)=x[i]; } }
    std::ostream&print(std::ostream&o) const { return o; }
};
struct YFun : public gsFunction<real_t>
{
    int d; std::vector<double> v; double s; YFun(int dd,std::vector<double> x,double slope) : d(dd), v(x), s(slope) {}
    GISMO_CLONE_FUNCTION(YFun)
    short_t domainDim() const { return d; } short_t targetDim() const { return v.size(); }
    void eval_into(const Mx&u,Mx&r) const { S.yield(); r.resize(v.size(),u.cols()); for(index_t k=0;k<u.cols();++k) for(size_t i=0;i<v.size();++i) r(i,k)=v[i]*(1+s*u(0,k)); }
    std::ostream&print(std::ostream&o) const { return o; }
};
// ------------------------------------------------------------------ a material with such functions
template<int d> struct Box
{
    YGeo ori,def; std::vector<std::shared_ptr<YFun>> f; std::vector<gsFunctionSet<real_t>*> p; std::unique_ptr<YFun> t,rho; typename gsMaterialMatrixBase<real_t>::uPtr mat,tft; gsMaterialMatrixBase<real_t>*m;
    static ref::Poly O(){ return undeformed(d).back().second; } static ref::Poly D(int k){ auto v=deformations(d); for(auto&x:v) if (x.name==(d==3?(k?"gen":"genbend"):(k?"shear":"gen"))) return deform(O(),x,d); return O(); }
    YFun*fun(std::vector<double> v,double s){ f.emplace_back(new YFun(d,v,s)); return f.back().get(); }
    Box(const LawDef&L,int kind) : ori(O(),d), def(D(0),d)
    {
        t.reset(new YFun(d,{0.05},0.3)); rho.reset(new YFun(d,{2},0.2));
        if (kind==2) { std::vector<gsFunctionSet<real_t>*> T,G,A,R; for(int i=0;i<2;++i){ Mx g=lam::stiff(1+i); T.push_back(fun({0.02+0.03*i},0.2)); G.push_back(fun(std::vector<double>(g.data(),g.data()+9),0.1)); A.push_back(fun({0.4-i},0.5)); R.push_back(fun({1.0+i},0.3)); } mat.reset(new gsMaterialMatrixComposite<d,real_t>(ori,T,G,A,R)); }
        else { for(double x:L.pars) p.push_back(fun({x},p.size()==0?0.2:0.0)); gsOptionList o; o.addInt("Material","",L.mat); o.addSwitch("Compressibility","",L.comp); o.addInt("Implementation","",L.imp); gsMultiPatch<real_t> dummy; dummy.addPatch(O().template spline<d>()); mat=getMaterialMatrix<d,real_t>(dummy,*t,p,*rho,o); }
        m=mat.get(); m->setUndeformed(&ori); m->setDeformed(&def);
        if (kind==1) { if (L.mat==0) tft.reset(new gsMaterialMatrixTFT<d,real_t,true>(mat.get())); else tft.reset(new gsMaterialMatrixTFT<d,real_t,false>(mat.get())); m=tft.get(); m->setUndeformed(&ori); m->setDeformed(&def); }
    }
};
typedef std::function<Mx(gsMaterialMatrixBase<real_t>&,const Mx&,const Mx&)> OpF;
static std::vector<std::pair<std::string,OpF>> ops(int kind)
{
    std::vector<std::pair<std::string,OpF>> o; typedef gsMaterialMatrixBase<real_t> M;
#define OP(n,e) o.push_back({n,[](M&m,const Mx&u,const Mx&z)->Mx{ return e; }});
    OP("matrix",m.eval3D_matrix(0,u,z,MaterialOutput::MatrixA)) OP("vectorN",m.eval3D_vector(0,u,z,MaterialOutput::VectorN))
    o.push_back({"density",[](M&m,const Mx&u,const Mx&)->Mx{ Mx r; m.density_into(0,u,r); return r; }}); o.push_back({"thickness",[](M&m,const Mx&u,const Mx&)->Mx{ Mx r; m.thickness_into(0,u,r); return r; }});
    if (kind==2) { OP("matrixD",m.eval3D_matrix(0,u,z,MaterialOutput::MatrixD)) OP("vectorM",m.eval3D_vector(0,u,z,MaterialOutput::VectorM)) return o; }
    OP("stress",m.eval3D_stress(0,u,z,MaterialOutput::Generic)) OP("cauchy",m.eval3D_CauchyStress(0,u,z,MaterialOutput::Generic)) OP("pstress",m.eval3D_pstress(0,u,z,MaterialOutput::Generic)) OP("strain",m.eval3D_strain(0,u,z))
    if (kind==1) { OP("field",m.eval3D_tensionfield(0,u,z,MaterialOutput::Generic)) return o; }
    OP("vectorM",m.eval3D_vector(0,u,z,MaterialOutput::VectorM)) OP("stretch",m.eval3D_pstretch(0,u,z)) OP("stretchdir",m.eval3D_pstretchDir(0,u,z)) OP("pstrain",m.eval3D_pstrain(0,u,z)) OP("field",m.eval3D_tensionfield(0,u,z,MaterialOutput::Generic))
    o.push_back({"parameters",[](M&m,const Mx&u,const Mx&)->Mx{ Mx r; m.parameters_into(0,u,r); return r; }});
    return o;
}
/// points of one thread: numbers of points and of heights differ between the threads
inline Mx pts(int t){ Mx u(2,t==0?2:t==1?3:1); for(index_t k=0;k<u.cols();++k){ u(0,k)=0.15+0.3*t+0.11*k; u(1,k)=0.8-0.2*t-0.17*k; } return u; }
inline Mx hts(int t,const Mx&u){ Mx z(t==0?2:1,u.cols()); for(index_t k=0;k<u.cols();++k) for(index_t j=0;j<z.rows();++j) z(j,k)=0.3*j-0.2+0.1*t; return z; }
inline bool equal(const Mx&a,const Mx&b){ if (a.rows()!=b.rows()||a.cols()!=b.cols()) return false; double s=0; for(index_t i=0;i<b.size();++i) if (std::isfinite(b.data()[i])) s=std::max(s,std::abs(b.data()[i])); for(index_t i=0;i<a.size();++i){ double x=a.data()[i],y=b.data()[i]; if (std::isnan(x)!=std::isnan(y)||(!std::isnan(x)&&!(x==y)&&!(std::abs(x-y)<=1e-9*s))) return false; } return true; }
/// all schedules of the given bodies within the bound: every thread must see exactly what it sees alone
static void explore(Ctx&c,int threads,int bound,long budget,const std::function<Mx(int)>&body,const std::string&what)
{
    std::vector<Mx> want(threads),got(threads); for(int t=0;t<threads;++t) { want[t]=body(t); Mx again=body(t); if (!c.ok(equal(want[t],again),what+" alone is deterministic")) return; }
    S.trace.clear(); long n=0; std::vector<std::string> err(threads);
    do { for(auto&e:err) e.clear();
        S.run(threads,[&](int t){ try { got[t]=body(t); } catch(const std::exception&e) { err[t]=e.what(); if (err[t].empty()) err[t]="exception"; } });
        if (n==0) { double N=S.trace.size(),e=1; int b=0; for(;b<bound;++b){ e*=(N-b)*(threads-1)/(b+1); if (e>budget&&b>0) break; } bound=b; c.outcome(1000+b); } // deepest bound within the budget of schedules, at least one preemption
        if (S.infeasible) { c.outcome(-n); bound=0; } // the code synchronises: only schedules without preemption are followed from here on
        ++n; c.state(); c.op(S.trace.size()); bool good=true; std::string det;
        for(int t=0;t<threads;++t) if (!err[t].empty()||!equal(got[t],want[t])) { good=false; det="thread "+std::to_string(t)+" under schedule "+S.word()+(err[t].empty()?"":": "+err[t].substr(0,100)); }
        c.ok(good,what,det); if (!good) break;
    } while(S.next(bound));
    c.outcome(n); for(auto&w:want) for(index_t i=0;i<w.size();++i) if (std::isfinite(w.data()[i])) c.outcome(w.data()[i]);
}
template<int d> void mats(Check&ck)
{
    bool th=ck.thorough(); auto L=laws(false,1);
    for(auto&l:L) { bool main=l.mat==0||(l.imp==(l.mat==4?3:1)); if (!th&&!main) continue;
      for(int kind=0;kind<3;++kind) { if (kind==2&&l.mat!=0) continue; if (kind==1&&!th&&l.mat>1) continue; auto o=ops(kind); std::string nm=kind==2?"laminate":(kind==1?"TFT-":"")+l.name;
        for(size_t a=0;a<o.size();++a) ck.add("d="+std::to_string(d)+";mat="+nm+";op="+o[a].first,[=](Ctx&c){
            Box<d> B(l,kind); for(size_t b=0;b<o.size();++b) for(int threads=2;threads<=3;++threads) {
                if (!th && b!=a && b>1 && (threads==3||kind==1)) continue;
                explore(c,threads,th?4:3,th?20000:1000,[&](int t)->Mx{ Mx u=pts(t),z=hts(t,u); if (kind==1) { u=Mx(u.col(0)); z=Mx(z.block(0,0,1,1)); } return (t==1?o[b]:o[a]).second(*B.m,u,z); },"threads evaluating "+o[a].first+" and "+o[b].first+(threads==3?" (3)":"")); } });
        // the evaluators used in assembly: all of them share the material
        ck.add("d="+std::to_string(d)+";mat="+nm+";evaluators",[=](Ctx&c){
            Box<d> B(l,kind); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> A(B.m,&B.ori,&B.def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixD> D(B.m,&B.ori,&B.def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> N(B.m,&B.ori,&B.def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorM> M(B.m,&B.ori,&B.def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::Density> R(B.m,&B.ori,&B.def);
            const gsFunctionSet<real_t>*f[]={&A,&D,&N,&M,&R}; const char*fn[]={"A","D","N","M","density"};
            for(int a=0;a<5;++a) for(int b=0;b<5;++b) for(int threads=2;threads<=(th||kind!=1?3:2);++threads) { if (kind==1 && !th && (a==1||a==3||b==1||b==3)) continue; explore(c,threads,3,th?5000:kind==1?100:800,[&](int t)->Mx{ Mx r,u=pts(t); if (kind==1) u=Mx(u.col(0)); f[t==1?b:a]->piece(0).eval_into(u,r); return r; },std::string("threads integrating ")+fn[a]+" and "+fn[b]); }
            // each thread goes through several evaluators, as during assembly
            if (kind!=1||th) explore(c,2,2,th?20000:1500,[&](int t)->Mx{ Mx r,all(40,1); all.setZero(); Mx u=pts(t).col(0); index_t k=0; for(int i=0;i<4;++i){ f[i]->piece(0).eval_into(u,r); for(index_t j=0;j<r.size();++j) all(k++,0)=r.data()[j]; } return all; },"threads integrating all resultants"); });
      } }
}
/// threads whose evaluators belong to different deformed geometries (as in the tangent with mixed integration points)
template<int d> void mixed(Check&ck)
{
    for(auto&l:laws(false,1)) { if (l.mat>1||(l.mat==1&&l.imp!=1)) continue;
        ck.add("d="+std::to_string(d)+";mat="+l.name+";different-geometries",[=](Ctx&c){ Box<d> B(l,0); YGeo g2(Box<d>::D(1),d);
            gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> N(B.m,&B.ori,&B.def), M(B.m,&B.ori,&g2); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> A(B.m,&B.ori,&B.def),C(B.m,&B.ori,&g2);
            const gsFunctionSet<real_t>*f[]={&N,&A,&M,&C}; for(int a=0;a<2;++a) for(int b=2;b<4;++b) explore(c,2,3,800,[&](int t)->Mx{ Mx r; f[t==1?b:a]->piece(0).eval_into(pts(t),r); return r; },"threads integrating on different deformed geometries"); });
        ck.add("d="+std::to_string(d)+";mat=TFT-"+l.name+";explicit",[=](Ctx&c){ Box<d> B(l,1); YGeo g2(Box<d>::D(1),d); B.m->options().setSwitch("Explicit",true); if (l.mat==0) dynamic_cast<gsMaterialMatrixTFT<d,real_t,true>*>(B.m)->updateDeformed(&g2); else dynamic_cast<gsMaterialMatrixTFT<d,real_t,false>*>(B.m)->updateDeformed(&g2);
            explore(c,2,3,800,[&](int t)->Mx{ Mx u=pts(t).col(0),z=Mx::Constant(1,1,0.1*t); return B.m->eval3D_stress(0,u,z,MaterialOutput::Generic); },"threads evaluating with explicit tension field"); }); }
}
int main(int argc,char**argv)
{
    if (!getenv("OMP_WAIT_POLICY")) { setenv("OMP_WAIT_POLICY","passive",1); execv("/proc/self/exe",argv); } // waiting threads must not spin
    omp_set_dynamic(0); omp_set_num_threads(3);
    Check ck(argc,argv,"C23");
    ck.bound("two and three threads, all schedules with up to b preemptions, where b is the largest number up to 3 (thorough: 4), and at least 1, for which the number of schedules of the pair of operations stays within 1000 (thorough: 20000); a thread can be preempted at every call of a geometry, thickness, density or parameter function; all ordered pairs of operations, all material laws with their default implementation (thorough: all implementations)");
    ck.assume("the module is compiled with OpenMP; preemption inside a stretch of code that calls no user function is not explored");
    mats<3>(ck); mats<2>(ck); mixed<3>(ck); mixed<2>(ck);
    return ck.run();
}
