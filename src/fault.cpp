/* Explorer for failing evaluations (C24): every function the user supplies (geometry, thickness, density, material parameter, load, prescribed value)
 * can fail at any of its evaluations. All operations x all fault points: the failure must be reported and must leave the objects usable. */
#include "shell.h"
#include <gsKLShell/src/gsMaterialMatrixContainer.h>
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
using namespace mc;
typedef gsThinShellAssemblerDWRBase<real_t> Dwr; typedef GoalFunction GF; typedef gsFunctionSet<real_t> FS; typedef gsMaterialMatrixBase<real_t> Mat;
// ------------------------------------------------------------------ fault injector
struct Injector { bool on=false,hit=false; long n=0,at=0; bool stay=false; int type=0;
    void call(){ if (!on) return; ++n; if (at>0 && (n==at||(stay&&n>at))) { hit=true; if (type==0) throw std::runtime_error("injected"); if (type==1) throw std::bad_alloc(); throw 42; } }
    void count(){ on=true; n=0; at=0; hit=false; } void arm(long k,bool s,int t){ on=true; n=0; at=k; stay=s; type=t; hit=false; } void off(){ on=false; } };
static Injector I;
struct FGeo : public gsFunction<real_t>
{
    const gsGeometry<real_t>*g; explicit FGeo(const gsGeometry<real_t>&x) : g(&x) {}
    GISMO_CLONE_FUNCTION(FGeo)
    short_t domainDim() const { return 2; } short_t targetDim() const { return g->targetDim(); } Mx support() const { return g->support(); }
    void eval_into(const Mx&u,Mx&r) const { I.call(); g->eval_into(u,r); } void deriv_into(const Mx&u,Mx&r) const { I.call(); g->deriv_into(u,r); } void deriv2_into(const Mx&u,Mx&r) const { I.call(); g->deriv2_into(u,r); }
    std::ostream&print(std::ostream&o) const { return o; }
};
struct FSet : public FS
{
    MP m; std::vector<FGeo> p; explicit FSet(const MP&x) : m(x) { init(); } FSet(const FSet&o) : FS(o), m(o.m) { init(); } void init(){ p.clear(); for(size_t i=0;i<m.nPatches();++i) p.emplace_back(m.patch(i)); }
    GISMO_CLONE_FUNCTION(FSet)
    short_t domainDim() const { return 2; } short_t targetDim() const { return m.targetDim(); } index_t nPieces() const { return p.size(); } index_t size() const { return p.size(); } const gsFunction<real_t>&piece(const index_t k) const { return p[k]; } const gsFunction<real_t>&function(const index_t k) const { return p[k]; }
    std::ostream&print(std::ostream&o) const { return o; }
};
struct FFun : public gsFunction<real_t>
{
    int d; std::vector<double> v; double s; FFun(int dd,std::vector<double> x,double slope) : d(dd), v(x), s(slope) {}
    GISMO_CLONE_FUNCTION(FFun)
    short_t domainDim() const { return d; } short_t targetDim() const { return v.size(); } const gsFunction<real_t>&piece(const index_t) const { return *this; }
    void eval_into(const Mx&u,Mx&r) const { I.call(); r.resize(v.size(),u.cols()); for(index_t k=0;k<u.cols();++k) for(size_t i=0;i<v.size();++i) r(i,k)=v[i]*(1+s*u(0,k)); }
    std::ostream&print(std::ostream&o) const { return o; }
};
// ------------------------------------------------------------------ materials with such functions
struct MK { std::string name; int kind; LawDef L; };   // kind 0 plain, 1 tension-field, 2 laminate
static std::vector<MK> kinds(bool th)
{
    std::vector<MK> r; for(auto&l:laws(false,1)) { bool def=l.mat==0||l.imp==(l.mat==4?3:1); if (th||def) r.push_back({l.name,0,l}); }
    for(auto&l:laws(false,1)) if (l.mat==0||(l.mat==1&&l.imp==1)) r.push_back({"TFT-"+l.name,1,l});
    r.push_back({"laminate",2,laws(false,1)[0]}); return r;
}
static MK kindOf(const std::string&n){ for(auto&k:kinds(true)) if (k.name==n) return k; throw std::runtime_error("no material "+n); }
template<int d> struct Pool
{
    std::vector<std::shared_ptr<FFun>> f; std::vector<gsFunctionSet<real_t>*> p; std::vector<Mat::uPtr> own;
    FFun*fun(std::vector<double> v,double s,int dim=d){ f.emplace_back(new FFun(dim,v,s)); return f.back().get(); }
    Mat*make(const MK&k,const MP&mp,double scale=1)
    {
        if (k.kind==2) { std::vector<gsFunctionSet<real_t>*> T,G,A,R; for(int i=0;i<2;++i){ Mx g=lam::stiff(1+i); T.push_back(fun({0.02+0.03*i},0.2)); G.push_back(fun(std::vector<double>(g.data(),g.data()+9),0.1)); A.push_back(fun({0.4-i},0.5)); R.push_back(fun({1.0+i},0.3)); } own.emplace_back(new gsMaterialMatrixComposite<d,real_t>(mp,T,G,A,R)); return own.back().get(); }
        p.clear(); for(double x:k.L.pars) p.push_back(fun({x*(p.empty()?scale:1)},p.size()==0?0.2:0.0)); gsOptionList o; o.addInt("Material","",k.L.mat); o.addSwitch("Compressibility","",k.L.comp); o.addInt("Implementation","",k.L.imp);
        own.push_back(getMaterialMatrix<d,real_t>(mp,*fun({0.05},0.3),p,*fun({2},0.2),o)); Mat*m=own.back().get();
        if (k.kind==1) { if (k.L.mat==0) own.emplace_back(new gsMaterialMatrixTFT<d,real_t,true>(m)); else own.emplace_back(new gsMaterialMatrixTFT<d,real_t,false>(m)); m=own.back().get(); }
        return m;
    }
};
// ------------------------------------------------------------------ a step: what it reports, what it leaves
struct Out { bool threw=false; int st=0; bool stOk=true; std::string what; std::vector<Mx> v; void put(const Mx&m){ v.push_back(m); } void put(double x){ Mx m(1,1); m(0,0)=x; v.push_back(m); } bool good() const { return !threw&&st==0; } };
inline bool equal(const Out&a,const Out&b)
{
    if (a.v.size()!=b.v.size()) return false; for(size_t q=0;q<a.v.size();++q){ const Mx&x=a.v[q],&y=b.v[q]; if (x.rows()!=y.rows()||x.cols()!=y.cols()) return false; double s=0; for(index_t i=0;i<y.size();++i) if (std::isfinite(y.data()[i])) s=std::max(s,std::abs(y.data()[i]));
        for(index_t i=0;i<x.size();++i){ double u=x.data()[i],w=y.data()[i]; if (std::isnan(u)!=std::isnan(w)||(!std::isnan(u)&&!(u==w)&&!(std::abs(u-w)<=1e-9*s+1e-300))) return false; } }
    return true;
}
template<class W> struct Step { std::string name; std::function<void(W&,Out&)> f; };
template<class W> Out perform(W&w,const Step<W>&s){ Out o; try { s.f(w,o); } catch(const std::exception&e) { o.threw=true; o.what=e.what(); } catch(...) { o.threw=true; o.what="exception"; } return o; }
/// all fault points of step a; afterwards the step itself and every other step, as if nothing had happened
template<class W,class Mk> void faults(Ctx&c,const Mk&mk,const std::vector<Step<W>>&S,const std::vector<Out>&want,size_t a,int mode)
{
    long N; { auto w=mk(); I.count(); Out o=perform(*w,S[a]); I.off(); N=I.n; c.op(); if (!c.ok(o.good()&&equal(o,want[a]),S[a].name+": same on two fresh objects",o.what)) return; }
    c.outcome(N); for(auto&m:want[a].v) for(index_t i=0;i<m.size();++i) if (std::isfinite(m.data()[i])) c.outcome(m.data()[i]);
    for(long k=1;k<=N;++k) { // follow-up steps: directly after the failure the step itself, resp. every other one (one of them per fault point in the quick tier), then the step itself again (thorough: all the others)
        for(size_t j=0;j<S.size();++j) { if (mode==0 && j!=0 && j!=1+(size_t)k%(S.size()-1)) continue; size_t b=(a+j)%S.size(); auto w=mk(); I.arm(k,j%2==1,(int)((k+j)%3)); Out o=perform(*w,S[a]); I.off(); c.state(); c.op();
            if (!c.ok(I.hit,S[a].name+": deterministic evaluation")) return;
            std::string at="evaluation "+std::to_string(k)+" of "+std::to_string(N)+" fails"; if (!c.ok(!o.good(),S[a].name+": a failed evaluation is reported",at)) return; if (!o.threw&&!c.ok(o.stOk,S[a].name+": status() is the returned status",at)) return;
            for(size_t i=0;i<S.size();++i) { if (mode<2&&i>(j>0?1:0)) break; size_t e=mode<2&&i==1?a:(b+i)%S.size(); Out r=perform(*w,S[e]); c.op(); if (!c.ok(r.good(),S[e].name+" works after a failure in "+S[a].name,at+": "+r.what)) return; if (!c.ok(equal(r,want[e]),S[e].name+" gives the same after a failure in "+S[a].name,at)) return; } } }
}
// ------------------------------------------------------------------ material level
template<int d> struct MWorld { Pool<d> pool; MP o,g; FSet ori,def; Mat*m; static MP O(){ return mpatch<d>(undeformed(d).back().second); } static MP D(){ auto v=deformations(d); for(auto&x:v) if (x.name==(d==3?"genbend":"gen")) return mpatch<d>(deform(undeformed(d).back().second,x,d)); throw std::runtime_error("deformation"); }
    explicit MWorld(const MK&k) : o(O()), g(D()), ori(o), def(g) { m=pool.make(k,o); m->setUndeformed(&ori); m->setDeformed(&def); } };
template<int d> std::vector<Step<MWorld<d>>> msteps(int kind)
{
    typedef MWorld<d> W; std::vector<Step<W>> s; Mx u(2,2),z(2,2); u<<0.3,0.7,0.2,0.6; z<<-0.3,-0.2,0.25,0.4; if (kind==1) { u=Mx(u.leftCols(1)); z=Mx(z.topLeftCorner(1,1)); }
#define ST(n,e) s.push_back({n,[=](W&w,Out&o){ o.put(e); }});
    ST("matrix",w.m->eval3D_matrix(0,u,z,MaterialOutput::MatrixA)) ST("vectorN",w.m->eval3D_vector(0,u,z,MaterialOutput::VectorN))
    s.push_back({"density",[=](W&w,Out&o){ Mx r; w.m->density_into(0,u,r); o.put(r); }}); s.push_back({"thickness",[=](W&w,Out&o){ Mx r; w.m->thickness_into(0,u,r); o.put(r); }});
    if (kind==2) { ST("matrixD",w.m->eval3D_matrix(0,u,z,MaterialOutput::MatrixD)) ST("vectorM",w.m->eval3D_vector(0,u,z,MaterialOutput::VectorM)) }
    else { ST("stress",w.m->eval3D_stress(0,u,z,MaterialOutput::Generic)) ST("cauchy",w.m->eval3D_CauchyStress(0,u,z,MaterialOutput::Generic)) ST("pstress",w.m->eval3D_pstress(0,u,z,MaterialOutput::Generic)) ST("strain",w.m->eval3D_strain(0,u,z))
        if (kind==0) { ST("vectorM",w.m->eval3D_vector(0,u,z,MaterialOutput::VectorM)) ST("stretch",w.m->eval3D_pstretch(0,u,z)) ST("stretchdir",w.m->eval3D_pstretchDir(0,u,z)) ST("pstrain",w.m->eval3D_pstrain(0,u,z)) }
        ST("field",w.m->eval3D_tensionfield(0,u,z,MaterialOutput::Generic)) if (kind==0) s.push_back({"parameters",[=](W&w,Out&o){ Mx r; w.m->parameters_into(0,u,r); o.put(r); }}); }
#undef ST
    auto ev=[&](const char*n,auto mkf){ s.push_back({std::string("integrated ")+n,[=](W&w,Out&o){ auto f=mkf(w); Mx r; f->piece(0).eval_into(u,r); o.put(r); }}); };
#define EV(T) ev(#T,[](W&w){ return std::unique_ptr<FS>(new gsMaterialMatrixIntegrate<real_t,MaterialOutput::T>(w.m,&w.ori,&w.def)); });
    EV(MatrixA) EV(VectorN) EV(Density) if (kind!=1) { EV(MatrixB) EV(MatrixD) EV(VectorM) }
#undef EV
    return s;
}
template<class W,class Mk> std::vector<Out> fresh(Ctx&c,const Mk&mk,const std::vector<Step<W>>&S){ std::vector<Out> r; for(auto&s:S){ auto w=mk(); r.push_back(perform(*w,s)); c.op(); c.ok(r.back().good(),s.name+" succeeds",r.back().what); } return r; }
template<int d> void material(Check&ck)
{
    bool th=ck.thorough(); for(auto&k:kinds(th)) { auto S=msteps<d>(k.kind); for(size_t a=0;a<S.size();++a) ck.add("material;d="+std::to_string(d)+";mat="+k.name+";op="+S[a].name,[=](Ctx&c){ auto mk=[&]{ return std::unique_ptr<MWorld<d>>(new MWorld<d>(k)); }; auto want=fresh<MWorld<d>>(c,mk,S); faults<MWorld<d>>(c,mk,S,want,a,th?2:k.kind!=1?1:0); }); }
}
// ------------------------------------------------------------------ assembler level
struct ACfg { std::string geo,mat; bool bending; int loads; std::string key(int d) const { return "d="+std::to_string(d)+(d==3?(bending?",shell":",membrane"):",planar")+";geo="+geo+";mat="+mat+";loads="+(loads==0?"force":loads==1?"all":"weak"); } };
template<int d> struct AWorld
{
    Pool<d> pool; MP ori,g; gsMultiBasis<real_t> mb; FSet def,prev; gsBoundaryConditions<real_t> bc; FFun*force,*press,*found; gsPointLoads<real_t> pl,pm; std::unique_ptr<Asm> a; std::unique_ptr<Dwr> w; gsMultiBasis<real_t> mh; Mx sol; ACfg f;
    static std::vector<double> V(double x,double y,double z){ std::vector<double> v={x,y,z}; v.resize(d); return v; }
    template<bool b> Asm*mk(const gsMaterialMatrixContainer<real_t>&c){ return new gsThinShellAssembler<d,real_t,b>(ori,mb,bc,*force,c); }
    template<int dd> typename std::enable_if<dd==3,Asm*>::type create(const gsMaterialMatrixContainer<real_t>&c){ return f.bending?mk<true>(c):mk<false>(c); }
    template<int dd> typename std::enable_if<dd==2,Asm*>::type create(const gsMaterialMatrixContainer<real_t>&c){ return mk<false>(c); }
    template<int dd> typename std::enable_if<dd==3,Dwr*>::type createD(Mat*m){ return f.bending?(Dwr*)new gsThinShellAssemblerDWR<d,real_t,true>(ori,mb,mh,bc,*force,m):(Dwr*)new gsThinShellAssemblerDWR<d,real_t,false>(ori,mb,mh,bc,*force,m); }
    template<int dd> typename std::enable_if<dd==2,Dwr*>::type createD(Mat*m){ return new gsThinShellAssemblerDWR<d,real_t,false>(ori,mb,mh,bc,*force,m); }
    AWorld(const ACfg&c,bool dwr) : ori(geometry<d>(c.geo)), g(displaced(ori,moveOf(d,"gen").u)), mb(ori), def(g), prev(displaced(ori,moveOf(d,"stretch").u)), mh(ori), f(c)
    {
        mh.degreeElevate(1); bc.setGeoMap(ori); int last=ori.nPatches()-1; gsMaterialMatrixContainer<real_t> M(ori.nPatches()); MK k=kindOf(c.mat); Mat*m0=nullptr; for(int p=0;p<=last;++p){ Mat*m=pool.make(k,ori,1+0.5*p); if (!m0) m0=m; M.set(p,m); }
        force=pool.fun(V(0.3,-0.7,0.45),0.2,c.loads==1&&d==3?3:2); press=pool.fun({0.8},0.3,d); found=pool.fun(V(0.4,0.9,1.3),0.1,d);
        if (c.loads!=2) bc.addCondition(0,boundary::west,condition_type::dirichlet,pool.fun(V(0.05,0.02,-0.03),0.1,d));
        if (c.loads==2) { bc.addCondition(0,boundary::west,condition_type::weak_dirichlet,pool.fun(V(0.05,0.02,-0.03),0.1,d)); if (d==3) bc.addCondition(last,boundary::north,condition_type::weak_clamped,pool.fun(V(0,0,0),0.1,d)); }
        if (c.loads==1) { bc.addCondition(last,boundary::north,condition_type::neumann,pool.fun(V(0.5,0.2,0.3),0.4,d)); gsVector<real_t> x(2),v(d); x<<0.3,0.7; for(int i=0;i<d;++i) v[i]=0.5*(i+1); pl.addLoad(x,v,0,true); gsVector<real_t> q(1); q<<1.5; pm.addLoad(x,q,0,true); }
        if (dwr) { w.reset(createD<d>(m0)); gsOptionList o=w->optionsL(); o.setInt("Continuity",last>0?0:-1); w->setOptions(o); if (c.loads==1) { w->setPointLoads(pl); if (d==3) { w->setPressure(*press); w->setFoundation(*found); } } }
        else { a.reset(create<d>(M)); gsOptionList o=a->options(); o.setInt("Continuity",c.loads==2||last==0?-1:0); a->setOptions(o); if (c.loads==1) { a->setPointLoads(pl); a->setPointMass(pm); if (d==3) { a->setPressure(*press); a->setFoundation(*found); } } if (c.loads==2&&last>0) { gsBoxTopology::ifContainer F=ori.interfaces(); a->addWeakC0(F); if (d==3) a->addWeakC1(F); }
            sol.resize(a->numDofs(),1); for(index_t i=0;i<sol.rows();++i) sol(i,0)=0.01*((int)(i*7%11)-5); }
    }
};
template<int d> std::vector<Step<AWorld<d>>> asteps(const ACfg&f)
{
    typedef AWorld<d> W; std::vector<Step<W>> s; bool laminate=f.mat=="laminate",tft=f.mat.find("TFT")==0;
    auto add=[&](const std::string&n,std::function<St(W&)> op,int take){ s.push_back({n,[=](W&w,Out&o){ St st=op(w); o.st=(int)st; o.stOk=w.a->status()==st; if (st!=OK_) return; if (take&1) o.put(Mx(dense(w.a->matrix()))); if (take&2) o.put(w.a->rhs()); if (take&4) o.put(Mx(dense(w.a->massMatrix()))); }}); };
    add("assemble",[](W&w){ return w.a->assemble(); },3); add("assembleMatrix(deformed)",[](W&w){ return w.a->assembleMatrix(w.def); },1); add("assembleVector(deformed)",[](W&w){ return w.a->assembleVector(w.def); },2); add("assembleMass",[](W&w){ return w.a->assembleMass(); },4); add("assembleMass(lumped)",[](W&w){ return w.a->assembleMass(true); },4);
    add("assemble(deformed)",[](W&w){ return w.a->assemble(w.def); },3); add("assemble(deformed,no matrix)",[](W&w){ return w.a->assemble(w.def,false); },2); add("assembleVector(deformed,not homogenized)",[](W&w){ return w.a->assembleVector(w.def,false); },2);
    add("assemble(vector)",[](W&w){ return w.a->assemble(w.sol); },3); add("assembleMatrix(vector)",[](W&w){ return w.a->assembleMatrix(w.sol); },1); add("assembleVector(vector)",[](W&w){ return w.a->assembleVector(w.sol); },2);
    if (d==3&&f.bending) { add("assembleMatrix(deformed,previous)",[](W&w){ Mx u=0.3*w.sol; return w.a->assembleMatrix(w.def,w.prev,u); },1); add("assembleMatrix(vector,previous)",[](W&w){ Mx u=0.3*w.sol; return w.a->assembleMatrix(w.sol,u); },1); }
    if (d==3) { // these add to the system
        auto vec=[](W&w){ return w.a->assembleVector(w.def); }; auto mat=[](W&w){ return w.a->assembleMatrix(w.def); };
        add("assemblePressureVector(function)",[=](W&w){ St st=vec(w); return st!=OK_?st:w.a->assemblePressureVector(*w.press); },2); add("assemblePressureVector(function,deformed)",[=](W&w){ St st=vec(w); return st!=OK_?st:w.a->assemblePressureVector(*w.press,w.def); },2); add("assemblePressureMatrix(function,deformed)",[=](W&w){ St st=mat(w); return st!=OK_?st:w.a->assemblePressureMatrix(*w.press,w.def); },1); add("assemblePressureVector(value,deformed)",[=](W&w){ St st=vec(w); return st!=OK_?st:w.a->assemblePressureVector(0.7,w.def); },2); add("assemblePressureMatrix(value,deformed)",[=](W&w){ St st=mat(w); return st!=OK_?st:w.a->assemblePressureMatrix(0.7,w.def); },1); add("assembleFoundation",[=](W&w){ St st=w.a->assemble(); return st!=OK_||w.f.loads!=1?st:w.a->assembleFoundation(); },1); }
    auto get=[&](const std::string&n,std::function<void(W&,Out&)> op){ s.push_back({n,op}); };
    get("boundaryForce",[](W&w,Out&o){ o.put(w.a->boundaryForce(w.def,patchSide(0,boundary::west))); }); get("area",[](W&w,Out&o){ o.put(w.a->getArea(w.def)); });
    std::vector<std::pair<std::string,stress_type::type>> ty={{"membrane strain",stress_type::membrane_strain}}; if (!laminate) { ty.push_back({"membrane stress",stress_type::membrane}); if (!tft) ty.push_back({"principal stretch",stress_type::principal_stretch}); if (!tft) ty.push_back({"membrane force",stress_type::membrane_force}); if (d==3&&!tft) ty.push_back({"flexural moment",stress_type::flexural_moment}); }
    for(auto&t:ty) get(t.first+" field",[=](W&w,Out&o){ gsPiecewiseFunction<real_t> r; w.a->constructStress(w.def,r,t.second); Mx u(2,2),v; u<<0.3,0.8,0.6,0.1; for(size_t p=0;p<w.ori.nPatches();++p){ r.piece(p).eval_into(u,v); o.put(v); } });
    return s;
}
template<int d> std::vector<Step<AWorld<d>>> psteps(bool bending) // the overloads that only the derived class has
{
    typedef AWorld<d> W; std::vector<Step<W>> s;
    auto add=[&](const std::string&n,std::function<St(W&,gsThinShellAssembler<3,real_t,true>*,gsThinShellAssembler<3,real_t,false>*)> op){ s.push_back({n,[=](W&w,Out&o){ auto*x=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(w.a.get()); auto*y=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(w.a.get()); St st=w.a->assembleVector(w.def); if (st==OK_) st=op(w,x,y); o.st=(int)st; o.stOk=w.a->status()==st; if (st==OK_) o.put(w.a->rhs()); }}); };
    add("assemblePressureVector(deformed)",[](W&w,gsThinShellAssembler<3,real_t,true>*x,gsThinShellAssembler<3,real_t,false>*y){ return x?x->assemblePressureVector(w.def):y->assemblePressureVector(w.def); });
    add("assembleFoundationVector(deformed)",[](W&w,gsThinShellAssembler<3,real_t,true>*x,gsThinShellAssembler<3,real_t,false>*y){ return x?x->assembleFoundationVector(w.def):y->assembleFoundationVector(w.def); });
    add("assembleFoundationVector(function,deformed)",[](W&w,gsThinShellAssembler<3,real_t,true>*x,gsThinShellAssembler<3,real_t,false>*y){ return x?x->assembleFoundationVector(*w.found,w.def):y->assembleFoundationVector(*w.found,w.def); });
    return s;
}
template<int d> void assembler(Check&ck)
{
    bool th=ck.thorough(); std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> geos={"quad","two"},mats={"SvK-imp1-p0","NH-comp-imp1-p0","laminate","TFT-SvK-imp1-p0"}; if (th) { mats.push_back("OG-inc-imp3-p0"); mats.push_back("MR-inc-imp2-p0"); }
    for(auto&g:geos) for(auto&m:mats) for(bool b:types) for(int ld=0;ld<3;++ld) { bool lamin=m=="laminate",tft=m.find("TFT")==0; if ((lamin||tft)&&ld==2) continue; if (tft&&(b||g!="quad")) continue; if (!th&&tft&&ld==1) continue; if (!th&&g=="two"&&ld!=2&&m!="SvK-imp1-p0") continue; if (!th&&g=="two"&&ld==0) continue; ACfg f{g,m,b,ld}; auto S=asteps<d>(f); if (d==3&&ld==1) for(auto&x:psteps<d>(b)) S.push_back(x);
        for(size_t a=0;a<S.size();++a) ck.add("assembler;"+f.key(d)+";op="+S[a].name,[=](Ctx&c){ auto mk=[&]{ return std::unique_ptr<AWorld<d>>(new AWorld<d>(f,false)); }; auto want=fresh<AWorld<d>>(c,mk,S); faults<AWorld<d>>(c,mk,S,want,a,th?1:0); }); }
}
// ------------------------------------------------------------------ error estimator
template<int d> std::vector<Step<AWorld<d>>> wsteps(int goal)
{
    typedef AWorld<d> W; std::vector<Step<W>> s; static const GF G[]={GF::Displacement,GF::PStress,GF::MembraneForce,GF::FlexuralMoment}; GF gf=G[goal]; Mx pt(2,1); pt<<0.3,0.6;
    auto add=[&](const std::string&n,std::function<St(W&)> op,std::function<Mx(W&)> r){ s.push_back({n,[=](W&w,Out&o){ w.w->setGoal(gf,goal==1?0:9); St st=op(w); o.st=(int)st; if (st==OK_) o.put(r(w)); }}); };
    add("assembleL",[](W&w){ return w.w->assembleL(); },[](W&w){ return Mx(dense(w.w->matrixL())); }); add("assembleH",[](W&w){ return w.w->assembleH(); },[](W&w){ return w.w->primalH(); });
    add("assembleMassL",[](W&w){ return w.w->assembleMassL(); },[](W&w){ return Mx(dense(w.w->massL())); }); add("assembleMatrixH(deformed)",[](W&w){ return w.w->assembleMatrixH(w.g); },[](W&w){ return Mx(dense(w.w->matrixH())); });
    add("assemblePrimalL(deformed)",[](W&w){ return w.w->assemblePrimalL(w.g); },[](W&w){ return w.w->primalL(); }); add("assemblePrimalH",[](W&w){ return w.w->assemblePrimalH(); },[](W&w){ return w.w->primalH(); });
    add("assembleDualL(deformed)",[](W&w){ MP u=w.g; for(size_t p=0;p<u.nPatches();++p) u.patch(p).coefs()-=w.ori.patch(p).coefs(); return w.w->assembleDualL(u,w.g); },[](W&w){ return w.w->dualL(); });
    add("assembleDualH(points)",[=](W&w){ MP u=w.g; for(size_t p=0;p<u.nPatches();++p) u.patch(p).coefs()-=w.ori.patch(p).coefs(); return w.w->assembleDualH(pt,u,w.g); },[](W&w){ return w.w->dualH(); });
    add("assembleDualH(sides)",[=](W&w){ gsBoxTopology::bContainer B(1,patchSide(0,boundary::east)); MP u=w.g; for(size_t p=0;p<u.nPatches();++p) u.patch(p).coefs()-=w.ori.patch(p).coefs(); return w.w->assembleDualH(B,u,w.g); },[](W&w){ return w.w->dualH(); });
    auto get=[&](const std::string&n,std::function<double(W&)> op){ s.push_back({n,[=](W&w,Out&o){ w.w->setGoal(gf,goal==1?0:9); o.put(op(w)); }}); };
    if (d==2) s.resize(6); // the goals are implemented for surfaces in space
    if (d==3) { get("computeGoal",[](W&w){ return w.w->computeGoal(w.g); }); get("computeGoal(points)",[=](W&w){ return w.w->computeGoal(pt,w.g); }); }
    auto zL=[](W&w){ MP z=w.ori; for(size_t p=0;p<z.nPatches();++p) z.patch(p).coefs()*=0.2; return z; }; auto zH=[](W&w){ MP z=w.g; for(size_t p=0;p<z.nPatches();++p) z.patch(p).coefs()*=0.3; z.degreeElevate(1); return z; };
    get("computeError",[=](W&w){ return w.w->computeError(zL(w),zH(w)); }); get("computeError(deformed)",[=](W&w){ return w.w->computeError(zL(w),zH(w),w.g); });
    s.push_back({"computeErrorElements(deformed)",[=](W&w,Out&o){ auto e=w.w->computeErrorElements(zL(w),zH(w),w.g); Mx m(e.size(),1); for(size_t i=0;i<e.size();++i) m(i,0)=e[i]; o.put(m); o.put(w.w->error()); }});
    return s;
}
template<int d> void estimator(Check&ck)
{
    bool th=ck.thorough(); std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> geos={"quad"},mats={"SvK-imp1-p0","NH-comp-imp1-p0"}; if (th) geos.push_back("two");
    for(auto&g:geos) for(auto&m:mats) for(bool b:types) for(int ld=0;ld<2;++ld) for(int goal=0;goal<4;++goal) { if (goal>0&&d==2) continue; if (!th&&m!="SvK-imp1-p0"&&goal!=2) continue; if (!th&&ld==1&&goal!=1) continue; ACfg f{g,m,b,ld}; auto S=wsteps<d>(goal);
        for(size_t a=0;a<S.size();++a) ck.add("estimator;"+f.key(d)+";goal="+std::to_string(goal)+";op="+S[a].name,[=](Ctx&c){ auto mk=[&]{ return std::unique_ptr<AWorld<d>>(new AWorld<d>(f,true)); }; auto want=fresh<AWorld<d>>(c,mk,S); faults<AWorld<d>>(c,mk,S,want,a,th?1:0); }); }
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C24");
    ck.bound("every operation x every evaluation of a user function (geometry, thickness, density, parameter, ply, force, pressure, foundation, edge load, prescribed displacement) during it: exactly that evaluation fails, or it and all later ones, with three kinds of exception; directly afterwards, with working functions, the operation itself and every other operation, against a fresh object. Materials: all laws, tension-field, laminate; shell, membrane and planar assemblers with one and two patches, with body force, all loads, weak supports and couplings; both levels of the error estimator");
    ck.assume("a failing function throws an exception; the operation may report it by its status or by an exception");
    material<3>(ck); material<2>(ck); assembler<3>(ck); assembler<2>(ck); estimator<3>(ck); estimator<2>(ck);
    return ck.run();
}
