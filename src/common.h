/* Shared alphabet of the explored spaces: materials, undeformed surfaces, deformations. */
#pragma once
#include <gismo.h>
#include <gsKLShell/gsKLShell.h>
#include "mc.h"
#include "ref.h"
using namespace gismo;
typedef gsMatrix<real_t> Mx;

struct LawDef { std::string name; int mat; bool comp; int imp; std::vector<double> pars; ref::Mat r() const { ref::Mat m; m.law=(ref::Law)mat; m.comp=comp; m.p=pars; return m; } };

inline std::vector<LawDef> laws(bool nonlinearOnly=false, int parsets=2)
{
    std::vector<LawDef> L;
    static const char*nm[]={"SvK","NH","NHext","MR","OG"};
    auto add=[&](int m,bool c,int i,std::vector<double> p,int ps){
        L.push_back({std::string(nm[m])+(m==0?"":(c?"-comp":"-inc"))+"-imp"+std::to_string(i)+"-p"+std::to_string(ps),m,c,i,p}); };
    for (int ps=0;ps<parsets;++ps) {
        double E= ps==0?1.5:ps==1?420.0:2e-3, nc= ps==0?0.3:ps==1?0.45:0.0, ni= ps==0?0.5:ps==1?0.45:0.2;
        double rat= ps==0?7.0:ps==1?0.6:1.0;
        if (!nonlinearOnly) add(0,false,1,{E,nc},ps);
        for (int imp=1;imp<=3;++imp) {
            add(1,false,imp,{E,ni},ps); add(1,true,imp,{E,nc},ps);
            add(2,true,imp,{E,nc},ps);
            add(3,false,imp,{E,ni,rat},ps); add(3,true,imp,{E,nc,rat},ps);
        }
        double mi=E/(2*(1+ni)), mc_=E/(2*(1+nc));
        auto og=[&](double mu){ // 3-term (Treloar-like) or 1-term set with sum mu_i alpha_i = 2 mu
            std::vector<double> p; if (ps==0) { double f=2*mu/(6.3*1.3+0.012*5.0+0.1*2.0); p={6.3*f,1.3,0.012*f,5.0,-0.1*f,-2.0}; }
            else p={0.8*mu,2.5}; return p; };
        std::vector<double> a={E,ni},b={E,nc}; for(double x:og(mi)) a.push_back(x); for(double x:og(mc_)) b.push_back(x);
        add(4,false,3,a,ps); add(4,true,3,b,ps);
    }
    return L;
}

/// undeformed surfaces; planar ones have z=0 identically
inline std::vector<std::pair<std::string,ref::Poly>> undeformed(int d)
{
    using ref::V3; std::vector<std::pair<std::string,ref::Poly>> r;
    auto P=[](V3 c00,V3 c10,V3 c01,V3 c11,V3 c20,V3 c02){ ref::Poly p; p.c[0][0]=c00;p.c[1][0]=c10;p.c[0][1]=c01;p.c[1][1]=c11;p.c[2][0]=c20;p.c[0][2]=c02; return p; };
    V3 O={{0,0,0}};
    r.push_back({"unit",P(O,V3{{1,0,0}},V3{{0,1,0}},O,O,O)});
    r.push_back({"rect",P(V3{{0.5,0,0}},V3{{2,0,0}},V3{{0,0.6,0}},O,O,O)});
    r.push_back({"skew",P(O,V3{{1.1,0.2,0}},V3{{0.5,0.9,0}},O,O,O)});
    r.push_back({"quad",P(V3{{0.1,0.2,0}},V3{{1.2,0.1,0}},V3{{0.3,0.9,0}},V3{{0.15,-0.1,0}},V3{{0.1,0.2,0}},V3{{-0.1,0.2,0}})});
    if (d==3) {
        ref::Poly cu=P(O,V3{{1.2,0.1,0.1}},V3{{0.2,1.0,-0.1}},V3{{0.1,0.05,0.15}},V3{{0.05,0,0.3}},V3{{0,0.1,-0.2}});
        r.push_back({"curved",cu});
        r.push_back({"curvedrot",cu.lin(ref::rot(V3{{1,2,-1}},1.1),V3{{0.3,-0.2,0.7}})});
        r.push_back({"tilted",r[2].second.lin(ref::rot(V3{{0.3,1,0.2}},0.8))});
    }
    return r;
}
/// deformed surface: linear map of the undeformed one plus (d=3) an out-of-plane polynomial
struct Def { std::string name; ref::M3 A; double bend; bool rotate; };
inline std::vector<Def> deformations(int d)
{
    using namespace ref; std::vector<Def> r;
    r.push_back({"id",M3::id(),0,false});
    r.push_back({"uni",ref::diag(1.3,1,1),0,false});
    r.push_back({"equi",ref::diag(1.2,1.2,1.2),0,false});
    r.push_back({"comp",ref::diag(0.85,0.92,1),0,false});
    r.push_back({"shear",mat(1,0.25,0,0,1,0,0,0,1),0,false});
    r.push_back({"tr2",ref::diag(std::sqrt(1.25),std::sqrt(0.75),1),0,false}); // trace C = 2, not the identity
    r.push_back({"small",mat(1+1e-4,3e-5,0,-2e-5,1-2e-4,0,0,0,1),0,false});
    r.push_back({"gen",mat(1.25,0.2,0.05,0.1,0.85,-0.1,0.05,0.15,1.1),0,false});
    if (d==3) {
        r.push_back({"bend",M3::id(),0.25,false});
        r.push_back({"genbend",mat(1.15,0.2,0.1,0.05,0.95,-0.1,0.1,0.05,1),-0.3,false});
        r.push_back({"rot",M3::id(),0,true});
        r.push_back({"genrot",mat(1.1,-0.15,0,0.2,1.2,0,0.1,0,0.9),0.2,true});
    }
    return r;
}
/// lattice of principal stretches x directions (x bending), for the pointwise checks
inline std::vector<Def> lattice(int d,bool th)
{
    std::vector<Def> r; std::vector<double> l={0.75,0.9,1,1.15,1.5}; std::vector<int> an={0,30,75}; if (th) { l={0.6,0.75,0.85,0.95,1,1.05,1.2,1.5,2}; an={0,15,30,45,60,75,120,165}; }
    for(double a:l) for(double b:l) for(int k:an) for(int bend=0;bend<(d==3?2:1);++bend) { if (a==b&&k) continue; if (a==1&&b==1&&!bend) continue; double f=k*3.14159265358979323846/180,cs=std::cos(f),sn=std::sin(f);
        ref::M3 A=ref::mat(a*cs*cs+b*sn*sn,(a-b)*cs*sn,0,(a-b)*cs*sn,a*sn*sn+b*cs*cs,0,0,0,1); std::ostringstream n; n<<"lat"<<a<<"/"<<b<<"/"<<k<<(bend?"b":""); r.push_back({n.str(),A,bend?0.15:0.0,false}); }
    return r;
}
inline std::vector<Def> allDef(int d,bool th){ std::vector<Def> r=deformations(d),m=lattice(d,th); r.push_back({"tiny",ref::mat(1+3e-7,5e-8,0,-4e-8,1-2e-7,0,0,0,1),0,false}); r.insert(r.end(),m.begin(),m.end()); return r; }
inline ref::Poly deform(const ref::Poly&u,const Def&D,int d)
{
    ref::M3 A=D.A; if (d==2) { A.m[0][2]=A.m[1][2]=A.m[2][0]=A.m[2][1]=0; A.m[2][2]=1; }
    ref::Poly p=u.lin(A);
    if (D.bend!=0) { ref::Poly b; b.c[2][0]={{0.02,0,D.bend}}; b.c[1][1]={{0,0.03,-0.5*D.bend}}; b.c[0][2]={{0,0,0.7*D.bend}}; b.c[2][2]={{0,0,0.1*D.bend}}; p=p.add(b); }
    if (D.rotate) p=p.lin(ref::rot({{0.5,-1,0.7}},2.0),{{1,2,-3}});
    return p;
}

template<int d> gsMultiPatch<real_t> mpatch(const ref::Poly&p){ gsMultiPatch<real_t> m; m.addPatch(p.template spline<d>()); return m; }

/// a material with its own parameter functions
template<int d> struct MatBox
{
    std::vector<gsFunctionSet<real_t>*> ptr; std::vector<gsConstantFunction<real_t>> pf; gsFunctionExpr<real_t> t, rho; typename gsMaterialMatrixBase<real_t>::uPtr mat;
    MatBox(const LawDef&L,const gsMultiPatch<real_t>&mp,const std::string&thick,const std::string&dens="1.0")
    : t(thick,d), rho(dens,d)
    {
        pf.reserve(L.pars.size()); for(double p:L.pars) pf.push_back(gsConstantFunction<real_t>(p,d));
        for(auto&f:pf) ptr.push_back(&f);
        gsOptionList o; o.addInt("Material","",L.mat); o.addSwitch("Compressibility","",L.comp); o.addInt("Implementation","",L.imp);
        mat=getMaterialMatrix<d,real_t>(mp,t,ptr,rho,o);
    }
};
/// parameters varying over the surface; local(L,x) is the law at the position x
inline double varyFac(size_t i,double x,double y){ return i==0?1+0.1*x:i==1?1-0.05*y:1+0.03*x+0.02*y; }
inline LawDef local(LawDef L,double x,double y){ for(size_t i=0;i<L.pars.size();++i) L.pars[i]*=varyFac(i,x,y); return L; }
template<int d> struct VarBox
{
    std::vector<gsFunctionExpr<real_t>> pf; std::vector<gsFunctionSet<real_t>*> ptr; gsFunctionExpr<real_t> t, rho; typename gsMaterialMatrixBase<real_t>::uPtr mat;
    VarBox(const LawDef&L,const gsMultiPatch<real_t>&mp,const std::string&thick) : t(thick,d), rho("1",d)
    {
        for(size_t i=0;i<L.pars.size();++i){ std::ostringstream o; o<<std::setprecision(17)<<"("<<L.pars[i]<<")*("<<(i==0?"1+0.1*x":i==1?"1-0.05*y":"1+0.03*x+0.02*y")<<")"; pf.push_back(gsFunctionExpr<real_t>(o.str(),d)); }
        for(auto&f:pf) ptr.push_back(&f);
        gsOptionList o; o.addInt("Material","",L.mat); o.addSwitch("Compressibility","",L.comp); o.addInt("Implementation","",L.imp);
        mat=getMaterialMatrix<d,real_t>(mp,t,ptr,rho,o);
    }
};
inline std::string num(double x){ std::ostringstream o; o<<std::setprecision(17)<<x; return o.str(); }
