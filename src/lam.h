/* Lamination theory with index sums, and the ply alphabet (shared by the laminate and the shell explorers). */
#pragma once
#include "common.h"
#include <memory>
namespace lam {
using ref::V3; using ref::operator+; using ref::operator-; using ref::operator*;
/// a ply: stiffness in its own axes (engineering 3x3), angle and thickness; any of them may vary in space
struct Ply { std::string name; int kind; double ang, t; bool var; };
inline Mx stiff(int kind)
{
    switch(kind) {
    case 0: { double E=1.5,nu=0.3; Mx G=gsCompositeMatrix<real_t>(E,E,E/(2*(1+nu)),nu,nu); return G; }
    case 1: return gsCompositeMatrix<real_t>(16.0,1.0,0.5,0.32,0.02);
    default: return gsCompositeMatrixRaw<real_t>(8.0,3.0,1.2,0.9,0.6,-0.4);
    }
}
/// the engineering constants written out once more
inline Mx stiffRef(int kind)
{
    Mx G(3,3); G.setZero();
    if (kind==0) { double E=1.5,nu=0.3,f=E/(1-nu*nu); G<<f,nu*f,0,nu*f,f,0,0,0,E/(2*(1+nu)); }
    else if (kind==1) { double D=1-0.32*0.02; G<<16/D,0.32/D,0,0.32/D,1/D,0,0,0,0.5; }
    else G<<8,0.9,0.6,0.9,3,-0.4,0.6,-0.4,1.2;
    return G;
}
inline std::vector<Ply> alphabet(bool th)
{
    std::vector<Ply> a={{"iso",0,0,0.02,false},{"iso60t",0,-M_PI/3,0.05,false},{"o0",1,0,0.02,false},{"o30",1,M_PI/6,0.03,false},{"o90",1,M_PI/2,0.02,false},{"o-60",1,-M_PI/3,0.05,false},{"raw20",2,M_PI/9,0.04,false},{"var",1,0.3,0.03,true}};
    if (th) { a.push_back({"o45",1,M_PI/4,0.02,false}); a.push_back({"o-45",1,-M_PI/4,0.02,false}); a.push_back({"rawvar",2,1.3,0.02,true}); a.push_back({"iso120",0,2*M_PI/3,0.04,false}); }
    return a;
}
// spatial variation, in physical coordinates
inline double varT(const Ply&p,const V3&x){ return p.var? p.t*(1+0.5*x[0]+0.2*x[1]*x[1]) : p.t; }
inline double varA(const Ply&p,const V3&x){ return p.var? p.ang+0.4*x[0]-0.3*x[1] : p.ang; }
inline double varG(const Ply&p,const V3&x){ return p.var? 1+0.25*x[1] : 1; }
inline double rhoOf(const Ply&p){ return 1+p.kind+10*p.t; }

template<int d> struct Stack
{
    std::vector<std::unique_ptr<gsFunctionExpr<real_t>>> fs; std::vector<gsFunctionSet<real_t>*> T,G,A,R; typedef gsFunctionExpr<real_t> FE;
    Stack(const std::vector<Ply>&s)
    {
        auto mk=[&](FE*f){ fs.emplace_back(f); return (gsFunctionSet<real_t>*)f; };
        for (auto&p:s) {
            std::string v=p.var?"1":"0";
            T.push_back(mk(new FE(num(p.t)+"*(1+"+v+"*(0.5*x+0.2*y*y))",d)));
            A.push_back(mk(new FE(num(p.ang)+"+"+v+"*(0.4*x-0.3*y)",d)));
            Mx g=stiff(p.kind); std::vector<std::string> e; for(int j=0;j<3;++j)for(int i=0;i<3;++i) e.push_back(num(g(i,j))+"*(1+"+v+"*0.25*y)");
            G.push_back(mk(new FE(e[0],e[1],e[2],e[3],e[4],e[5],e[6],e[7],e[8],d)));
            R.push_back(mk(new FE(num(rhoOf(p)),d)));
        }
    }
};

struct Lam { Mx A,B,D; double t,rho; };
inline Lam model(const std::vector<Ply>&s,const ref::Geo&g)
{
    Lam r; r.A=Mx::Zero(3,3); r.B=r.A; r.D=r.A; r.t=0; r.rho=0;
    double det=g.aa[0]*g.aa[1]-g.aa[2]*g.aa[2]; V3 h1=(g.aa[1]/det)*g.a1-(g.aa[2]/det)*g.a2, h2=(g.aa[0]/det)*g.a2-(g.aa[2]/det)*g.a1;
    V3 e1=(1/ref::norm(g.a1))*g.a1, e2=(1/ref::norm(h2))*h2; V3 h[2]={h1,h2};
    for (auto&p:s) r.t+=varT(p,g.x);
    double top=r.t/2; static const int I[3]={0,1,0},J[3]={0,1,1};
    for (auto&p:s) {
        double t=varT(p,g.x), a=varA(p,g.x); V3 q[2]={std::cos(a)*e1+std::sin(a)*e2,(-std::sin(a))*e1+std::cos(a)*e2}; Mx Q=varG(p,g.x)*stiffRef(p.kind);
        auto v=[](int i,int j){ return i==j?i:2; }; double w[2][2]; for(int i=0;i<2;++i)for(int k=0;k<2;++k) w[i][k]=ref::dot(q[i],h[k]);
        Mx C(3,3); for(int m=0;m<3;++m)for(int n=0;n<3;++n){ double x=0; for(int i=0;i<2;++i)for(int j=0;j<2;++j)for(int k=0;k<2;++k)for(int l=0;l<2;++l) x+=Q(v(i,j),v(k,l))*w[i][I[m]]*w[j][J[m]]*w[k][I[n]]*w[l][J[n]]; C(m,n)=x; }
        double z1=top, z0=top-t; top=z0;
        r.A+=C*(z1-z0); r.B+=C*(z1*z1-z0*z0)/2; r.D+=C*(z1*z1*z1-z0*z0*z0)/3; r.rho+=t*rhoOf(p);
    }
    return r;
}
} // namespace lam
