/* Explorer for the goal-oriented error estimator (C21): goal functionals, their dual loads, the two levels, error estimates. */
#include "scene.h"
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsThinShellDWRHelper.h>
using namespace mc;
typedef gsThinShellAssemblerDWRBase<real_t> Dwr; typedef GoalFunction GF; typedef gsBoxTopology::bContainer BC;

struct Goal { GF f; const char*name; int nc; bool flex; };
static const Goal GOALS[]={ {GF::Displacement,"Displacement",3,false},{GF::Stretch,"Stretch",2,false},{GF::PStrain,"PStrain",2,false},{GF::PStress,"PStress",2,false},{GF::MembraneStrain,"MembraneStrain",3,false},{GF::MembraneStress,"MembraneStress",3,false},{GF::MembraneForce,"MembraneForce",3,false},{GF::FlexuralStrain,"FlexuralStrain",3,true},{GF::FlexuralStress,"FlexuralStress",3,true},{GF::FlexuralMoment,"FlexuralMoment",3,true} };
static const int NG=10;

// ------------------------------------------------------------------ two-level scenes
template<int d> struct Two
{
    std::unique_ptr<Scene<d>> L,H; std::string fine; bool bend;
    static MP finer(const MP&m,const std::string&f){ MP r=m; if (f=="p+1") r.degreeElevate(1); else if (f=="h/2") r.uniformRefine(); else throw std::runtime_error("level"); r.computeTopology(); return r; }
    Two(const Conf&f,const std::string&fi) : fine(fi), bend(f.bending) { MP g=geometry<d>(f.geo); L=on(f,g); H=on(f,finer(g,fi)); }
    static std::unique_ptr<Scene<d>> on(const Conf&f,const MP&g){ std::unique_ptr<Scene<d>> s(new Scene<d>(g)); s->bending=f.bending; s->quA=f.quA; s->quB=f.quB; s->continuity=f.cont; s->materials(f.mats); supports<d>(*s,f.bc); s->loads(load(f.load,s->ori.nPatches())); return s; }
    static Loads load(const std::string&n,size_t np){ if (n!="const") return loadCase<d>(n,np); Loads l; l.name=n; l.parametric=d==2; l.force={"0.3","-0.7","0.45"}; l.force.resize(d); return l; }
    template<int dd> typename std::enable_if<dd==3,Dwr*>::type create(){ return bend?(Dwr*)new gsThinShellAssemblerDWR<d,real_t,true>(L->ori,L->mb,H->mb,L->bc,*L->force,L->mats[0]->get()):(Dwr*)new gsThinShellAssemblerDWR<d,real_t,false>(L->ori,L->mb,H->mb,L->bc,*L->force,L->mats[0]->get()); }
    template<int dd> typename std::enable_if<dd==2,Dwr*>::type create(){ return new gsThinShellAssemblerDWR<d,real_t,false>(L->ori,L->mb,H->mb,L->bc,*L->force,L->mats[0]->get()); }
    void configure(Dwr&a){ gsOptionList o=a.optionsL(); o.setReal("ExprAssembler.quA",L->quA); o.setInt("ExprAssembler.quB",L->quB); o.setInt("Continuity",L->continuity); a.setOptions(o); if (L->press) a.setPressure(*L->press); if (L->found) a.setFoundation(*L->found); if (L->pl.numLoads()) a.setPointLoads(L->pl); }
    std::unique_ptr<Dwr> make(){ std::unique_ptr<Dwr> a(create<d>()); configure(*a); return a; }
    Scene<d>&lev(int l){ return l?*H:*L; }
};
// ------------------------------------------------------------------ reference goals
template<int d> struct Pt
{
    BAt b; Geo o,g; V3 u; Moments M; ref::Resp R; Var v;
    Pt(Scene<d>&s,int p,const MP&def,double x,double y,bool bend) : b(basisAt(s.mb.basis(p),x,y)), o(geoAt(b,s.ori.patch(p).coefs())), g(geoAt(b,def.patch(p).coefs())), u(g.x-o.x), M(s.mats[p]->mom(o,g)), R(ref::respond(s.mats[p]->s.L.r(),o.aa,g.aa)), v(b,g,d,d==3) {}
};
inline void eigSym(double a,double b,double c,double e[2]){ double m=0.5*(a+b),q=std::sqrt(0.25*(a-b)*(a-b)+c*c); e[0]=m-q; e[1]=m+q; }
/// principal values of a tensor with contravariant components s in the metric G: eigenvalues of s*G
inline void eigCon(const double s[3],const double G[3],double e[2]){ double tr=s[0]*G[0]+s[1]*G[1]+2*s[2]*G[2],det=(s[0]*s[1]-s[2]*s[2])*(G[0]*G[1]-G[2]*G[2]),q=std::sqrt(std::max(0.,tr*tr/4-det)); e[0]=tr/2-q; e[1]=tr/2+q; }
/// value and derivative (per local unknown) of the functional's density
template<int d> bool density(const Goal&G,int comp,Pt<d>&p,double&val,EV&der)
{
    int n=p.v.n; std::vector<double> f; EM D; // D: n x components
    double e[3],k[3]; for(int i=0;i<3;++i){ e[i]=(i==2?1:0.5)*(p.g.aa[i]-p.o.aa[i]); k[i]=(i==2?2:1)*(p.o.bb[i]-p.g.bb[i]); }
    gsEigen::Matrix3d C,A,B,Dm; for(int i=0;i<3;++i)for(int j=0;j<3;++j){ C(i,j)=p.R.C[i][j]; A(i,j)=p.M.A[i][j]; B(i,j)=p.M.B[i][j]; Dm(i,j)=p.M.D[i][j]; }
    bool flat=(d==2);
    auto eigs=[&](std::function<void(const double[3],double[2])> fun,const double x0[3],const EM&dx,double h){ // eigenvalue functionals by central differences of the reference
        double q[2]; fun(x0,q); if (comp==9) { val=q[0]*q[0]+q[1]*q[1]; } else val=q[comp]; der.setZero(n); bool degenerate=std::abs(q[1]-q[0])<1e-4*h*1e5; if (comp!=9&&degenerate) return false;
        for(int i=0;i<3;++i){ double a[3]={x0[0],x0[1],x0[2]},b[3]={x0[0],x0[1],x0[2]},p1[2],p2[2]; a[i]+=h; b[i]-=h; fun(a,p1); fun(b,p2); double dv= comp==9? (p1[0]*p1[0]+p1[1]*p1[1]-p2[0]*p2[0]-p2[1]*p2[1])/(2*h) : (p1[comp]-p2[comp])/(2*h); der+=dv*dx.col(i); } return true; };
    switch(G.f) {
    case GF::Displacement: { D.setZero(n,d); for(int c=0;c<d;++c) f.push_back(p.u[c]); for(int i=0;i<n;++i) D(i,i%d)=p.b.N[i/d]; break; }
    case GF::Stretch: case GF::PStrain: { EM dC=p.v.dE; dC.col(0)*=2; dC.col(1)*=2; bool st=G.f==GF::Stretch; const Geo&o=p.o; return eigs([&,st](const double x[3],double q[2]){ double g[3]={x[0],x[1],x[2]}; ref::eig2(o.aa,g,q); if (!st) for(int i=0;i<2;++i) q[i]=0.5*(q[i]-1); },p.g.aa,dC,1e-5); }
    case GF::PStress: { EM dS=p.v.dE*C; const Geo&o=p.o; double sc=C.norm(); double s0[3]; EM dx=dS/sc; for(int i=0;i<3;++i) s0[i]=p.R.S[i]/sc; bool ok=eigs([&](const double x[3],double q[2]){ eigCon(x,o.aa,q); },s0,dx,1e-5); double m=comp==9?sc*sc:sc; val*=m; der*=m; return ok; }
    case GF::MembraneStrain: f={e[0],e[1],e[2]}; D=p.v.dE; break;
    case GF::MembraneStress: f={p.R.S[0],p.R.S[1],p.R.S[2]}; D=p.v.dE*C; break;
    case GF::MembraneForce: f={p.M.N[0],p.M.N[1],p.M.N[2]}; D=p.v.dE*A; if (!flat) D+=p.v.dK*B; break;
    case GF::FlexuralStrain: f={k[0],k[1],k[2]}; D=p.v.dK; break;
    case GF::FlexuralStress: { gsEigen::Vector3d kk(k[0],k[1],k[2]),s=C*kk; f={s[0],s[1],s[2]}; D=p.v.dK*C; break; }
    case GF::FlexuralMoment: f={p.M.M[0],p.M.M[1],p.M.M[2]}; D=p.v.dE*B.transpose()+p.v.dK*Dm; break;
    default: throw std::runtime_error("goal");
    }
    der.setZero(n); val=0; if (comp==9) for(size_t c=0;c<f.size();++c){ val+=f[c]*f[c]; der+=2*f[c]*D.col(c); } else { val=f[comp]; der=D.col(comp); }
    return true;
}
struct Where { std::string name; std::vector<std::pair<int,int>> sides; std::vector<std::pair<double,double>> pts; }; // patch,side
struct Out { double J=0; EV D; bool ok=true; double scale=0; };
template<int d> Out goalRef(Scene<d>&s,const MP&def,const Goal&G,int comp,const Where&w,const Numb*nb)
{
    Out r; r.D.setZero(nb?nb->nt:0);
    auto add=[&](int p,double u,double v,double wt,int mode,int dir){ Pt<d> P(s,p,def,u,v,true); double val; EV der; if (!density<d>(G,comp,P,val,der)) r.ok=false; double m= mode==1 ? ref::norm(dir==0?P.o.a2:P.o.a1) : P.o.area(); r.J+=wt*m*val; if (nb) for(int i=0;i<P.v.n;++i) r.D[nb->id(P.b.act[i/d],p,i%d)]+=wt*m*der[i]; };
    if (w.sides.empty()&&w.pts.empty()) for(size_t p=0;p<s.ori.nPatches();++p) for(auto&q:quad2(s.mb.basis(p),s.quA,s.quB)) add(p,q.u,q.v,q.w,0,0);
    for(auto&x:w.sides){ boxSide sd(x.second); for(auto&q:quad2(s.mb.basis(x.first),s.quA,s.quB,sd.direction(),sd.parameter()?1.:0.)) add(x.first,q.u,q.v,q.w,1,sd.direction()); }
    for(auto&x:w.pts) add(0,x.first,x.second,1,0,0);
    return r;
}
template<int d> MP onLevel(const MP&m,int l,const std::string&fine){ return l?Two<d>::finer(m,fine):m; }
inline std::string kindName(int d,bool bend){ return std::string("d=")+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar"); }
inline std::vector<Where> wheres(int np)
{
    std::vector<Where> r; r.push_back({"domain",{},{}}); for(int s=1;s<=4;++s) r.push_back({"side"+std::to_string(s),{{0,s}},{}}); r.push_back({"sides",{{0,1},{np-1,4},{np-1,2}},{}}); r.push_back({"point",{},{{0.31,0.72}}}); r.push_back({"points",{},{{0.1,0.9},{0.62,0.27},{1,1}}}); return r;
}
inline Mx ptsOf(const Where&w){ Mx r(2,w.pts.size()); for(size_t i=0;i<w.pts.size();++i) r.col(i)<<w.pts[i].first,w.pts[i].second; return r; }
inline BC sidesOf(const Where&w){ BC b; for(auto&x:w.sides) b.push_back(patchSide(x.first,boxSide(x.second))); return b; }
template<int d> void goals(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> mats={"SvKt","NHct"}; if (ck.thorough()) mats={"SvKt","NHct","NHi","MRc"};
    std::vector<std::string> geos={"quad","curv2","nurbs","twoC"}; if (d==2) geos={"quad","sq","nurbs","two"};
    for(auto&geo:geos) for(auto&mm:mats) for(auto&mv:moves(d)) for(bool bend:types) for(std::string fine:{"p+1","h/2"}) for(std::string bc:{"free","mix"}) for(int gi=0;gi<NG;++gi) for(int comp:{0,1,2,9}) {
        const Goal&G=GOALS[gi]; if (G.flex&&d==2) continue; if (d==2&&(geo!="quad"||mm!="SvKt"||bc!="mix"||fine!="p+1"||mv.name!="gen")) continue; if (comp!=9&&comp>=G.nc) continue; if (d==2&&comp==2) continue; if (G.f==GF::FlexuralStress&&mm!="SvKt") continue; if (!ck.thorough()&&fine=="h/2"&&(mm!="SvKt"||bc!="mix")) continue; if (!ck.thorough()&&mm!="SvKt"&&(geo=="nurbs"||geo=="curv2"||mv.name=="id")) continue; if (!ck.thorough()&&bc=="free"&&(mm!="SvKt"||mv.name!="gen")) continue; if (geo=="nurbs"&&fine=="p+1") continue;
        ck.add("goal;"+kindName(d,bend)+";geo="+geo+";mat="+mm+";def="+mv.name+";fine="+fine+";bc="+bc+";goal="+G.name+";comp="+std::to_string(comp),[=](Ctx&c){
            Conf f{geo,{mm},"","none",bc,bend,1,1,-1}; Two<d> t(f,fine); auto a=t.make(); a->setGoal(G.f,comp); MP def=displaced(t.L->ori,mv.u); int np=def.nPatches();
            MP u=def; for(int p=0;p<np;++p) u.patch(p).coefs()-=t.L->ori.patch(p).coefs(); MP defH=onLevel<d>(def,1,fine);
            for(auto&w:wheres(np)){ c.state(); Out J=goalRef<d>(*t.H,defH,G,comp,w,nullptr);
                { double v= w.name=="domain"?a->computeGoal(def): w.pts.empty()?a->computeGoal(sidesOf(w),def):a->computeGoal(ptsOf(w),def); c.op(); c.close(v,J.J,std::max(std::abs(J.J),1e-3),1e-7,"goal value, "+w.name); }
                for(int l=0;l<2;++l) for(int form=0;form<2;++form){ St st; EV got;
                    if (w.name=="domain") st= form? (l?a->assembleDualH(u,def):a->assembleDualL(u,def)) : (l?a->assembleDualH(u):a->assembleDualL(u));
                    else if (w.pts.empty()) { BC b=sidesOf(w); st= form? (l?a->assembleDualH(b,u,def):a->assembleDualL(b,u,def)) : (l?a->assembleDualH(b,u):a->assembleDualL(b,u)); }
                    else { Mx x=ptsOf(w); st= form? (l?a->assembleDualH(x,u,def):a->assembleDualL(x,u,def)) : (l?a->assembleDualH(x,u):a->assembleDualL(x,u)); }
                    c.op(); if (!c.ok(st==OK_,"dual assembly succeeds, "+w.name)) continue; Mx g=l?a->dualH():a->dualL(); Numb nb(l?a->getMapperH():a->getMapperL()); MP dl=onLevel<d>(def,l,fine); Out R=goalRef<d>(t.lev(l),dl,G,comp,w,&nb); if (!R.ok) continue;
                    if (!c.ok(g.rows()==nb.nf,"size of the dual load, "+w.name,std::to_string(g.rows())+" expected "+std::to_string(nb.nf))) continue; EM e=R.D.head(nb.nf); c.closeM(g,e,2e-5,"dual load is the derivative of the goal, "+w.name,1e-3*R.D.cwiseAbs().maxCoeff()+1e-3); }
            }
        });
    }
}

// ------------------------------------------------------------------ error estimates
/// first and second variations of the strains along given fields
struct Dir { V3 x,x1,x2,x11,x22,x12,m,dn; gsEigen::Vector3d dE,dK; };
inline Dir dirAt(const BAt&b,const Mx&c,const Geo&g)
{
    Dir r; r.x=comb(b,b.N,c); r.x1=comb(b,b.N1,c); r.x2=comb(b,b.N2,c); r.x11=comb(b,b.N11,c); r.x22=comb(b,b.N22,c); r.x12=comb(b,b.N12,c); V3 mm=ref::cross(g.a1,g.a2); double J=ref::norm(mm); V3 n=(1/J)*mm;
    r.m=ref::cross(r.x1,g.a2)+ref::cross(g.a1,r.x2); r.dn=(1/J)*(r.m-ref::dot(n,r.m)*n);
    r.dE<<ref::dot(g.a1,r.x1),ref::dot(g.a2,r.x2),ref::dot(g.a1,r.x2)+ref::dot(g.a2,r.x1);
    r.dK<<-(ref::dot(r.x11,n)+ref::dot(g.a11,r.dn)),-(ref::dot(r.x22,n)+ref::dot(g.a22,r.dn)),-2*(ref::dot(r.x12,n)+ref::dot(g.a12,r.dn)); return r;
}
inline double second(const Dir&u,const Dir&z,const Geo&g,const double N[3],const double M[3],bool bend)
{
    double r=N[0]*ref::dot(u.x1,z.x1)+N[1]*ref::dot(u.x2,z.x2)+N[2]*(ref::dot(u.x1,z.x2)+ref::dot(u.x2,z.x1)); if (!bend) return r;
    V3 mm=ref::cross(g.a1,g.a2); double J=ref::norm(mm); V3 n=(1/J)*mm,q=ref::cross(u.x1,z.x2)+ref::cross(z.x1,u.x2); V3 d2=(1/J)*(q-ref::dot(n,q)*n); d2=d2-(1/J)*(ref::dot(n,u.m)*z.dn+ref::dot(z.dn,u.m)*n); d2=d2-(ref::dot(n,z.m)/J)*u.dn;
    auto f=[&](const V3&a,const V3&b,const V3&A){ return -(ref::dot(a,z.dn)+ref::dot(b,u.dn)+ref::dot(A,d2)); }; return r+M[0]*f(u.x11,z.x11,g.a11)+M[1]*f(u.x22,z.x22,g.a22)+2*M[2]*f(u.x12,z.x12,g.a12);
}
typedef std::vector<double> VD;
/// element-wise integrals of a density over the fine level
template<int d> VD elements(Scene<d>&s,std::function<double(int,const QP&,const BAt&,const Geo&)> f)
{
    VD r; for(size_t p=0;p<s.ori.nPatches();++p){ size_t b0=r.size(); for(auto&q:quad2(s.mb.basis(p),1,1)){ if (r.size()<b0+q.elem+1) r.resize(b0+q.elem+1,0.); BAt b=basisAt(s.mb.basis(p),q.u,q.v); Geo o=geoAt(b,s.ori.patch(p).coefs()); r[b0+q.elem]+=q.w*o.area()*f(p,q,b,o); } } return r;
}
inline double sum(const VD&v){ double r=0; for(double x:v) r+=x; return r; }
inline double mag(const VD&v){ double r=0; for(double x:v) r=std::max(r,std::abs(x)); return r; }
/// coefficients of an arbitrary vector field on a level
inline MP field(const MP&m,int seed,double sc){ MP r=m; for(size_t p=0;p<m.nPatches();++p){ Mx&c=r.patch(p).coefs(); const Mx x=c; for(index_t i=0;i<c.rows();++i) for(index_t k=0;k<c.cols();++k) c(i,k)=sc*std::sin(1.3*seed+2.1*x(i,0)*(k+1)+1.7*x(i,1)*(seed+1)+0.6*k+(x.cols()>2?0.9*x(i,2):0)); } return r; }
inline MP minus(MP a,const MP&b){ for(size_t p=0;p<a.nPatches();++p) a.patch(p).coefs()-=b.patch(p).coefs(); return a; }
inline void sameV(Ctx&c,const VD&a,const VD&b,double tol,const std::string&w,double floor){ if (!c.ok(a.size()==b.size(),"number of "+w,std::to_string(a.size())+" expected "+std::to_string(b.size()))) return; Mx x(a.size(),1),y(b.size(),1); for(size_t i=0;i<a.size();++i){ x(i,0)=a[i]; y(i,0)=b[i]; } c.closeM(x,y,tol,w,floor); }
/// point loads shared equally among the elements of the patch that contain the point
template<int d> void addPoints(Scene<d>&s,const MP&z,VD&e,double&tot)
{
    std::vector<size_t> off(1,0); for(size_t p=0;p<s.ori.nPatches();++p) off.push_back(off.back()+(breaks(s.mb.basis(p),0).size()-1)*(breaks(s.mb.basis(p),1).size()-1));
    for(size_t k=0;k<s.pl.numLoads();++k){ auto L=s.pl[k]; if (!L.parametric) throw std::runtime_error("parametric points only"); Mx u=L.point,v; z.patch(L.patch).eval_into(u,v); double w=0; for(int c=0;c<d;++c) w+=v(c,0)*L.value[c]; tot+=w;
        auto X=breaks(s.mb.basis(L.patch),0),Y=breaks(s.mb.basis(L.patch),1); std::vector<size_t> in; for(size_t j=0;j+1<Y.size();++j) for(size_t i=0;i+1<X.size();++i) if (u(0,0)>=X[i]&&u(0,0)<=X[i+1]&&u(1,0)>=Y[j]&&u(1,0)<=Y[j+1]) in.push_back(off[L.patch]+j*(X.size()-1)+i);
        for(size_t i:in) e[i]+=w/in.size(); }
}
template<int d> double neumann(Scene<d>&s,const MP&z)
{
    double r=0; for(auto&nq:s.neu){ boxSide sd(nq.first.side); int p=nq.first.patch; for(auto&q:quad2(s.mb.basis(p),1,1,sd.direction(),sd.parameter()?1.:0.)){ BAt b=basisAt(s.mb.basis(p),q.u,q.v); Geo o=geoAt(b,s.ori.patch(p).coefs()); double w=q.w*ref::norm(sd.direction()==0?o.a2:o.a1); Mx f=evalF(*nq.second,o.x); V3 zz=comb(b,b.N,z.patch(p).coefs()); for(int c=0;c<d;++c) r+=w*f(c,0)*zz[c]; } } return r;
}
template<int d> double forceZ(Scene<d>&s,const QP&q,const Geo&o,const V3&z){ Mx f= s.force->domainDim()==2 ? evalF(*s.force,{{q.u,q.v,0}}) : evalF(*s.force,o.x); double r=0; for(int c=0;c<d;++c) r+=f(c,0)*z[c]; return r; }
template<int d> void errors(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> mats={"SvKt","NHct"}; if (ck.thorough()) mats={"SvKt","NHct","NHi","MRc"};
    std::vector<std::string> geos={"quad","curv2","nurbs","twoC","twoR"}; if (d==2) geos={"quad","sq","nurbs","two","three"};
    for(auto&geo:geos) for(auto&mm:mats) for(auto&mv:moves(d)) for(bool bend:types) for(std::string fine:{"p+1","h/2"}) for(std::string load:{"none","const","force","pforce","neu","point","press","found"}) for(std::string bc:{"free","mix"}) {
        if (geo=="nurbs"&&fine=="p+1") continue; if (d==2&&(load=="force"||load=="press"||load=="found")) continue; if ((load=="pforce"||load=="press"||load=="found"||load=="neu"&&false)&&(geo!="quad"||mm!="SvKt"||bc!="mix"||fine!="p+1")) continue; if (!ck.thorough()&&d==3&&load=="const") continue; if (!ck.thorough()&&mm!="SvKt"&&(geo=="nurbs"||geo=="curv2"||mv.name=="id")) continue; if (!ck.thorough()&&bc=="free"&&load!="force"&&load!="point") continue; if (!ck.thorough()&&mm!="SvKt"&&(load=="neu"||load=="point")) continue;
        ck.add("error;"+kindName(d,bend)+";geo="+geo+";mat="+mm+";def="+mv.name+";fine="+fine+";bc="+bc+";load="+load,[=](Ctx&c){
            Conf f{geo,{mm},"",load,bc,bend,1,1,-1}; Two<d> t(f,fine); auto a=t.make(); MP def=displaced(t.L->ori,mv.u),defH=onLevel<d>(def,1,fine); Scene<d>&H=*t.H;
            MP zL=field(t.L->ori,1,0.3),zH=field(H.ori,2,0.4),z=minus(zH,onLevel<d>(zL,1,fine));
            for(int sq=0;sq<2;++sq) for(int lin=0;lin<2;++lin) for(bool wl:{true,false}) { c.state();
                if (sq&&(load=="neu"||load=="point")) continue;
                VD e=elements<d>(H,[&](int p,const QP&q,const BAt&b,const Geo&o){ Geo g=geoAt(b,defH.patch(p).coefs()); Dir D=dirAt(b,z.patch(p).coefs(),g); double r=forceZ<d>(H,q,o,D.x);
                    if (!lin) { Moments M=H.mats[p]->mom(o,g); for(int i=0;i<3;++i) r-=M.N[i]*D.dE[i]+(d==3&&bend?M.M[i]*D.dK[i]:0);
                        if (d==3&&H.press) { double pr=evalF(*H.press,o.x)(0,0); r+=pr*ref::dot(g.n,D.x); } if (d==3&&H.found) { Mx k=evalF(*H.found,o.x); for(int i=0;i<3;++i) r-=k(i,0)*(g.x[i]-o.x[i])*D.x[i]; } }
                    else { if (d==3&&H.press) { double pr=evalF(*H.press,o.x)(0,0); r+=pr*ref::dot(o.n,D.x); } }
                    return sq?r*r:r; });
                double tot=sum(e),sc=0; for(double x:e) sc+=std::abs(x); sc=std::max(sc,1e-6); VD el=e;
                if (wl) addPoints<d>(H,z,el,tot); bool hasNeu=!H.neu.empty(); double totN=tot; if (wl) totN+=neumann<d>(H,z);
                double got; VD ge; std::string w=std::string(sq?"squared ":"")+(lin?"error of the linear problem":"error of the nonlinear problem")+(wl?" with loads":" without loads");
                try {
                if (!(hasNeu&&!wl)) { got= sq? (lin?a->computeSquaredError(zL,zH,wl):a->computeSquaredError(zL,zH,def,wl)) : (lin?a->computeError(zL,zH,wl):a->computeError(zL,zH,def,wl)); c.op(); c.close(got,totN,sc,1e-8,"total, "+w); c.ok(a->error()==got,"error() returns the last estimate, "+w); }
                ge= sq? (lin?a->computeSquaredErrorElements(zL,zH,wl):a->computeSquaredErrorElements(zL,zH,def,wl)) : (lin?a->computeErrorElements(zL,zH,wl):a->computeErrorElements(zL,zH,def,wl)); c.op();
                if (!(hasNeu&&wl)) { sameV(c,ge,el,1e-8,"element errors, "+w,sc/e.size()); c.close(a->error(),tot,sc,1e-8,"error() after the element-wise estimate, "+w); c.ok(a->errors()==ge,"errors() returns the last estimate, "+w); VD ab=a->absErrors(); bool same=ab.size()==ge.size(); for(size_t i=0;same&&i<ab.size();++i) same=ab[i]==std::abs(ge[i]); c.ok(same,"absErrors() are the absolute values, "+w); }
                else c.close(sum(ge),totN,sc,1e-9,"element errors sum up to the total, "+w);
                } catch(const std::exception&x){ c.ok(false,"estimate is computed, "+w,x.what()); }
            }
        });
    }
}
template<int d> void eigen(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> mats={"SvKt","NHct"}; if (ck.thorough()) mats={"SvKt","NHct","NHi","MRc"};
    std::vector<std::string> geos={"quad","curv2","nurbs","twoC","twoR"}; if (d==2) geos={"quad","nurbs","two"};
    for(auto&geo:geos) for(auto&mm:mats) for(auto&mv:moves(d)) for(bool bend:types) for(std::string fine:{"p+1","h/2"}) for(std::string bc:{"free","mix"}) for(int buck=0;buck<2;++buck) {
        if (geo=="nurbs"&&fine=="p+1") continue; if (!buck&&mv.name!="id") continue; if ((!bend||d==2)&&(geo!="quad"||mv.name!="id"||bc!="free"||mm!="SvKt"||fine!="p+1")&&!ck.thorough()) continue;
        ck.add("eig;"+kindName(d,bend)+";geo="+geo+";mat="+mm+";def="+mv.name+";fine="+fine+";bc="+bc+(buck?";buckling":";modal"),[=](Ctx&c){
            Conf f{geo,{mm},"","none",bc,bend,1,1,-1}; Two<d> t(f,fine); auto a=t.make(); a->setGoal(buck?GF::Buckling:GF::Modal); MP def=displaced(t.L->ori,mv.u),defH=onLevel<d>(def,1,fine); Scene<d>&H=*t.H; bool bd=d==3&&bend;
            MP zL=field(t.L->ori,1,0.3),zH=field(H.ori,2,0.4),z=minus(zH,onLevel<d>(zL,1,fine)),u=field(t.L->ori,3,0.5),uH=onLevel<d>(u,1,fine); double lam=1.7,mL=0.9,mH=1.25;
            auto stiff=[&](const Moments&M,const Dir&x,const Dir&y){ gsEigen::Matrix3d A,B,D; for(int i=0;i<3;++i)for(int j=0;j<3;++j){ A(i,j)=M.A[i][j]; B(i,j)=M.B[i][j]; D(i,j)=M.D[i][j]; } double r=x.dE.dot(A*y.dE); if (bd) r+=x.dE.dot(B*y.dK)+y.dE.dot(B*x.dK)+x.dK.dot(D*y.dK); return r; };
            auto forms=[&](int p,const BAt&b,const Geo&o,const Mx&x,const Mx&y,double&A,double&B){ Dir X=dirAt(b,x,o),Y=dirAt(b,y,o); A=stiff(H.mats[p]->mom(o,o),X,Y); if (!buck) { B=H.mats[p]->arealMass(o)*ref::dot(X.x,Y.x); return; } Geo g=geoAt(b,defH.patch(p).coefs()); Dir X2=dirAt(b,x,g),Y2=dirAt(b,y,g); Moments M=H.mats[p]->mom(o,g); B=stiff(M,X2,Y2)+second(X2,Y2,g,M.N,M.M,bd)-A; };
            c.state(); VD e=elements<d>(H,[&](int p,const QP&,const BAt&b,const Geo&o){ double A,B,X,P; forms(p,b,o,z.patch(p).coefs(),uH.patch(p).coefs(),A,B); forms(p,b,o,uH.patch(p).coefs(),uH.patch(p).coefs(),X,P); return A-lam*B+(mH-mL)*P; });
            double sc=1e-6; for(double x:e) sc+=std::abs(x);
            try { double got=buck?a->computeErrorEig(lam,mL,mH,zL,zH,u,def):a->computeErrorEig(lam,mL,mH,zL,zH,u); c.op(); c.close(got,sum(e)-(mH-mL),sc,1e-9,"eigenvalue error"); c.ok(a->error()==got,"error() returns the last estimate");
            VD ge=buck?a->computeErrorEigElements(lam,mL,mH,zL,zH,u,def):a->computeErrorEigElements(lam,mL,mH,zL,zH,u); c.op(); sameV(c,ge,e,1e-9,"element eigenvalue errors",sc/e.size()); c.close(a->error(),sum(e)-(mH-mL),sc,1e-9,"error() after the element-wise eigenvalue error"); c.ok(a->errors()==ge,"errors() returns the last estimate"); } catch(const std::exception&x){ c.ok(false,"eigenvalue error is computed",x.what()); }
            for(int k=0;k<3;++k){ c.state(); const MP&x=k==0?uH:z; const MP&y=k==1?z:uH; VD n=elements<d>(H,[&](int p,const QP&,const BAt&b,const Geo&o){ double A,B; forms(p,b,o,x.patch(p).coefs(),y.patch(p).coefs(),A,B); return B; }); double s2=1e-6; for(double v:n) s2+=std::abs(v);
                try { double got=buck?a->matrixNorm(x,y,def):a->matrixNorm(x,y); c.op(); c.close(got,sum(n),s2,1e-9,"matrix norm"); } catch(const std::exception&x){ c.ok(false,"matrix norm is computed",x.what()); } }
        });
    }
}

// ------------------------------------------------------------------ the two levels and histories
struct Cfg { bool pts=false,press=false,found=false,bc=false,qu=false,bL=false,bH=false,und=false; std::string str() const { std::string r; for(bool b:{pts,press,found,bc,qu,bL,bH,und}) r+=b?'1':'0'; return r; } };
template<int d> struct World
{
    bool bend; MP g0,g1; gsMultiBasis<real_t> b[2][2]; gsBoundaryConditions<real_t> bc[2]; gsFunctionExpr<real_t> force,press[2],found[2]; gsPointLoads<real_t> pl[2]; std::unique_ptr<MatObj<d>> mat; std::vector<std::shared_ptr<gsFunctionExpr<real_t>>> keep; int cont;
    static std::vector<std::string> cut(std::vector<std::string> v){ v.resize(d); return v; }
    gsFunctionExpr<real_t>*fun(const std::vector<std::string>&e){ keep.emplace_back(new gsFunctionExpr<real_t>(e,d)); return keep.back().get(); }
    World(const std::string&geo,const std::string&m,bool bd,int ct) : bend(bd), g0(geometry<d>(geo)), g1(displaced(g0,moveOf(d,"stretch").u)), force(cut({"0.3+0.2*x","-0.2+y*x","1.1-0.4*x*x"}),d), mat(new MatObj<d>(matSpec(m),g0)), cont(ct)
    {
        g1.computeTopology(); for(int l=0;l<2;++l) for(int k=0;k<2;++k){ b[l][k]=gsMultiBasis<real_t>(g0); if (l) b[l][k].degreeElevate(1); if (k) { b[l][k].uniformRefine(); } }
        for(int k=0;k<2;++k){ press[k]=k?gsFunctionExpr<real_t>("0.8+0.3*x-0.2*y",d):gsFunctionExpr<real_t>("0",d); found[k]=gsFunctionExpr<real_t>(k?cut({"0.4+x","0.9","1.3-0.2*y"}):cut({"0","0","0"}),d); gsVector<real_t> x(2),v(d); x<<0.3,k?0.6:0.7; for(int c=0;c<d;++c) v[c]=0.5*(c+1)-0.9*k; pl[k].addLoad(x,v,0,true); if (k) { x<<0.55,0.2; pl[k].addLoad(x,-2*v,(int)g0.nPatches()-1,true); }
            bc[k].setGeoMap(g0); auto*f=fun(cut({"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"})); bc[k].addCondition(0,k?boundary::south:boundary::west,condition_type::dirichlet,f); bc[k].addCondition((int)g0.nPatches()-1,boundary::north,condition_type::neumann,fun(k?cut({"0.4","x","1"}):cut({"y","0.2","-1"}))); }
    }
    template<class A> void opts(A&a,gsOptionList o,bool qu){ o.setReal("ExprAssembler.quA",qu?2:1); o.setInt("ExprAssembler.quB",qu?3:1); o.setInt("Continuity",cont); a.setOptions(o); }
    template<bool bb> Asm* plainT(const Cfg&c,int l){ return new gsThinShellAssembler<d,real_t,bb>(c.und?g1:g0,b[l][l?c.bH:c.bL],bc[c.bc],force,mat->get()); }
    template<bool bb> Dwr* dwrT(const Cfg&c){ return new gsThinShellAssemblerDWR<d,real_t,bb>(c.und?g1:g0,b[0][c.bL],b[1][c.bH],bc[c.bc],force,mat->get()); }
    template<int dd> typename std::enable_if<dd==3,Asm*>::type plainR(const Cfg&c,int l){ return bend?plainT<true>(c,l):plainT<false>(c,l); }
    template<int dd> typename std::enable_if<dd==2,Asm*>::type plainR(const Cfg&c,int l){ return plainT<false>(c,l); }
    template<int dd> typename std::enable_if<dd==3,Dwr*>::type dwrR(const Cfg&c){ return bend?dwrT<true>(c):dwrT<false>(c); }
    template<int dd> typename std::enable_if<dd==2,Dwr*>::type dwrR(const Cfg&c){ return dwrT<false>(c); }
    template<class A> void loads(A&a,const Cfg&c){ a.setPointLoads(pl[c.pts]); if (d==3) { a.setPressure(press[c.press]); a.setFoundation(found[c.found]); } }
    std::unique_ptr<Asm> plain(const Cfg&c,int l){ std::unique_ptr<Asm> a(plainR<d>(c,l)); opts(*a,a->options(),c.qu); loads(*a,c); return a; }
    std::unique_ptr<Dwr> dwr(const Cfg&c){ std::unique_ptr<Dwr> a(dwrR<d>(c)); opts(*a,a->optionsL(),c.qu); loads(*a,c); return a; }
    MP deformed() { return displaced(g0,moveOf(d,"gen").u); }
};
struct Obs { std::vector<std::pair<std::string,Mx>> v; void put(const std::string&n,const Mx&m){ v.push_back({n,m}); } };
template<class A> Mx vecOf(int n){ Mx v(n,1); for(int i=0;i<n;++i) v(i,0)=0.01*((i*7)%11-5); return v; }
inline Mx coefsOf(const MP&m){ std::vector<double> v; for(size_t p=0;p<m.nPatches();++p){ const Mx&c=m.patch(p).coefs(); for(index_t i=0;i<c.rows();++i) for(index_t k=0;k<c.cols();++k) v.push_back(c(i,k)); } Mx r(v.size(),1); for(size_t i=0;i<v.size();++i) r(i,0)=v[i]; return r; }
/// what a plain assembler on one level yields
template<int d> Obs observePlain(Asm&a,const MP&def,bool sol)
{
    Obs o; Mx n(1,1); n(0,0)=a.numDofs(); o.put("number of unknowns",n); Mx v=vecOf<int>(a.numDofs());
    a.assembleMatrix(def); o.put("tangent matrix",dense(a.matrix())); a.assembleVector(def); o.put("residual",a.rhs()); a.assemble(); o.put("linear matrix",dense(a.matrix())); o.put("linear right-hand side",a.rhs());
    a.assembleMass(false); o.put("mass matrix",dense(a.massMatrix())); a.assembleMass(true); o.put("lumped mass matrix",dense(a.massMatrix()));
    o.put("displacement",coefsOf(a.constructDisplacement(v))); if (sol) o.put("solution",coefsOf(a.constructSolution(v))); return o;
}
template<int d> Obs observeLevel(Ctx&c,Dwr&a,int l,const MP&def,bool sol)
{
    Obs o; Mx n(1,1); n(0,0)=l?a.numDofsH():a.numDofsL(); o.put("number of unknowns",n); Mx v=vecOf<int>((int)n(0,0)); auto ok=[&](St s,const char*w){ c.op(); c.ok(s==OK_,std::string("success of ")+w); };
    ok(l?a.assembleMatrixH(def):a.assembleMatrixL(def),"assembleMatrix"); o.put("tangent matrix",dense(l?a.matrixH():a.matrixL())); ok(l?a.assemblePrimalH(def):a.assemblePrimalL(def),"assemblePrimal"); o.put("residual",l?a.primalH():a.primalL());
    ok(l?a.assembleH():a.assembleL(),"assemble"); o.put("linear matrix",dense(l?a.matrixH():a.matrixL())); o.put("linear right-hand side",l?a.primalH():a.primalL());
    ok(l?a.assembleMassH():a.assembleMassL(),"assembleMass"); o.put("mass matrix",dense(l?a.massH():a.massL())); ok(l?a.assembleMassH(true):a.assembleMassL(true),"assembleMass lumped"); o.put("lumped mass matrix",dense(l?a.massH():a.massL()));
    o.put("displacement",coefsOf(l?a.constructDisplacementH(v):a.constructDisplacementL(v))); if (sol) o.put("solution",coefsOf(l?a.constructSolutionH(v):a.constructSolutionL(v)));
    ok(l?a.assembleMatrixH():a.assembleMatrixL(),"assembleMatrix linear"); o.put("linear matrix, alone",dense(l?a.matrixH():a.matrixL())); ok(l?a.assemblePrimalH():a.assemblePrimalL(),"assemblePrimal linear"); o.put("linear right-hand side, alone",l?a.primalH():a.primalL());
    MP w; if (l) a.constructMultiPatchH(v,w); else a.constructMultiPatchL(v,w); o.put("multipatch of a vector",coefsOf(w)); Mx sv=l?Mx(a.constructSolutionVectorH(w)):Mx(a.constructSolutionVectorL(w)); o.put("vector of a multipatch",sv); return o;
}
/// quantities of the estimator itself
template<int d> Obs observeDwr(Ctx&c,Dwr&a,World<d>&w,const MP&def,const Cfg&cf)
{
    Obs o; auto one=[&](double x){ Mx m(1,1); m(0,0)=x; return m; }; MP zL=field(w.g0,1,0.3),zH=field(w.g0,2,0.4); bool press=cf.press||cf.found;
    if (!press) { o.put("error, linear",one(a.computeError(zL,zH,true))); o.put("error",one(a.computeError(zL,zH,def,true))); c.op(2); VD e=a.computeErrorElements(zL,zH,def,true); Mx m(e.size(),1); for(size_t i=0;i<e.size();++i) m(i,0)=e[i]; o.put("element errors",m); }
    if (d==2) return o; MP u=minus(def,cf.und?w.g1:w.g0); for(auto g:{GF::Displacement,GF::MembraneStress,GF::FlexuralMoment}) for(int comp:{9,1}) { a.setGoal(g,comp); std::string nm="goal "+std::to_string((int)g)+"/"+std::to_string(comp)+", "; o.put(nm+"value",one(a.computeGoal(def))); c.op(); for(int l=0;l<2;++l){ St st=l?a.assembleDualH(u,def):a.assembleDualL(u,def); c.op(); c.ok(st==OK_,"success of assembleDual"); o.put(nm+(l?"dual on H":"dual on L"),l?a.dualH():a.dualL()); } }
    return o;
}
inline void compare(Ctx&c,const Obs&a,const Obs&b,const std::string&w)
{
    for(auto&x:a.v) for(auto&y:b.v) { std::string n=x.first; if (n!=y.first&&!(n=="linear matrix, alone"&&y.first=="linear matrix")&&!(n=="linear right-hand side, alone"&&y.first=="linear right-hand side")&&!(n=="multipatch of a vector"&&y.first=="displacement")) continue; c.state(); if (!c.ok(x.second.rows()==y.second.rows()&&x.second.cols()==y.second.cols(),"size of "+n+w,std::to_string(x.second.rows())+" expected "+std::to_string(y.second.rows()))) continue; c.closeM(x.second,y.second,1e-9,n+w); }
}
template<int d> struct Op { std::string name; std::function<void(World<d>&,Dwr&,Cfg&)> f; };
template<int d> std::vector<Op<d>> ops()
{
    typedef World<d> W; std::vector<Op<d>> r; auto add=[&](const std::string&n,std::function<void(W&,Dwr&,Cfg&)> f){ r.push_back({n,f}); };
    add("setPointLoads",[](W&w,Dwr&a,Cfg&c){ c.pts=!c.pts; a.setPointLoads(w.pl[c.pts]); });
    if (d==3) { add("setPressure",[](W&w,Dwr&a,Cfg&c){ c.press=!c.press; a.setPressure(w.press[c.press]); }); add("setFoundation",[](W&w,Dwr&a,Cfg&c){ c.found=!c.found; a.setFoundation(w.found[c.found]); }); }
    add("updateBCs",[](W&w,Dwr&a,Cfg&c){ c.bc=!c.bc; a.updateBCs(w.bc[c.bc]); }); add("setOptions",[](W&w,Dwr&a,Cfg&c){ c.qu=!c.qu; w.opts(a,a.optionsL(),c.qu); });
    add("setBasisL",[](W&w,Dwr&a,Cfg&c){ c.bL=!c.bL; a.setBasisL(w.b[0][c.bL]); }); add("setBasisH",[](W&w,Dwr&a,Cfg&c){ c.bH=!c.bH; a.setBasisH(w.b[1][c.bH]); }); add("setUndeformed",[](W&w,Dwr&a,Cfg&c){ c.und=!c.und; a.setUndeformed(c.und?w.g1:w.g0); });
    add("assembleL",[](W&,Dwr&a,Cfg&){ a.assembleL(); }); add("assembleMatrixH",[](W&w,Dwr&a,Cfg&){ a.assembleMatrixH(w.deformed()); }); add("assemblePrimalL",[](W&w,Dwr&a,Cfg&){ a.assemblePrimalL(w.deformed()); }); add("assembleMassH",[](W&,Dwr&a,Cfg&){ a.assembleMassH(true); });
    add("computeErrorElements",[](W&w,Dwr&a,Cfg&){ a.computeErrorElements(field(w.g0,1,0.3),field(w.g0,2,0.4),w.deformed(),true); });
    if (d==3) { add("assembleDualL",[](W&w,Dwr&a,Cfg&){ a.setGoal(GF::MembraneForce,0); MP def=w.deformed(); a.assembleDualL(minus(def,w.g0),def); }); add("assembleDualH",[](W&w,Dwr&a,Cfg&){ a.setGoal(GF::Displacement,9); MP def=w.deformed(); BC b; b.push_back(patchSide(0,boxSide(1))); a.assembleDualH(b,minus(def,w.g0),def); }); add("dualPoints",[](W&w,Dwr&a,Cfg&){ a.setGoal(GF::Displacement,2); MP def=w.deformed(); Mx x(2,1); x<<0.3,0.6; a.assembleDualL(x,minus(def,w.g0),def); }); add("computeGoal",[](W&w,Dwr&a,Cfg&){ a.setGoal(GF::PStress,0); a.computeGoal(w.deformed()); }); add("modal",[](W&w,Dwr&a,Cfg&){ a.setGoal(GF::Modal); MP u=field(w.g0,3,0.5); a.computeErrorEig(1,2,3,u,u,u); a.matrixNorm(u,u); }); }
    return r;
}
template<int d> void levels(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; int depth=ck.thorough()?3:2; std::vector<std::pair<std::string,int>> geos={{"quad",-1},{"twoC",0}}; if (d==2) geos={{"quad",-1},{"two",0}}; if (ck.thorough()&&d==3) geos.push_back({"curv2",-1}); int n=ops<d>().size();
    for(auto&ge:geos) for(bool bend:types) for(std::string m:{"SvKt","NHct"}) { if (!ck.thorough()&&d==3&&(!bend?(ge.first!="quad"||m!="SvKt"):(ge.first=="quad")==(m=="SvKt"))) continue; for(int i=-1;i<n;++i) for(int j=-1;j<n;++j) { if (i<0&&j>=0) continue; if (j<0&&i>=0&&false) continue;
        ck.add("levels;"+kindName(d,bend)+";geo="+ge.first+";mat="+m+";ops="+(i<0?"":ops<d>()[i].name)+(j<0?"":","+ops<d>()[j].name),[=](Ctx&c){
            World<d> w(ge.first,m,bend,ge.second); auto O=ops<d>(); MP def=w.deformed(); std::map<std::string,std::pair<std::vector<Obs>,Obs>> fresh;
            auto check=[&](const std::vector<int>&seq){ Cfg cf; auto a=w.dwr(cf); std::string nm; for(int k:seq){ O[k].f(w,*a,cf); c.op(); nm+=(nm.empty()?" after ":",")+O[k].name; } if (seq.size()<3) nm=""; auto it=fresh.find(cf.str());
                if (it==fresh.end()) { std::pair<std::vector<Obs>,Obs> r; for(int l=0;l<2;++l){ auto p=w.plain(cf,l); r.first.push_back(observePlain<d>(*p,def,l==0&&!cf.bL)); } auto q=w.dwr(cf); r.second=observeDwr<d>(c,*q,w,def,cf); it=fresh.emplace(cf.str(),r).first; }
                for(int l=0;l<2;++l){ Obs o=observeLevel<d>(c,*a,l,def,l==0&&!cf.bL); compare(c,o,it->second.first[l],(l?", level H":", level L")+nm); for(auto&x:o.v) if (x.first=="vector of a multipatch") c.closeM(x.second,vecOf<int>(x.second.rows()),1e-12,"vector of a multipatch"+nm); }
                compare(c,observeDwr<d>(c,*a,w,def,cf),it->second.second,", against a fresh estimator"+nm); };
            std::vector<int> seq; if (i>=0) seq.push_back(i); if (j>=0) seq.push_back(j); check(seq); if (depth>2&&j>=0) for(int k=0;k<n;++k){ auto s3=seq; s3.push_back(k); check(s3); }
        });
    } }
}
/// conversions between unknowns and geometries on the level whose basis is that of the geometry; constructors
template<int d> void conversions(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::pair<std::string,int>> geos={{"quad",-1},{"twoC",0}}; if (d==2) geos={{"quad",-1},{"two",0}};
    for(auto&ge:geos) for(bool bend:types) for(int l=0;l<2;++l) for(int seed=1;seed<=3;++seed) ck.add("conversions;"+kindName(d,bend)+";geo="+ge.first+";level="+(l?"H":"L")+";vector="+std::to_string(seed),[=](Ctx&c){
        World<d> w(ge.first,"SvKt",bend,ge.second); if (l) { w.g0.degreeElevate(1); w.g1.degreeElevate(1); } Cfg cf; auto a=w.dwr(cf); auto p=w.plain(cf,l); a->assembleL(); a->assembleH(); p->assemble(); int n=p->numDofs(); if (!c.ok(n==(l?a->numDofsH():a->numDofsL()),"number of unknowns")) return; c.state();
        Mx v(n,1); for(int i=0;i<n;++i) v(i,0)=0.01*((i*7*seed)%11-5); MP x,y,d0=w.deformed();
        if (l) a->constructSolutionH(v,x); else a->constructSolutionL(v,x); y=p->constructSolution(v); c.closeM(coefsOf(x),coefsOf(y),1e-12,"solution (argument)"); MP x2=l?a->constructSolutionH(v):a->constructSolutionL(v); c.closeM(coefsOf(x2),coefsOf(y),1e-12,"solution (value)"); Mx dv=coefsOf(l?a->constructDisplacementH(v):a->constructDisplacementL(v)); c.closeM(dv,coefsOf(y)-coefsOf(w.g0),1e-12,"displacement");
        MP m; if (l) a->constructMultiPatchH(v,m); else a->constructMultiPatchL(v,m); c.closeM(coefsOf(m),dv,1e-12,"multipatch"); Mx back=l?Mx(a->constructSolutionVectorH(m)):Mx(a->constructSolutionVectorL(m)); c.closeM(back,v,1e-12,"vector of the multipatch");
        MP q1=d0,q2=d0; if (l) a->updateMultiPatchH(v,q1); else a->updateMultiPatchL(v,q1); p->updateMultiPatch(v,q2); c.closeM(coefsOf(q1),coefsOf(q2),1e-12,"update of a multipatch"); c.op(8);
        gsDofMapper M=l?a->getMapperH():a->getMapperL(); c.ok(M.freeSize()==n,"mapper"); });
}
/// linear problems and linear goals: the estimate is the difference of the goal values of the two levels
template<int d> void exactness(Check&ck)
{
    std::vector<std::string> geos={"quad","curv2","nurbs"};
    for(auto&geo:geos) for(bool bend:{true}) for(std::string m:{"SvKt"}) for(std::string fine:{"p+1","h/2"}) for(std::string load:{"force","neu","point"}) for(int comp=0;comp<3;++comp) for(std::string where:{"domain","side4","point"}) {
        if (geo=="nurbs"&&fine=="p+1") continue; 
        ck.add("exact;"+kindName(d,bend)+";geo="+geo+";mat="+m+";fine="+fine+";load="+load+";comp="+std::to_string(comp)+";where="+where,[=](Ctx&c){
            Conf f{geo,{m},"",load,"left",bend,1,1,geo=="twoC"?0:-1}; Two<d> t(f,fine); t.L->support({0,boundary::west,condition_type::clamped,2,{}}); auto a=t.make(); a->setGoal(GF::Displacement,comp); Where w; for(auto&x:wheres(1)) if (x.name==where) w=x;
            MP z[2],u[2]; double J[2]; for(int l=0;l<2;++l){ c.ok((l?a->assembleH():a->assembleL())==OK_,"assembly"); EM K=dense(l?a->matrixH():a->matrixL()); gsEigen::LDLT<EM> S(K); EV x=S.solve(EV((l?a->primalH():a->primalL()).col(0))); MP um; if (l) a->constructMultiPatchH(x,um); else a->constructMultiPatchL(x,um); u[l]=um; MP def=l?t.H->ori:t.L->ori; for(size_t p=0;p<def.nPatches();++p) def.patch(p).coefs()+=um.patch(p).coefs();
                J[l]= w.name=="domain"?a->computeGoal(def): w.pts.empty()?a->computeGoal(sidesOf(w),def):a->computeGoal(ptsOf(w),def); MP z0=t.L->ori; for(size_t p=0;p<z0.nPatches();++p) z0.patch(p).coefs().setZero(); St st= w.name=="domain"?(l?a->assembleDualH(z0):a->assembleDualL(z0)):w.pts.empty()?(l?a->assembleDualH(sidesOf(w),z0):a->assembleDualL(sidesOf(w),z0)):(l?a->assembleDualH(ptsOf(w),z0):a->assembleDualL(ptsOf(w),z0)); c.ok(st==OK_,"dual assembly");
                EV zz=S.solve(EV((l?a->dualH():a->dualL()).col(0))); c.op(6); MP zm; if (l) a->constructMultiPatchH(zz,zm); else a->constructMultiPatchL(zz,zm); z[l]=zm; }
            c.state(); double e=a->computeError(z[0],z[1],true); c.close(e,J[1]-J[0],std::max(std::abs(J[0]),std::abs(J[1])),1e-3,"estimate equals the difference of the goals for linear problems");
        });
    }
}
/// the helper drives the whole estimation: it must give what its steps, carried out one by one on another estimator, give
template<int d> void helpers(Check&ck)
{
    std::vector<std::string> geos={"quad","curv2","twoC"}; std::vector<std::pair<GF,int>> gl={{GF::Displacement,9},{GF::Displacement,2},{GF::MembraneStrain,0},{GF::MembraneStress,9},{GF::FlexuralMoment,9}}; if (ck.thorough()) for(int g=0;g<NG;++g) for(int k:{0,9}) gl.push_back({GOALS[g].f,k});
    for(auto&geo:geos) for(std::string m:{"SvKt","NHct"}) for(std::string load:{"force","point","neu"}) for(auto&mv:moves(d)) for(auto gg:gl) for(int what=0;what<10;++what) {
        if (mv.name!="gen"&&mv.name!="id"&&!ck.thorough()) continue; if (!ck.thorough()&&load!="force"&&what!=7&&what<8) continue; if (what==0||what==9&&m=="NHct") continue; if (!ck.thorough()&&(m=="NHct"?(mv.name!="gen"||load!="force"):(mv.name!="id"&&load!="force"))) continue; if (!ck.thorough()&&m=="NHct"&&what<7) continue;
        ck.add("helper;"+kindName(d,true)+";geo="+geo+";mat="+m+";load="+load+";def="+mv.name+";goal="+std::to_string((int)gg.first)+";comp="+std::to_string(gg.second)+";what="+std::to_string(what),[=](Ctx&c){
            Conf f{geo,{m},"",load,"mix",true,1,1,geo=="twoC"?0:-1}; Two<d> t(f,"p+1"); t.L->support({0,boundary::west,condition_type::clamped,2,{}}); auto a=t.make(),b=t.make(); a->setGoal(gg.first,gg.second); b->setGoal(gg.first,gg.second); int np=t.L->ori.nPatches();
            BC bnd; Mx pts; bool interior=what&1; if (what&2) { bnd.push_back(patchSide(0,boxSide(3))); bnd.push_back(patchSide(np-1,boxSide(2))); } if (what&4) { pts.resize(2,2); pts<<0.3,0.8,0.6,0.1; } if (what>=8) { interior=true; bnd.clear(); pts.resize(0,0); }
            MP def=displaced(t.L->ori,mv.u); gsVector<real_t> U; if (what==9) { U.resize(a->numDofsL()); for(index_t i=0;i<U.size();++i) U[i]=0.001*((i*7)%11-5); def=a->constructSolutionL(U); } MP u=minus(def,t.L->ori); if (what==9) a->constructMultiPatchL(U,u);
            for(int wl=0;wl<2;++wl) { if (what==9&&wl) continue; gsThinShellDWRHelper<real_t> h(b.get()); c.state();
                if (what==9) h.computeError(U); else if (what==8) h.computeError(def,u,(bool)wl); else h.computeError(def,u,bnd,pts,interior,(bool)wl); c.op();
                MP z[2]; for(int l=0;l<2;++l){ EV r=EV::Zero(l?a->numDofsH():a->numDofsL()); auto put=[&](St s){ c.ok(s==OK_,"dual assembly"); r+=EV((l?a->dualH():a->dualL()).col(0)); };
                    c.ok((l?a->assembleMatrixH(def):a->assembleMatrixL(def))==OK_,"matrix assembly"); EM K=dense(l?a->matrixH():a->matrixL()); if (interior) put(l?a->assembleDualH(u,def):a->assembleDualL(u,def)); if (bnd.size()) put(l?a->assembleDualH(bnd,u,def):a->assembleDualL(bnd,u,def)); if (pts.cols()) put(l?a->assembleDualH(pts,u,def):a->assembleDualL(pts,u,def));
                    EV x=gsEigen::PartialPivLU<EM>(K).solve(r); c.op(5); if (l) a->constructMultiPatchH(x,z[1]); else a->constructMultiPatchL(x,z[0]); }
                double e=a->computeError(z[0],z[1],def,(bool)wl); VD el=a->computeErrorElements(z[0],z[1],def,(bool)wl),sq=a->computeSquaredErrorElements(z[0],z[1],def,(bool)wl); double sc=0,s2=0; for(double x:el) sc+=std::abs(x); for(double x:sq) s2+=std::abs(x);
                c.close(h.error(),e,std::max({sc,std::abs(e),1e-12}),1e-6,"error of the helper"); sameV(c,h.errors(),el,1e-6,"element errors of the helper",sc/el.size()); sameV(c,h.sqErrors(),sq,1e-6,"squared errors of the helper",s2/el.size());
                double e0=h.error(); VD E=h.errors(),Q=h.sqErrors(),n=h.errors(true),an=h.absErrors(),ann=h.absErrors(true),sn=h.sqErrors(true); bool same=n.size()==E.size()&&an.size()==E.size()&&ann.size()==E.size()&&sn.size()==Q.size(); auto eq=[](double x,double y){ return std::abs(x-y)<=1e-12*std::abs(y)||(std::isnan(x)&&std::isnan(y))||x==y; };
                for(size_t i=0;same&&i<E.size();++i) same=eq(n[i],std::abs(E[i])/std::abs(e0))&&eq(an[i],std::abs(E[i]))&&eq(ann[i],std::abs(E[i])/std::abs(e0))&&eq(sn[i],std::abs(Q[i])/(e0*e0)); c.ok(same,"absolute and normalised errors of the helper"); }
        });
    }
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C21"); goals<3>(ck); goals<2>(ck); errors<3>(ck); errors<2>(ck); eigen<3>(ck); eigen<2>(ck); levels<3>(ck); levels<2>(ck); conversions<3>(ck); conversions<2>(ck); exactness<3>(ck); helpers<3>(ck);
    ck.bound("all goals x components (and the full vector) x region (domain, each side, three sides, one and three points) x level x form x geometries x materials x deformations x supports x enrichment (degree, refinement); estimates x loads x supports x linear/nonlinear x plain/squared x total/element-wise; modal and buckling estimates and norms; all call histories of 13 (planar) to 18 (shell, membrane) operations up to depth 2 (thorough 3), both levels against plain assemblers; the helper class against its steps over goals, loads and options");
    ck.assume("goal values are judged on the geometry of the coarse level; principal goals where the principal values are distinct; squared estimates without point and boundary loads; fields of the estimates are arbitrary, not solutions");
    return ck.run();
}
