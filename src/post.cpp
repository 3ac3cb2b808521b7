/* Explorer for post-processing (C19): fields, principal values, areas, gap measures and reaction forces. */
#include "scene.h"
using namespace mc;

struct Kind { stress_type::type t; const char*name; int rows; bool flex; };
static const Kind KINDS[]={
 {stress_type::displacement,"displacement",0,false},{stress_type::von_mises,"von_mises",2,true},{stress_type::von_mises_membrane,"von_mises_membrane",1,false},{stress_type::von_mises_flexural,"von_mises_flexural",1,true},
 {stress_type::membrane,"membrane",3,false},{stress_type::membrane_force,"membrane_force",3,false},{stress_type::membrane_PK2,"membrane_PK2",3,false},{stress_type::membrane_force_PK2,"membrane_force_PK2",3,false},
 {stress_type::flexural,"flexural",3,true},{stress_type::flexural_PK2,"flexural_PK2",3,true},{stress_type::flexural_moment,"flexural_moment",3,true},{stress_type::flexural_moment_PK2,"flexural_moment_PK2",3,true},
 {stress_type::membrane_strain,"membrane_strain",3,false},{stress_type::flexural_strain,"flexural_strain",3,true},{stress_type::principal_membrane_strain,"principal_membrane_strain",3,false},{stress_type::principal_flexural_strain,"principal_flexural_strain",3,true},
 {stress_type::principal_stretch,"principal_stretch",3,false},{stress_type::principal_stress,"principal_stress",2,false},{stress_type::principal_stress_membrane,"principal_stress_membrane",2,false},{stress_type::principal_stress_flexural,"principal_stress_flexural",2,true},
 {stress_type::principal_stretch_dir1,"principal_stretch_dir1",3,false},{stress_type::principal_stretch_dir2,"principal_stretch_dir2",3,false},{stress_type::principal_stretch_dir3,"principal_stretch_dir3",3,false},
 {stress_type::principal_stress_dir1,"principal_stress_dir1",3,false},{stress_type::principal_stress_dir2,"principal_stress_dir2",3,false},{stress_type::principal_stress_dir3,"principal_stress_dir3",3,false},{stress_type::tension_field,"tension_field",1,false}};
static const int NK=sizeof(KINDS)/sizeof(KINDS[0]);

// ------------------------------------------------------------------ reference
struct Frame { V3 e1,e2; Frame(const Geo&g){ e1=(1/ref::norm(g.a1))*g.a1; V3 n=ref::cross(g.a1,g.a2); n=(1/ref::norm(n))*n; e2=ref::cross(n,e1); } };
/// Cartesian components of a tensor with contravariant components s (11,22,12)
inline Mx fromCon(const double s[3],const Geo&g){ Frame f(g); double a[2]={ref::dot(f.e1,g.a1),ref::dot(f.e2,g.a1)},b[2]={ref::dot(f.e1,g.a2),ref::dot(f.e2,g.a2)}; auto c=[&](int i,int j){ return s[0]*a[i]*a[j]+s[1]*b[i]*b[j]+s[2]*(a[i]*b[j]+b[i]*a[j]); }; Mx r(3,1); r<<c(0,0),c(1,1),c(0,1); return r; }
inline Mx fromCov(const double s[3],const Geo&g){ double D=g.aa[0]*g.aa[1]-g.aa[2]*g.aa[2]; V3 h1=(1/D)*(g.aa[1]*g.a1-g.aa[2]*g.a2),h2=(1/D)*(g.aa[0]*g.a2-g.aa[2]*g.a1); Frame f(g); double a[2]={ref::dot(f.e1,h1),ref::dot(f.e2,h1)},b[2]={ref::dot(f.e1,h2),ref::dot(f.e2,h2)}; auto c=[&](int i,int j){ return s[0]*a[i]*a[j]+s[1]*b[i]*b[j]+s[2]*(a[i]*b[j]+b[i]*a[j]); }; Mx r(3,1); r<<c(0,0),c(1,1),c(0,1); return r; }
inline void eigS(const Mx&t,double e[2]){ double m=0.5*(t(0,0)+t(1,0)),q=std::sqrt(0.25*(t(0,0)-t(1,0))*(t(0,0)-t(1,0))+t(2,0)*t(2,0)); e[0]=m-q; e[1]=m+q; }
inline double mises(const Mx&s){ return std::sqrt(s(0,0)*s(0,0)+s(1,0)*s(1,0)-s(0,0)*s(1,0)+3*s(2,0)*s(2,0)); }
/// the material evaluators of a fresh material of the patch (verified on their own by C01-C10)
template<int d,MaterialOutput out> Mx fresh(const MatSpec&m,const MP&ori,const MP&def,int p,const Mx&u,double z){ MatObj<d> M(m,ori); Mx zz(1,1); zz<<z; gsMaterialMatrixEval<real_t,out> e(M.get(),&ori,&def,zz); Mx r; e.piece(p).eval_into(u,r); return r; }
template<int d,MaterialOutput out> Mx freshI(const MatSpec&m,const MP&ori,const MP&def,int p,const Mx&u){ MatObj<d> M(m,ori); gsMaterialMatrixIntegrate<real_t,out> e(M.get(),&ori,&def); Mx r; e.piece(p).eval_into(u,r); return r; }

struct At { Geo o,g; };
template<int d> At at(const MP&ori,const MP&def,int p,double u,double v){ BAt b=basisAt(ori.patch(p).basis(),u,v); return {geoAt(b,ori.patch(p).coefs()),geoAt(b,def.patch(p).coefs())}; }
/// expected value of a field (and whether it is determined up to sign or order)
template<int d> Mx expected(const Kind&k,const MatSpec&m,const MP&ori,const MP&def,int p,const Mx&u,double&scale,int&mode)
{
    At a=at<d>(ori,def,p,u(0,0),u(1,0)); MatObj<d> M(m,ori); mode=0; Mx r; typedef stress_type T; const Geo&o=a.o,&g=a.g; bool lin=m.L.mat==0; double E=m.L.pars[0],t=M.thick(o);
    ref::Resp R=ref::respond(m.L.r(),o.aa,g.aa); double J=lin||m.L.comp?R.J:1.0; double K[3]; for(int i=0;i<3;++i) K[i]=o.bb[i]-g.bb[i];
    auto col=[&](const Mx&x){ double s[3]={x(0,0),x(1,0),x(2,0)}; return std::array<double,3>{{s[0],s[1],s[2]}}; };
    auto Sm=[&]{ return fromCon(R.S,o); }; auto Sf=[&]{ if (lin) { double s[3]={0,0,0},kk[3]={K[0],K[1],2*K[2]}; for(int i=0;i<3;++i)for(int j=0;j<3;++j) s[i]+=R.C[i][j]*kk[j]; return fromCon(s,o); } auto s=col(fresh<d,MaterialOutput::StressM>(m,ori,def,p,u,0)); return fromCon(s.data(),o); };
    scale=0.1*E;
    switch(k.t) {
    case T::displacement: r.resize(d,1); for(int i=0;i<d;++i) r(i,0)=g.x[i]-o.x[i]; scale=1; break;
    case T::membrane: { double s[3]; for(int i=0;i<3;++i) s[i]=R.S[i]/J; r=fromCon(s,g); break; }
    case T::membrane_PK2: r=Sm(); break;
    case T::flexural: { auto s=col(fresh<d,MaterialOutput::CauchyStressM>(m,ori,def,p,u,0)); r=fromCon(s.data(),g); break; }
    case T::flexural_PK2: r=Sf(); break;
    case T::membrane_force: { auto s=col(freshI<d,MaterialOutput::CauchyVectorN>(m,ori,def,p,u)); r=fromCon(s.data(),g); scale*=t; break; }
    case T::flexural_moment: { auto s=col(freshI<d,MaterialOutput::CauchyVectorM>(m,ori,def,p,u)); r=fromCon(s.data(),g); scale*=t*t; break; }
    case T::membrane_force_PK2: r=fromCon(M.mom(o,g).N,o); scale*=t; break;
    case T::flexural_moment_PK2: r=fromCon(M.mom(o,g).M,o); scale*=t*t*0.1; break;
    case T::von_mises: r.resize(2,1); r<<mises(Sm()+Sf()),mises(Sm()-Sf()); break;
    case T::von_mises_membrane: r.resize(1,1); r<<mises(Sm()); break;
    case T::von_mises_flexural: r.resize(1,1); r<<mises(Sf()); break;
    case T::membrane_strain: { double e[3]; for(int i=0;i<3;++i) e[i]=0.5*(g.aa[i]-o.aa[i]); r=fromCov(e,o); scale=0.1; break; }
    case T::flexural_strain: r=fromCov(K,o); r(2,0)*=2; scale=0.1; break; // engineering shear
    case T::principal_membrane_strain: { double e[3],q[2]; for(int i=0;i<3;++i) e[i]=0.5*(g.aa[i]-o.aa[i]); eigS(fromCov(e,o),q); r.resize(3,1); r<<q[0],q[1],0; scale=0.1; mode=2; break; }
    case T::principal_flexural_strain: { double q[2]; eigS(fromCov(K,o),q); r.resize(3,1); r<<q[0],q[1],0; scale=0.1; mode=2; break; }
    case T::principal_stretch: { double q[2]; ref::eig2(o.aa,g.aa,q); r.resize(3,1); double l3=lin?fresh<d,MaterialOutput::Stretch>(m,ori,def,p,u,0)(2,0):std::sqrt(R.C33); r<<std::sqrt(q[0]),std::sqrt(q[1]),l3; scale=1; break; }
    case T::principal_stress: { double q[2]; eigS(Sm(),q); r.resize(2,1); r<<q[0],q[1]; break; }
    case T::principal_stress_membrane: { double s[3],q[2]; for(int i=0;i<3;++i) s[i]=R.S[i]/J; eigS(fromCon(s,g),q); r.resize(2,1); r<<q[0],q[1]; break; }
    case T::principal_stress_flexural: r=fresh<d,MaterialOutput::PCauchyStressM>(m,ori,def,p,u,0); break;
    case T::principal_stretch_dir1: case T::principal_stretch_dir2: case T::principal_stretch_dir3: { Mx q=fresh<d,MaterialOutput::StretchDir>(m,ori,def,p,u,0); q.resize(3,3); r=q.col(k.t-81); mode=1; scale=1; break; }
    case T::principal_stress_dir1: case T::principal_stress_dir2: case T::principal_stress_dir3: { Mx q=fresh<d,MaterialOutput::PStressDir>(m,ori,def,p,u,0); q.resize(3,3); r=q.col(k.t-91); mode=1; scale=1; break; }
    case T::tension_field: r=fresh<d,MaterialOutput::TensionField>(m,ori,def,p,u,0); scale=1; break;
    default: throw std::runtime_error("kind");
    }
    return r;
}
inline Mx sorted(const Mx&x){ std::vector<double> v; for(index_t i=0;i<x.rows();++i) v.push_back(x(i,0)); std::sort(v.begin(),v.end()); Mx r(x.rows(),1); for(index_t i=0;i<x.rows();++i) r(i,0)=v[i]; return r; }
static const double PT[][2]={{0.5,0.5},{0.21,0.68},{0.87,0.13},{0,0},{1,0.4},{0.3,1}};
template<int d> void compare(Ctx&c,const Kind&k,const Mx&got,const Mx&ex,double scale,int mode,double tol,const std::string&w)
{
    if (!c.ok(got.rows()==ex.rows()&&got.cols()==1,"size of "+w,std::to_string(got.rows())+" rows, expected "+std::to_string(ex.rows()))) return;
    if (mode==1) { double s=(got.col(0).dot(ex.col(0))<0)?-1:1; c.closeM(Mx(s*got),ex,tol,w,scale); }
    else if (mode==2) c.closeM(sorted(got),sorted(ex),tol,w,scale);
    else c.closeM(got,ex,tol,w,scale);
}
/// states in which principal directions or the classification are not unique are not compared
template<int d> bool degenerate(const Kind&k,const MatSpec&m,const MP&ori,const MP&def,int p,const Mx&u)
{
    if (k.t<81) return false; At a=at<d>(ori,def,p,u(0,0),u(1,0)); double q[2]; ref::eig2(a.o.aa,a.g.aa,q); if (k.t<99&&std::abs(q[1]-q[0])<1e-6) return true; return k.t==99&&(std::abs(q[0]-1)<1e-6||std::abs(q[1]-1)<1e-6);
}
template<int d> std::unique_ptr<Scene<d>> plain(const std::string&geo,const std::vector<std::string>&mats,bool bend,int cont=-1,double quA=1,int quB=1){ Conf f{geo,mats,"","none","free",bend,quA,quB,cont}; return scene<d>(f); }
inline std::string join(const std::vector<std::string>&v){ std::string s; for(auto&x:v) s+=(s.empty()?"":"+")+x; return s; }

template<int d> struct Own { static void f(Asm*a,bool bend,const MP&O,const MP&D,gsPiecewiseFunction<real_t>&r,stress_type::type t){ if (bend) dynamic_cast<gsThinShellAssembler<d,real_t,true>*>(a)->constructStress(O,D,r,t); else dynamic_cast<gsThinShellAssembler<d,real_t,false>*>(a)->constructStress(O,D,r,t); } };
template<> struct Own<2> { static void f(Asm*a,bool,const MP&O,const MP&D,gsPiecewiseFunction<real_t>&r,stress_type::type t){ dynamic_cast<gsThinShellAssembler<2,real_t,false>*>(a)->constructStress(O,D,r,t); } };
template<int d> void fields(Check&ck)
{
    bool th=ck.thorough(); std::vector<std::vector<std::string>> mats={{"SvKt","NHi","MRc"},{"NHct","OGi","SvK"},{"SvKt"},{"MRc"}}; std::vector<bool> types={true,false}; if (d==2) types={false};
    std::vector<std::string> geos=geoNames<d>();
    for(auto&geo:geos) for(auto&ms:mats) for(auto&mv:moves(d)) for(bool bend:types) for(int own=0;own<2;++own) {
        ck.add("fields;d="+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+geo+";mat="+join(ms)+";def="+mv.name+(own?";own original":""),[=](Ctx&c){
            auto s=plain<d>(geo,ms,bend); auto a=s->make(); MP def=displaced(s->ori,mv.u),ori2=displaced(s->ori,[](const V3&x){ return V3{{0.05*x[1]-0.1*x[0]*x[1],0.08*x[0],d==3?0.1*x[0]*x[0]+0.05*x[1]:0}}; }); const MP&O=own?ori2:s->ori;
            for(int ki=0;ki<NK;++ki){ const Kind&k=KINDS[ki]; if (d==2&&k.flex) continue; gsPiecewiseFunction<real_t> f; if (!own) a->constructStress(def,f,k.t); else Own<d>::f(a.get(),bend,O,def,f,k.t); c.op();
                c.ok((size_t)f.nPieces()==O.nPatches(),"one piece per patch");
                for(size_t p=0;p<O.nPatches();++p){ int n=th?6:4; Mx U(2,n); for(int i=0;i<n;++i) U.col(i)<<PT[(i+p)%6][0],PT[(i+p)%6][1]; Mx R; f.piece(p).eval_into(U,R); c.state(n); c.op(n); if (!c.ok(R.cols()==n,"one column per point")) continue;
                    for(int i=0;i<n;++i){ Mx u=U.col(i); if (degenerate<d>(k,s->mats[p]->s,O,def,p,u)) continue; double sc; int mode; Mx e=expected<d>(k,s->mats[p]->s,O,def,p,u,sc,mode); compare<d>(c,k,Mx(R.col(i)),e,sc,mode,1e-7,std::string(k.name)); } } }
        });
    }
}

/// two fields of different deformed states, evaluated in every order
template<int d> void alternate(Check&ck)
{
    for(int i=0;i<NK;++i) for(int j=0;j<NK;++j) { if (d==2&&(KINDS[i].flex||KINDS[j].flex)) continue;
        ck.add("alternating;d="+std::to_string(d)+";first="+KINDS[i].name+";second="+KINDS[j].name,[=](Ctx&c){
            auto s=plain<d>(d==3?"twoR":"two",{"SvKt","NHi"},true); auto a=s->make(); MP D[2]={displaced(s->ori,moveOf(d,"gen").u),displaced(s->ori,moveOf(d,"stretch").u)}; const Kind*K[2]={&KINDS[i],&KINDS[j]}; gsPiecewiseFunction<real_t> f[2]; for(int q=0;q<2;++q) a->constructStress(D[q],f[q],K[q]->t);
            auto look=[&](int q,int p,const std::string&w){ Mx u(2,1),R; u<<0.21,0.68; if (degenerate<d>(*K[q],s->mats[p]->s,s->ori,D[q],p,u)) return; f[q].piece(p).eval_into(u,R); c.op(); double sc; int mode; Mx e=expected<d>(*K[q],s->mats[p]->s,s->ori,D[q],p,u,sc,mode); compare<d>(c,*K[q],R,e,sc,mode,1e-7,w+K[q]->name); };
            for(int p=0;p<2;++p) for(int q=0;q<2;++q){ c.state(3); look(0,p,"before: "); look(1,q,"between: "); look(0,1-p,"after: "); }
            a->assemble(D[1]); c.op(); look(0,0,"after an assembly: "); a->getArea(D[1]); look(1,1,"after an area: ");
        });
    }
}
// ------------------------------------------------------------------ scalar measures
struct Ifc { int p,q; boxSide s1,s2; bool rev; };
template<int d> std::vector<Ifc> interfacesOf(const MP&ori)
{
    std::vector<Ifc> r; for(auto&i:ori.interfaces()){ Ifc f; f.p=i.first().patch; f.q=i.second().patch; f.s1=i.first().side(); f.s2=i.second().side(); auto pt=[&](int p,boxSide s,double t){ double u[2]; u[s.direction()]=s.parameter()?1:0; u[1-s.direction()]=t; BAt b=basisAt(ori.patch(p).basis(),u[0],u[1]); return geoAt(b,ori.patch(p).coefs()).x; }; f.rev=ref::norm(pt(f.p,f.s1,0)-pt(f.q,f.s2,0))>1e-8; r.push_back(f); } return r;
}
struct Gaps { double c0=0,g1=0,nor=0,gauss=0,mean=0; };
template<int d> Gaps gaps(Scene<d>&s,const MP&def,int only)
{
    Gaps g; int k=0; for(auto&f:interfacesOf<d>(s.ori)) { if (only>=0&&k++!=only) continue; auto A=[&](int p,boxSide sd,double t){ double u[2]; u[sd.direction()]=sd.parameter()?1:0; u[1-sd.direction()]=t; BAt b=basisAt(s.mb.basis(p),u[0],u[1]); return geoAt(b,def.patch(p).coefs()); };
        for(auto&q:quad2(s.mb.basis(f.p),s.quA,s.quB,f.s1.direction(),f.s1.parameter()?1.:0.)){ double t=f.s1.direction()==0?q.v:q.u; Geo a=A(f.p,f.s1,t),b=A(f.q,f.s2,f.rev?1-t:t); V3 D=a.x-b.x,N=a.n-b.n; g.c0+=q.w*ref::dot(D,D); g.g1+=q.w*ref::dot(N,N); g.nor=std::max(g.nor,ref::norm(N));
            auto cur=[](const Geo&x,double&K,double&H){ double dA=x.aa[0]*x.aa[1]-x.aa[2]*x.aa[2]; K=(x.bb[0]*x.bb[1]-x.bb[2]*x.bb[2])/dA; H=(x.aa[1]*x.bb[0]+x.aa[0]*x.bb[1]-2*x.aa[2]*x.bb[2])/dA; }; double K1,H1,K2,H2; cur(a,K1,H1); cur(b,K2,H2); g.gauss=std::max(g.gauss,std::abs(K1-K2)); g.mean=std::max(g.mean,std::abs(H1-H2)); } }
    g.c0=std::sqrt(g.c0); g.g1=std::sqrt(g.g1); return g;
}
template<int d> void scalars(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false};
    std::vector<std::pair<double,int>> qs={{1,1}}; std::vector<std::string> geos=geoNames<d>();
    for(auto&geo:geos) for(auto&mv:moves(d)) for(bool bend:types) for(auto&qu:qs) for(int gap=0;gap<3;++gap)
        ck.add("measures;d="+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+geo+";def="+mv.name+";qu="+num(qu.first)+"p+"+std::to_string(qu.second)+";gap="+std::to_string(gap),[=](Ctx&c){
            auto s=plain<d>(geo,{"SvK"},bend,-1,qu.first,qu.second); auto a=s->make(); MP def=displaced(s->ori,mv.u); int n=def.nPatches(); if (gap&&n==1) return;
            // gap 1: patches shifted rigidly, gap 2: patches deformed differently
            if (gap) for(int p=0;p<n;++p){ auto&co=def.patch(p).coefs(); for(index_t i=0;i<co.rows();++i){ if (gap==1) { co(i,0)+=0.03*p; co(i,d-1)-=0.07*p; } else for(int k=0;k<d;++k) co(i,k)+=0.05*p*std::sin(2*co(i,0)+3*co(i,1)+k); } }
            c.state(); double ar=0; for(int p=0;p<n;++p) for(auto&q:quad2(s->mb.basis(p),qu.first,qu.second)){ BAt b=basisAt(s->mb.basis(p),q.u,q.v); ar+=q.w*geoAt(b,def.patch(p).coefs()).area(); }
            c.close(a->getArea(def),ar,ar,1e-10,"area"); c.op();
            if (n>1) { auto all=s->ori.interfaces(); for(int k=-1;k<(int)all.size();++k){ gsBoxTopology::ifContainer I; if (k>=0) I.push_back(all[k]); Gaps g=gaps<d>(*s,def,k); std::string w=k<0?"":" of one interface"; c.op(2);
                c.close(k<0?a->interfaceErrorC0(def):a->interfaceErrorC0(def,I),g.c0,std::max(g.c0,1.),1e-9,"gap"+w);
                if (d==3) { c.op(4); c.close(k<0?a->interfaceErrorG1(def):a->interfaceErrorG1(def,I),g.g1,std::max(g.g1,1.),1e-7,"angle of the normals"+w); c.close(k<0?a->interfaceErrorNormal(def):a->interfaceErrorNormal(def,I),g.nor,std::max(g.nor,1.),1e-7,"largest difference of the normals"+w);
                    c.close(k<0?a->interfaceErrorGaussCurvature(def):a->interfaceErrorGaussCurvature(def,I),g.gauss,std::max(g.gauss,1.),1e-8,"Gaussian curvature jump"+w); c.close(k<0?a->interfaceErrorMeanCurvature(def):a->interfaceErrorMeanCurvature(def,I),g.mean,std::max(g.mean,1.),1e-8,"mean curvature jump"+w); } } }
            if (!gap && (mv.name=="id")) { // rigid motions: root mean square of the displacement
                for(int r=0;r<(d==3?3:2);++r){ M3 R=M3::id(); if (r==1) R=ref::rot({{0,0,1}},0.8); if (r==2) R=ref::rot({{1,-0.5,0.3}},1.4); V3 t={{0.3,-0.2,d==3?0.5:0}}; MP rd=displaced(s->ori,rigid(R,t).u); double q2=0,A=0; for(int p=0;p<n;++p) for(auto&q:quad2(s->mb.basis(p),qu.first,qu.second)){ BAt b=basisAt(s->mb.basis(p),q.u,q.v); Geo o=geoAt(b,s->ori.patch(p).coefs()),g=geoAt(b,rd.patch(p).coefs()); A+=q.w*o.area(); q2+=q.w*o.area()*ref::dot(g.x-o.x,g.x-o.x); } c.op();
                    c.close(a->getDisplacementNorm(rd),std::sqrt(q2/A),1,1e-10,"displacement norm of a rigid motion"); } }
        });
}
/// reaction forces: minus the internal forces of all control points on the given sides, each counted once
template<int d> void reactions(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::vector<std::string>> mats={{"SvKt"},{"NHi"},{"SvK","MRc","NHct"},{"LAM"}}; std::vector<std::pair<double,int>> qs={{1,1},{2,1},{1,3}};
    for(auto&geo:geoNames<d>()) for(auto&ms:mats) for(auto&mv:moves(d)) for(bool bend:types) for(auto&qu:qs) for(int cont:{-1,0}) for(std::string bc:{"free","left","mix"}) {
        if (cont==0&&(geo=="fold")) continue; if (!ck.thorough()&&qu.first+qu.second>2&&bc!="left") continue;
        ck.add("reactions;d="+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+geo+";mat="+join(ms)+";def="+mv.name+";qu="+num(qu.first)+"p+"+std::to_string(qu.second)+";cont="+std::to_string(cont)+";bc="+bc,[=](Ctx&c){
            Conf f{geo,ms,"","none",bc,bend,qu.first,qu.second,cont}; auto s=scene<d>(f); auto a=s->make(); auto s0=plain<d>(geo,ms,bend,cont,qu.first,qu.second); Numb nb(s0->make()->getMapper()); MP def=displaced(s->ori,mv.u); Sys R=reference<d>(*s0,def,nb,INT); int n=def.nPatches(); c.state();
            std::vector<std::vector<patchSide>> sets; for(int p=0;p<n;++p) for(int k=1;k<=4;++k) sets.push_back({patchSide(p,boxSide(k))}); std::vector<patchSide> all; for(auto&x:sets) all.push_back(x[0]); sets.push_back({all[0],all[2]}); sets.push_back({all[3],all[1],all[0]}); sets.push_back(all); if (n>1) { sets.push_back({all[2],all[6]}); sets.push_back({all[1],all[4]}); sets.push_back({all[0],all[1],all[2],all[3],all[4],all[5]}); } sets.push_back({all[0],all[0]});
            double sc=0.01*R.R.cwiseAbs().sum()+1e-12;
            for(auto&S:sets){ Mx F; if (S.size()==1) F=a->boundaryForce(def,S[0]); else F=a->boundaryForce(def,S); c.op(); std::set<int> ids[d]; for(auto&x:S){ gsMatrix<index_t> ix=s->mb.basis(x.patch).boundary(x.side()); for(index_t i=0;i<ix.rows();++i)for(int k=0;k<d;++k) ids[k].insert(nb.id(ix(i,0),x.patch,k)); } Mx E(d,1); E.setZero(); for(int k=0;k<d;++k) for(int i:ids[k]) E(k,0)+=R.R[i]; c.closeM(F,E,1e-7,"reaction force",sc+1e-9); }
        });
    }
}
/// principal values at points and heights
template<int d> void principal(Check&ck)
{
    for(auto&geo:geoNames<d>()) for(auto m:{"SvKt","SvK","NHi","NHct","MRc","OGi"}) for(auto&mv:moves(d)) for(int b=0;b<(d==3?2:1);++b) { std::string mm=m; ck.add("principal;d="+std::to_string(d)+(d==3?(b?",membrane":",shell"):",planar")+";geo="+geo+";mat="+mm+";def="+mv.name,[=](Ctx&c){
        auto s=plain<d>(geo,{mm},!b); auto a=s->make(); MP def=displaced(s->ori,mv.u); MatSpec ms=matSpec(mm); std::vector<double> zs={0}; if (d==3) zs={0,-0.5,0.31};
        Mx U(2,6); for(int i=0;i<6;++i) U.col(i)<<PT[i][0],PT[i][1];
        for(double z:zs){ Mx L=a->computePrincipalStretches(U,def,z),S=a->computePrincipalStresses(U,def,z); c.state(6); c.op(2); if (!c.ok(L.cols()==6&&S.cols()==6,"one column per point")) return;
            for(int i=0;i<6;++i){ At q=at<d>(s->ori,def,0,U(0,i),U(1,i)); double t=s->mats[0]->thick(q.o),G[3],g[3],e[2]; q.o.metric(z*t,G); q.g.metric(z*t,g); ref::eig2(G,g,e); Mx l(2,1); l<<std::sqrt(e[0]),std::sqrt(e[1]); c.closeM(Mx(L.topRows(2).col(i)),l,1e-8,"principal stretches");
                if (ms.L.mat!=0) { ref::Resp R=ref::respond(ms.L.r(),G,g); c.close(L(2,i),std::sqrt(R.C33),1,1e-6,"thickness stretch"); Geo oz=q.o; V3 g1,g2; q.o.basis(z*t,g1,g2); oz.a1=g1; oz.a2=g2; oz.aa[0]=G[0]; oz.aa[1]=G[1]; oz.aa[2]=G[2]; double p[2]; eigS(fromCon(R.S,oz),p); Mx P(2,1); P<<p[0],p[1]; c.closeM(Mx(S.col(i)),P,1e-6,"principal stresses",0.1*ms.L.pars[0]); }
                else { Mx u=U.col(i); c.closeM(Mx(S.col(i)),fresh<d,MaterialOutput::PStress>(ms,s->ori,def,0,u,z),1e-9,"principal stresses",0.1*ms.L.pars[0]); } } }
    }); }
}
/// elastic energy, documented as 0.5*u'*F_int
template<int d> void energy(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false};
    for(auto&geo:geoNames<d>()) for(auto m:{"SvK","NHct"}) for(auto&mv:moves(d)) for(bool bend:types) { std::string mm=m; ck.add("energy;d="+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+geo+";mat="+mm+";def="+mv.name,[=](Ctx&c){
        auto s=plain<d>(geo,{mm},bend); auto a=s->make(); Numb nb(a->getMapper()); MP def=displaced(s->ori,mv.u); Sys R=reference<d>(*s,def,nb,INT); double e=0; for(int p=0;p<(int)def.nPatches();++p) for(index_t i=0;i<s->mb.basis(p).size();++i) for(int k=0;k<d;++k) e-=0.5*R.R[nb.id(i,p,k)]*(def.patch(p).coefs()(i,k)-s->ori.patch(p).coefs()(i,k));
        c.state(); c.op(); if (mv.name=="id") { double v=a->getElasticEnergy(def); c.close(v,0,1,1e-12,"no elastic energy at rest"); }
        else { double v=std::nan(""); try { v=a->getElasticEnergy(def); } catch(...) {} c.close(v,e,std::abs(e),1e-7,"elastic energy is half the work of the internal forces"); }
    }); }
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C19"); fields<3>(ck); fields<2>(ck); alternate<3>(ck); alternate<2>(ck); scalars<3>(ck); scalars<2>(ck); reactions<3>(ck); reactions<2>(ck); principal<3>(ck); principal<2>(ck); energy<3>(ck); energy<2>(ck);
    ck.bound("fields: all 27 kinds x patches x 4 (6) points x geometries x per-patch materials x deformations x element kinds x original geometry (own or given); all ordered pairs of field kinds of two deformed states evaluated alternately; areas, displacement norms, five interface measures x gaps x interfaces x quadrature; reaction forces x sets of sides x supports x continuity x quadrature; principal values x heights");
    ck.assume("flexural Cauchy/nonlinear stresses, Cauchy forces, principal directions and the wrinkling state are compared with the evaluators of a fresh material of that patch, which C01-C10 decide on their own");
    return ck.run();
}
