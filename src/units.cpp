/* Explorer for the choice of units (C25): every length x c, every stress x s, every density x r. Dimensional analysis says how every result changes.
 * The scales are powers of two, so that rounding is the same in all systems of units: anything but the expected factor is a hidden absolute quantity. */
#include "shell.h"
#include <gsKLShell/src/gsMaterialMatrixContainer.h>
using namespace mc;
typedef gsMaterialMatrixBase<real_t> Mat; typedef gsFunctionSet<real_t> FS;
struct Units { double c,s,r; std::string name() const { std::ostringstream o; o<<"length="<<c<<",stress="<<s<<",density="<<r; return o.str(); } };
static std::vector<Units> systems(bool th)
{
    std::vector<double> C={std::ldexp(1,-10),1,std::ldexp(1,10)},S={std::ldexp(1,-30),1,std::ldexp(1,30)}; if (th) { C={std::ldexp(1,-20),std::ldexp(1,-10),std::ldexp(1,-3),1,8,std::ldexp(1,10),std::ldexp(1,17)}; S={std::ldexp(1,-40),std::ldexp(1,-20),std::ldexp(1,-7),1,128,std::ldexp(1,20),std::ldexp(1,40)}; }
    std::vector<Units> r; for(double c:C) for(double s:S) if (c!=1||s!=1) r.push_back({c,s,c<1?4096.0:c>1?1.0/4096:16.0}); return r;
}
/// a function of position in other units
struct SFun : public gsFunction<real_t>
{
    std::shared_ptr<gsFunctionExpr<real_t>> f; double in,out; SFun(gsFunctionExpr<real_t>*x,double i,double o) : f(x), in(i), out(o) {} SFun(const SFun&o) : gsFunction<real_t>(o), f(o.f), in(o.in), out(o.out) {}
    GISMO_CLONE_FUNCTION(SFun)
    short_t domainDim() const { return f->domainDim(); } short_t targetDim() const { return f->targetDim(); } const gsFunction<real_t>&piece(const index_t) const { return *this; }
    void eval_into(const Mx&u,Mx&r) const { f->eval_into(Mx(u*in),r); r*=out; } std::ostream&print(std::ostream&o) const { return o; }
};
struct Pool { std::vector<std::shared_ptr<SFun>> f; SFun*operator()(const std::vector<std::string>&e,int dim,double in,double out){ f.emplace_back(new SFun(new gsFunctionExpr<real_t>(e,dim),in,out)); return f.back().get(); } };
/// is the i-th parameter of a law a stress?
static bool isStress(const LawDef&L,size_t i){ if (i==0) return true; if (i==1) return false; return L.mat==4 && i%2==0; }
template<int d> struct UMat
{
    Pool P; std::vector<FS*> par; std::vector<Mat::uPtr> own; std::vector<FS*> T,G,A,R; Mat*m=nullptr;
    UMat(const MatSpec&S,const MP&mp,const Units&U,int tft=0)
    {
        double in=1/U.c;
        if (S.lam) { lam::Stack<d> st(S.plies); for(size_t i=0;i<S.plies.size();++i){ auto sc=[&](FS*f,double o){ P.f.emplace_back(new SFun(new gsFunctionExpr<real_t>(*dynamic_cast<gsFunctionExpr<real_t>*>(f)),in,o)); return (FS*)P.f.back().get(); }; T.push_back(sc(st.T[i],U.c)); G.push_back(sc(st.G[i],U.s)); A.push_back(sc(st.A[i],1)); R.push_back(sc(st.R[i],U.r)); }
            own.emplace_back(new gsMaterialMatrixComposite<d,real_t>(mp,T,G,A,R)); m=own.back().get(); return; }
        for(size_t i=0;i<S.L.pars.size();++i) par.push_back(P({num(S.L.pars[i])},d,in,isStress(S.L,i)?U.s:1)); gsOptionList o; o.addInt("Material","",S.L.mat); o.addSwitch("Compressibility","",S.L.comp); o.addInt("Implementation","",S.L.imp);
        own.push_back(getMaterialMatrix<d,real_t>(mp,*P({S.t},d,in,U.c),par,*P({S.rho},d,in,U.r),o)); m=own.back().get();
        if (tft==1) own.emplace_back(new gsMaterialMatrixTFT<d,real_t,true>(m)); if (tft==2) own.emplace_back(new gsMaterialMatrixTFT<d,real_t,false>(m)); m=own.back().get();
    }
};
inline MP scaled(const MP&m,double c){ MP r=m; for(size_t p=0;p<r.nPatches();++p) r.patch(p).coefs()*=c; return r; }
template<enum MaterialOutput o> Mx integ(Mat*m,const MP&def,int patch,const Mx&u){ gsMaterialMatrixIntegrate<real_t,o> e(m,&def); Mx r; e.piece(patch).eval_into(u,r); return r; }
/// quantities: value, exponent of length and of stress (of density)
struct Q { std::string name; int c,s,r; Mx v; bool threw; double fl; };
typedef std::vector<Q> Qs;
template<class F> void put(Qs&q,const std::string&n,int c,int s,int r,const F&f){ Q x; x.name=n; x.c=c; x.s=s; x.r=r; x.threw=false; x.fl=0; try { x.v=f(); } catch(const std::exception&) { x.threw=true; } q.push_back(x); }
/// zero values: relative to the stiffness (moduli of about one, dimensions of about one)
static Qs floors(Qs q){ for(auto&x:q) x.fl=1e-3; return q; }
template<int d> Qs observe(Mat*m,const MP&def,const Mx&u,const Mx&z,bool lam,int tft)
{
    Qs q; m->setDeformed(&def);
#define PUT(n,c,s,r,e) put(q,n,c,s,r,[&]()->Mx{ return e; });
#define INT(o,c,s) put(q,#o,c,s,0,[&]()->Mx{ return integ<MaterialOutput::o>(m,def,0,u); });
    INT(VectorN,-1,1) INT(MatrixA,-3,1) if (d==3) { INT(VectorM,0,1) INT(MatrixB,-2,1) INT(MatrixC,-2,1) INT(MatrixD,-1,1) }
    PUT("density",1,0,1,({ Mx r; m->density_into(0,u,r); r; })) PUT("thickness",1,0,0,({ Mx r; m->thickness_into(0,u,r); r; }))
    if (lam) return floors(q);
    PUT("stress",-2,1,0,m->eval3D_stress(0,u,z,MaterialOutput::Generic)) PUT("vector",-2,1,0,m->eval3D_vector(0,u,z,MaterialOutput::Generic)) PUT("tangent",-4,1,0,m->eval3D_matrix(0,u,z,MaterialOutput::Generic))
    PUT("strain",2,0,0,m->eval3D_strain(0,u,z)) PUT("principal stress",0,1,0,m->eval3D_pstress(0,u,z,MaterialOutput::Generic))
    if (tft) { PUT("tension field",0,0,0,m->eval3D_tensionfield(0,u,z,MaterialOutput::TensionField)) PUT("wrinkling angle",0,0,0,({ Mx r=m->eval3D_theta(0,u,z,MaterialOutput::Generic); for(index_t i=0;i<r.size();++i) if (!std::isfinite(r(i))) r(i)=1e3; r; })) PUT("wrinkling strain",2,0,0,({ Mx r=m->eval3D_gamma(0,u,z,MaterialOutput::Generic); for(index_t i=0;i<r.size();++i) if (!std::isfinite(r(i))) r(i)=0; r; })) return floors(q); }
    PUT("principal strain",0,0,0,m->eval3D_pstrain(0,u,z)) PUT("stretch",0,0,0,m->eval3D_pstretch(0,u,z)) PUT("stretch directions",0,0,0,m->eval3D_pstretchDir(0,u,z)) PUT("stress directions",0,0,0,m->eval3D_pstressDir(0,u,z,MaterialOutput::Generic)) PUT("volume ratio",0,0,0,m->eval3D_detF(0,u,z,MaterialOutput::Generic))
    PUT("Cauchy stress",-2,1,0,m->eval3D_CauchyStress(0,u,z,MaterialOutput::Generic)) PUT("principal Cauchy stress",0,1,0,m->eval3D_CauchyPStress(0,u,z,MaterialOutput::Generic))
    PUT("spec2cov",2,0,0,m->eval3D_spec2cov(0,u,z)) PUT("spec2con",-2,0,0,m->eval3D_spec2con(0,u,z)) PUT("cov2cart",2,0,0,m->eval3D_cov2cart(0,u,z)) PUT("con2cart",-2,0,0,m->eval3D_con2cart(0,u,z)) PUT("stress of given C",-2,1,0,({ Mx F=m->eval3D_deformation(0,Mx(u.col(0)),Mx(Mx::Zero(1,1))),C(3,1); C<<F(0,0),F(4,0),F(1,0); gsVector<real_t> x=u.col(0); m->eval3D_vector_C(C,0,x,0.0,MaterialOutput::VectorN); }))
    return floors(q);
}
static void compare(Ctx&c,const Qs&a,const Qs&b,const Units&U,const std::string&at)
{
    for(size_t i=0;i<a.size();++i){ double f=std::pow(U.c,a[i].c)*std::pow(U.s,a[i].s)*std::pow(U.r,a[i].r); std::string n=a[i].name+" "+U.name()+" "+at; c.op();
        if (a[i].threw||b[i].threw) { c.ok(a[i].threw==b[i].threw,n,a[i].threw?"refused in the original units only":"refused in the new units only"); continue; }
        double fl=a[i].fl; if (U.s<1&&a[i].name.substr(0,9)=="principal") fl=std::max(fl,1e-6/U.s); /* eigenvalues: rounding relative to one */ c.closeM(Mx(b[i].v/f),a[i].v,1e-9,n,fl); }
}
template<int d> void materials(Check&ck)
{
    bool th=ck.thorough(); std::vector<MatSpec> M; for(auto&L:laws(false,th?2:1)) M.push_back({L.name,false,L,"0.1+0.03*x-0.02*y","2+0.5*x",{}}); M.push_back(matSpec("LAM"));
    for(auto&S:M) for(int tft=0;tft<(S.lam?1:3);++tft) for(auto&G:undeformed(d)) ck.add("d="+std::to_string(d)+";law="+S.name+(tft==1?"+tension-field":tft==2?"+tension-field (nonlinear)":"")+";geo="+G.first,[=](Ctx&c){
        if (tft==1 && S.L.mat!=0) return; MP ori=mpatch<d>(G.second); auto defs=deformations(d); auto la=lattice(d,th); for(size_t i=0;i<la.size();i+=(th?1:5)) defs.push_back(la[i]);
        for(auto&D:defs) { if (tft&&(D.name=="id"||D.name=="rot")) continue; ref::Poly pd=deform(G.second,D,d); MP def=mpatch<d>(pd); Mx u(2,2),z(d==3?2:1,2); u<<0.3,0.8,0.6,0.15; z.setZero(); if (d==3) z<<-0.5,-0.5,0.3,0.3;
            Units one={1,1,1}; UMat<d> A(S,ori,one,tft); Qs a=observe<d>(A.m,def,u,z,S.lam,tft); c.state();
            for(auto&U:systems(th)) { MP o2=scaled(ori,U.c),d2=scaled(def,U.c); UMat<d> B(S,o2,U,tft); Qs b=observe<d>(B.m,d2,u,z,S.lam,tft); c.state(); compare(c,a,b,U,"def="+D.name); } }
    });
}
// ------------------------------------------------------------------ assemblers
struct AConf { std::string geo; std::vector<std::string> mats; std::string load,bc; bool bending; int cont; std::string weak; std::string key(int d) const { std::string m; for(auto&x:mats) m+=(m.empty()?"":"+")+x; return std::string("assembler;d=")+std::to_string(d)+(d==3?(bending?",shell":",membrane"):",planar")+";geo="+geo+";mat="+m+";load="+load+";bc="+bc+(weak.empty()?"":";weak="+weak)+(cont>=0?";cont="+std::to_string(cont):""); } };
template<int d,bool bd> Qs run(const AConf&f,const Units&U)
{
    MP mp0=geometry<d>(f.geo),mp=scaled(mp0,U.c); gsMultiBasis<real_t> mb(mp); gsBoundaryConditions<real_t> bc; Pool P; double in=1/U.c; int last=mp.nPatches()-1;
    std::vector<std::string> aff={"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"},zero(d,"0"); aff.resize(d);
    if (f.bc=="mix") { bc.addCondition(0,boundary::west,condition_type::dirichlet,P(aff,d,in,0.1*U.c),0,false,-1); bc.addCondition(last,boundary::north,condition_type::dirichlet,P({aff[1]},d,in,0.1*U.c),0,false,1); }
    if (f.bc=="clamp") { for(int k=0;k<d;++k) bc.addCondition(0,boundary::west,condition_type::dirichlet,(FS*)nullptr,0,false,k); bc.addCondition(0,boundary::west,condition_type::clamped,(FS*)nullptr,0,false,d-1); }
    if (f.bc=="corn") { for(int k=0;k<d;++k) bc.addCondition(0,boundary::south,condition_type::dirichlet,(FS*)nullptr,0,false,k); bc.addCornerValue(boundary::northeast,0.07*U.c,last,0,1); }
    if (f.weak.find('D')!=std::string::npos) bc.addCondition(last,boundary::east,condition_type::weak_dirichlet,P(aff,d,in,0.1*U.c)); if (f.weak.find('C')!=std::string::npos) bc.addCondition(last,boundary::east,condition_type::weak_clamped,P(zero,d,in,1));
    Loads L=loadCase<d>(f.load=="all"?"all":f.load,mp.nPatches()); SFun*force=P(L.force.empty()?zero:L.force,L.parametric?2:d,L.parametric?1:in,U.s);
    for(auto&b:L.neu) bc.addCondition(b.patch,b.side,condition_type::neumann,P(b.f,d,in,U.s*U.c));
    gsPointLoads<real_t> pl,pm; for(auto&q:L.pts){ gsVector<real_t> x(q.pt.size()),v(q.val.size()); for(size_t i=0;i<q.pt.size();++i) x[i]=q.pt[i]; for(size_t i=0;i<q.val.size();++i) v[i]=U.s*U.c*U.c*q.val[i]; pl.addLoad(x,v,q.patch,true); }
    { gsVector<real_t> x(2),v(1); x<<0.4,0.7; v<<1.5*U.r*U.c*U.c*U.c; pm.addLoad(x,v,last,true); }
    bc.setGeoMap(mp); std::vector<std::shared_ptr<UMat<d>>> ms; gsMaterialMatrixContainer<real_t> mc(mp.nPatches()); for(auto&n:f.mats){ bool t=n.substr(0,4)=="TFT-"; MatSpec s=matSpec(t?n.substr(4):n); ms.emplace_back(new UMat<d>(s,mp,U,t?(s.L.mat==0?1:2):0)); } for(size_t p=0;p<mp.nPatches();++p) mc.set(p,ms[p%ms.size()]->m);
    gsThinShellAssembler<d,real_t,bd> A(mp,mb,bc,*force,mc); gsOptionList o=A.options(); o.setInt("Continuity",f.cont); o.setReal("WeakDirichlet",100); o.setReal("WeakClamped",100); o.setReal("IfcPenalty",100); A.setOptions(o);
    if (!L.press.empty()) A.setPressure(*P({L.press},d,in,U.s)); if (!L.found.empty()) A.setFoundation(*P(L.found,d,in,U.s/U.c)); if (pl.numLoads()) A.setPointLoads(pl); A.setPointMass(pm);
    if (f.weak.find('0')!=std::string::npos) A.addWeakC0(mp.topology().interfaces()); if (f.weak.find('1')!=std::string::npos) A.addWeakC1(mp.topology().interfaces()); A.initInterfaces();
    auto mv=moveOf(d,"gen"); MP def=scaled(displaced(mp0,[&](const V3&x){ return 0.3*mv.u(x); }),U.c); Qs q; auto need=[](St s){ if (s!=St::Success) throw std::runtime_error("failed"); };
    auto mat=[&]{ return Mx(A.matrix().toDense()); };
    bool tf=f.mats[0].substr(0,4)=="TFT-",lm=f.mats[0]=="LAM"; if (!tf) { put(q,"linear matrix",1,1,0,[&]{ need(A.assemble()); return mat(); }); put(q,"linear vector",2,1,0,[&]{ return Mx(A.rhs()); }); }
    Mx sol; if (!tf) { put(q,"linear solution",1,0,0,[&]{ need(A.assemble()); gsSparseSolver<real_t>::LU lu(A.matrix()); sol=lu.solve(A.rhs()); return sol; }); }
    put(q,"tangent",1,1,0,[&]{ need(A.assembleMatrix(def)); return mat(); }); put(q,"residual",2,1,0,[&]{ need(A.assembleVector(def)); return Mx(A.rhs()); });
    put(q,"mass",3,0,1,[&]{ need(A.assembleMass()); return Mx(A.massMatrix().toDense()); }); put(q,"lumped mass",3,0,1,[&]{ need(A.assembleMass(true)); return Mx(A.rhs()); });
    put(q,"area",2,0,0,[&]{ return Mx(Mx::Constant(1,1,A.getArea(def))); }); put(q,"displacement norm",1,0,0,[&]{ return Mx(Mx::Constant(1,1,A.getDisplacementNorm(def))); });
    put(q,"boundary force",2,1,0,[&]{ patchSide s(0,boundary::west); return Mx(A.boundaryForce(def,s)); });
    if (lm) return q; Mx pts(2,3); pts<<0.2,0.5,0.9,0.3,0.5,0.8; auto fld=[&](stress_type::type t){ gsPiecewiseFunction<real_t> F; A.constructStress(def,F,t); Mx r=F.piece(last).eval(pts); return r; };
    put(q,"membrane stress field",0,1,0,[&]{ return fld(stress_type::membrane); }); put(q,"von Mises field",0,1,0,[&]{ return fld(stress_type::von_mises_membrane); }); put(q,"membrane strain field",0,0,0,[&]{ return fld(stress_type::membrane_strain); }); put(q,"principal stretch field",0,0,0,[&]{ return fld(stress_type::principal_stretch); });
    if (bd&&d==3) { put(q,"flexural stress field",f.mats[last%f.mats.size()].substr(0,3)=="SvK"?-1:0,1,0,[&]{ return fld(stress_type::flexural); }); put(q,"flexural strain field",-1,0,0,[&]{ return fld(stress_type::flexural_strain); }); put(q,"membrane force field",1,1,0,[&]{ return fld(stress_type::membrane_force); }); put(q,"flexural moment field",2,1,0,[&]{ return fld(stress_type::flexural_moment); }); }
    return q;
}
template<int d> Qs dispatch(const AConf&f,const Units&U){ return f.bending?run<d,true>(f,U):run<d,false>(f,U); }
template<> Qs dispatch<2>(const AConf&f,const Units&U){ return run<2,false>(f,U); }
template<int d> void assemblers(Check&ck)
{
    bool th=ck.thorough(); std::vector<AConf> F; std::vector<std::vector<std::string>> mats={{"SvKt"},{"NHi"},{"NHct"},{"OGi"},{"LAM"},{"TFT-SvKt"},{"TFT-NHi"}}; std::vector<std::string> lo={"none","pforce","neu","point","all"}; if (d==3) { lo.push_back("force"); lo.push_back("press"); lo.push_back("found"); }
    for(int b=0;b<(d==3?2:1);++b) { std::string g1=d==3?"curv2":"quad2",g2=d==3?"twoC":"two";
        for(auto&m:mats) for(auto&s:{"mix","clamp","corn"}) { F.push_back({g1,m,"all",s,(bool)b,-1,""}); if (th) F.push_back({"nurbs",m,"all",s,(bool)b,-1,""}); }
        for(auto&l:lo) F.push_back({g1,{"SvKt"},l,"mix",(bool)b,-1,""});
        for(int cont:{-1,0}) for(std::string w:{"","0","01","D","C","DC01"}) { if (cont==0&&w.find('0')!=std::string::npos) continue; F.push_back({g2,{"SvKt","NHct"},d==3?"force":"pforce","mix",(bool)b,cont,w}); if (d==3) F.push_back({"fold",{"SvK"},"press","clamp",(bool)b,cont,w}); } }
    for(auto&f:F) ck.add(f.key(d),[=](Ctx&c){ Units one={1,1,1}; Qs a=dispatch<d>(f,one); for(auto&q:a) q.fl=1e-4; c.state(); for(auto&U:systems(th)) { Qs b=dispatch<d>(f,U); c.state(); compare(c,a,b,U,""); } });
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C25"); ck.assume("scales are powers of two: rounding is the same in all systems of units"); ck.assume("positions of point loads and masses are parametric (the core inverts physical points with an absolute tolerance); interfaces are detected before scaling"); ck.assume("tension fields: no states of zero strain (a rigid motion lies on the boundary of taut, wrinkled and slack, where rounding decides)");
    ck.bound("full product of materials x surfaces x deformations x outputs x systems of units; assembler configurations x operations x systems of units");
    materials<3>(ck); materials<2>(ck); assemblers<3>(ck); assemblers<2>(ck); return ck.run();
}
