/* Explorer for laminates (C08): all stacks over a ply alphabet against lamination theory written with index sums. */
#include "lam.h"
#include <array>
#include <memory>
using namespace mc;
using ref::V3; using ref::operator+; using ref::operator-; using ref::operator*;

using namespace lam;
static Mx flat9(const Mx&C){ Mx r(9,1); for(int i=0;i<9;++i) r(i,0)=C(i%3,i/3); return r; }
template<enum MaterialOutput o> Mx integ(gsMaterialMatrixBase<real_t>*m,const gsMultiPatch<real_t>&def,const Mx&u,int patch)
{ gsMaterialMatrixIntegrate<real_t,o> e(m,&def); Mx r; e.piece(patch).eval_into(u,r); return r; }
static const double PTS[3][2]={{0.3,0.6},{0.85,0.15},{0,1}};

template<int d> void check(Ctx&c,const std::vector<Ply>&s,const std::string&sn,const gsMultiPatch<real_t>&ori,const gsMultiPatch<real_t>&def,const std::vector<ref::Poly>&po,const std::vector<ref::Poly>&pd,const std::string&dn,bool first,bool integrator)
{
    Stack<d> S(s); gsMaterialMatrixComposite<d,real_t> m(ori,S.T,S.G,S.A,S.R), m0(ori,S.T,S.G,S.A);
    Mx u(2,3); for(int i=0;i<3;++i){ u(0,i)=PTS[i][0]; u(1,i)=PTS[i][1]; } Mx z=Mx::Zero(1,3);
    for (size_t patch=0;patch<po.size();++patch) {
        std::vector<Lam> L; std::vector<Mx> E,K; Mx A(9,3),B(9,3),D(9,3),N(3,3),M(3,3),rh(1,3),tt((int)s.size(),3);
        for(int i=0;i<3;++i){ ref::Geo g(po[patch],u(0,i),u(1,i),d==2),h(pd[patch],u(0,i),u(1,i),d==2); Lam l=model(s,g); A.col(i)=flat9(l.A); B.col(i)=flat9(l.B); D.col(i)=flat9(l.D); rh(0,i)=l.rho;
            Mx e(3,1),k(3,1); e<<0.5*(h.aa[0]-g.aa[0]),0.5*(h.aa[1]-g.aa[1]),h.aa[2]-g.aa[2]; k<<g.bb[0]-h.bb[0],g.bb[1]-h.bb[1],2*(g.bb[2]-h.bb[2]);
            N.col(i)=l.A*e+l.B*k; M.col(i)=l.B*e+l.D*k; for(size_t q=0;q<s.size();++q) tt(q,i)=varT(s[q],g.x); }
        double sA=A.cwiseAbs().maxCoeff(), T=0.2; std::string at="stack="+sn+",def="+dn+",patch="+std::to_string(patch); c.state(3);
        if (first) { // stiffness without any deformed geometry, thickness and density
            c.closeM(m0.eval3D_matrix(patch,u,z,MaterialOutput::MatrixA),A,1e-10,"membrane stiffness "+at); c.op();
            Mx r; m.density_into(patch,u,r); c.closeM(r,rh,1e-10,"mass per area "+at); m.thickness_into(patch,u,r); c.closeM(r,tt,1e-10,"ply thicknesses "+at); c.op(2);
        }
        m.setDeformed(&def); m0.setDeformed(&def); c.op(8);
        c.closeM(m.eval3D_matrix(patch,u,z,MaterialOutput::MatrixA),A,1e-10,"membrane stiffness, deformed "+at);
        c.closeM(m.eval3D_vector(patch,u,z,MaterialOutput::VectorN),N,1e-10,"membrane forces "+at,sA*1e-3);
        c.closeM(m.eval3D_matrix(patch,u,z,MaterialOutput::MatrixB),B,1e-10,"coupling stiffness "+at,sA*T*1e-2);
        c.closeM(m.eval3D_matrix(patch,u,z,MaterialOutput::MatrixC),B,1e-10,"second coupling stiffness "+at,sA*T*1e-2);
        c.closeM(m.eval3D_matrix(patch,u,z,MaterialOutput::MatrixD),D,1e-10,"bending stiffness "+at,sA*T*T*1e-3);
        if (d==3) c.closeM(m0.eval3D_vector(patch,u,z,MaterialOutput::VectorM),M,1e-10,"moments "+at,sA*T*T*1e-3);
        if (integrator) { gsMaterialMatrixBase<real_t>*mm=&m; c.op(6);
            c.closeM(integ<MaterialOutput::MatrixA>(mm,def,u,patch),A,1e-10,"integrated A "+at); c.closeM(integ<MaterialOutput::MatrixB>(mm,def,u,patch),B,1e-10,"integrated B "+at,sA*T*1e-2);
            c.closeM(integ<MaterialOutput::MatrixC>(mm,def,u,patch),B,1e-10,"integrated C "+at,sA*T*1e-2); c.closeM(integ<MaterialOutput::MatrixD>(mm,def,u,patch),D,1e-10,"integrated D "+at,sA*T*T*1e-3);
            c.closeM(integ<MaterialOutput::VectorN>(mm,def,u,patch),N,1e-10,"integrated N "+at,sA*1e-3); if (d==3) c.closeM(integ<MaterialOutput::VectorM>(mm,def,u,patch),M,1e-10,"integrated M "+at,sA*T*T*1e-3);
            gsMaterialMatrixEval<real_t,MaterialOutput::Density> ed(mm,&def,Mx()); Mx r; ed.piece(patch).eval_into(u,r); c.closeM(r,rh,1e-10,"evaluated mass per area "+at);
            auto cl=m.clone(); c.closeM(cl->eval3D_vector(patch,u,z,MaterialOutput::VectorN),N,1e-10,"clone "+at,sA*1e-3);
        }
        // a stack of identical isotropic plies (each at any angle) = the homogeneous isotropic shell
        bool iso=true; for(auto&p:s) if (p.kind!=0||p.var) iso=false;
        if (iso) { double t=0; for(auto&p:s) t+=p.t; gsConstantFunction<real_t> th(t,d),E(1.5,d),nu(0.3,d); gsMaterialMatrixLinear<d,real_t> h(ori,th,E,nu); gsMaterialMatrixBase<real_t>*hm=&h,*mm=&m; c.op(6);
            c.closeM(integ<MaterialOutput::MatrixA>(mm,def,u,patch),integ<MaterialOutput::MatrixA>(hm,def,u,patch),1e-10,"homogeneous A "+at); c.closeM(integ<MaterialOutput::MatrixB>(mm,def,u,patch),integ<MaterialOutput::MatrixB>(hm,def,u,patch),1e-10,"homogeneous B "+at,sA*T*1e-2);
            c.closeM(integ<MaterialOutput::MatrixD>(mm,def,u,patch),integ<MaterialOutput::MatrixD>(hm,def,u,patch),1e-10,"homogeneous D "+at); c.closeM(integ<MaterialOutput::VectorN>(mm,def,u,patch),integ<MaterialOutput::VectorN>(hm,def,u,patch),1e-10,"homogeneous N "+at,sA*1e-3);
            if (d==3) c.closeM(integ<MaterialOutput::VectorM>(mm,def,u,patch),integ<MaterialOutput::VectorM>(hm,def,u,patch),1e-10,"homogeneous M "+at,sA*T*T*1e-3); }
    }
}

template<int d> void laminates(Check&ck)
{
    bool th=ck.thorough(); auto al=alphabet(th); size_t n=al.size();
    auto defs=deformations(d); std::vector<Def> ds; for(auto&D:defs) if (th||D.name=="gen"||D.name=="bend"||D.name=="genrot"||D.name=="uni") ds.push_back(D);
    auto geos=undeformed(d);
    int depth=th?4:3;
    for (auto&U:geos) for (size_t f=0;f<n;++f) {
        ck.add("d="+std::to_string(d)+";geo="+U.first+";top="+al[f].name,[=](Ctx&c){
            gsMultiPatch<real_t> ori=mpatch<d>(U.second); std::vector<gsMultiPatch<real_t>> dg; std::vector<ref::Poly> pd; for(auto&D:ds){ pd.push_back(deform(U.second,D,d)); dg.push_back(mpatch<d>(pd.back())); }
            // depth-first over all stacks whose top ply is al[f]
            std::vector<size_t> st(1,f); long id=0;
            std::function<void()> rec=[&]{
                std::vector<Ply> s; std::string sn; for(size_t i:st){ s.push_back(al[i]); sn+=(sn.empty()?"":"/")+al[i].name; }
                size_t k=0; for (size_t q=0;q<ds.size();++q) { if (st.size()>=4 && q!=(size_t)(id%ds.size())) continue; check<d>(c,s,sn,ori,dg[q],{U.second},{pd[q]},ds[q].name,k==0,st.size()<=2); k++; }
                id++;
                if ((int)st.size()<depth) for(size_t i=0;i<n;++i){ if (st.size()==3 && i>=6) break; st.push_back(i); rec(); st.pop_back(); }
            };
            rec();
        });
    }
    // several patches: every ordered pair of surfaces
    for (size_t a=0;a<geos.size();++a) for (size_t b=0;b<geos.size();++b) ck.add("d="+std::to_string(d)+";patches="+geos[a].first+"+"+geos[b].first,[=](Ctx&c){
        gsMultiPatch<real_t> ori,def; Def D=ds.back(); std::vector<ref::Poly> po={geos[a].second,geos[b].second},pd; for(auto&p:po){ pd.push_back(deform(p,D,d)); ori.addPatch(p.template spline<d>()); def.addPatch(pd.back().template spline<d>()); }
        for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) check<d>(c,{al[i],al[j]},al[i].name+"/"+al[j].name,ori,def,po,pd,D.name,true,true);
    });
}
int main(int argc,char**argv)
{
    std::string id; for(int i=1;i+1<argc;++i) if(std::string(argv[i])=="--id") id=argv[i+1];
    Check ck(argc,argv,id);
    ck.assume("the first ply of a stack is the one on the side of the surface normal; ply angles turn from the first covariant direction to the second contravariant direction");
    ck.bound("all stacks up to 3 plies (thorough: 4) over a ply alphabet (isotropic, orthotropic and fully populated plies, several angles and thicknesses, spatially varying ones) x undeformed surfaces x deformations x points x output; all pairs of surfaces as two-patch geometries");
    laminates<3>(ck); laminates<2>(ck);
    return ck.run();
}
