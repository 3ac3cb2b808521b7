/* Explorer for the assembled equations: residual (C11), tangent (C12), linear analysis (C13), invariances and balance (C14). */
#include "scene.h"
using namespace mc;

template<int d> std::vector<Conf> confs(bool th,bool heavy)
{
    std::vector<Conf> r; auto gn=geoNames<d>(); if (th) { gn.push_back("quad3"); if(d==3) gn.push_back("curv3"); }
    std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    for(bool b:types) for(auto&g:gn) {
        // every material x deformation with everything loaded
        for(auto&m:matSpecs()) for(auto&mv:moves(d)) { bool two=g=="two"||g=="three"||g=="twoC"||g=="twoR"||g=="fold"; std::vector<std::string> ms={m.name}; if (two) ms={m.name, m.name=="SvK"?"SvKt":"SvK"}; r.push_back({g,ms,mv.name,"all","left",b,1,1,two?0:-1}); }
        // every load x deformation x support
        for(auto&L:loadCases<d>()) for(auto&mv:moves(d)) { if (!th && (mv.name=="stretch"||mv.name=="bend")) continue; for(auto bc:{"free","mix","clamp","coll","corn"}) { if (bc[0]=='c'&&bc[1]=='o'&&!th&&L.name!="all") continue; r.push_back({g,{"SvKt"},mv.name,L.name,bc,b,1,1,-1}); } }
        // quadrature settings
        for(auto q:{std::make_pair(1.0,0),std::make_pair(2.0,1),std::make_pair(0.5,2)}) r.push_back({g,{"SvK"},"gen","all","left",b,q.first,q.second,0});
    }
    return r;
}
/// laws whose discrete tangent is the exact derivative (other laws: thickness moments of the tangent only, see DESIGN)
static bool exactTangent(const Conf&f,int d){ if (d==2) return true; for(auto&m:f.mats) if (m!="SvK"&&m!="SvKt"&&!(m=="LAM"&&f.bending)) return false; return true; }
template<int d> void c11(Check&ck)
{
    for(auto f:confs<d>(ck.thorough(),false)) ck.add(f.key(d),[f](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); MP def=displaced(s->ori,moveOf(d,f.move).u); Numb nb(a->getMapper());
        Sys r=reference<d>(*s,def,nb,INT|EXT); EV R=r.R.head(nb.nf); double fl=1e-3*std::max(r.F.cwiseAbs().maxCoeff(),r.R.cwiseAbs().maxCoeff())+1e-12; c.state(nb.nt); double tol=f.load=="pointphys"?1e-5:1e-8; // the core inverts physical points to 1e-6
        c.ok(a->assembleVector(def)==OK_,"assembleVector succeeds"); c.op(); c.closeM(a->rhs(),R,tol,"residual",fl);
        c.ok(a->assemble(def)==OK_,"assemble succeeds"); c.op(); c.closeM(a->rhs(),R,tol,"residual of the full assembly",fl);
        c.ok(a->assemble(def,false,false)==OK_,"assemble succeeds"); c.op(); c.closeM(a->rhs(),R,tol,"residual, supports not homogenised",fl);
        // the same state given as a vector of unknowns
        gsVector<real_t> u(nb.nf); for(int i=0;i<nb.nf;++i) u[i]=0.02*((i*7)%11-5)/5.0; Mx um=u; MP dv=a->constructSolution(um); Sys rv=reference<d>(*s,dv,nb,INT|EXT);
        c.ok(a->assembleVector(um)==OK_,"assembleVector succeeds"); c.op(); c.closeM(a->rhs(),EV(rv.R.head(nb.nf)),tol,"residual of a solution vector",fl);
        c.ok(a->assemble(um)==OK_,"assemble succeeds"); c.op(); c.closeM(a->rhs(),EV(rv.R.head(nb.nf)),tol,"residual of a solution vector, full assembly",fl);
    });
    // pressure and foundation added to an assembled residual by hand
    for(auto g:{"quad2","curv","twoC","two"}) { if (d==2) break; for(bool b:{true,false}) for(auto&mv:moves(d)) { Conf f={g,{"SvK"},mv.name,"force","left",b,1,1,0}; ck.add("added;"+f.key(d),[f](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); MP def=displaced(s->ori,moveOf(d,f.move).u); Numb nb(a->getMapper()); Sys r0=reference<d>(*s,def,nb,INT|EXT|TAN), l0=reference<d>(*s,s->ori,nb,INT|EXT|TAN);
        s->press.reset(new gsFunctionExpr<real_t>("0.8+0.3*x-0.2*y*z",3)); Sys r1=reference<d>(*s,def,nb,INT|EXT|TAN), l1=reference<d>(*s,s->ori,nb,INT|EXT|TAN);
        a->assembleVector(def); c.ok(a->assemblePressureVector(*s->press,def)==OK_,"status"); c.op(2); c.closeM(a->rhs(),EV(r1.R.head(nb.nf)),1e-8,"pressure vector added");
        a->assembleMatrix(def); c.ok(a->assemblePressureMatrix(*s->press,def)==OK_,"status"); c.op(2); c.closeM(dense(a->matrix()),EM(r1.K.topLeftCorner(nb.nf,nb.nf)),1e-8,"pressure matrix added");
        a->assemble(); c.ok(a->assemblePressureVector(*s->press)==OK_,"status"); c.op(2); c.closeM(a->rhs(),EV(l1.R.head(nb.nf)),1e-8,"pressure vector added, linear");
        s->press.reset(new gsFunctionExpr<real_t>("0.65",3)); Sys r2=reference<d>(*s,def,nb,INT|EXT|TAN);
        a->assembleVector(def); c.ok(a->assemblePressureVector(0.65,def)==OK_,"status"); c.op(2); c.closeM(a->rhs(),EV(r2.R.head(nb.nf)),1e-8,"constant pressure vector added");
        a->assembleMatrix(def); c.ok(a->assemblePressureMatrix(0.65,def)==OK_,"status"); c.op(2); c.closeM(dense(a->matrix()),EM(r2.K.topLeftCorner(nb.nf,nb.nf)),1e-8,"constant pressure matrix added");
        // entry points without deformed geometry, and with the loads stored in the assembler
        Sys l2=reference<d>(*s,s->ori,nb,INT|EXT|TAN); gsFunctionExpr<real_t> pf("0.8+0.3*x-0.2*y*z",3);
        a->assemble(); EM K0=dense(a->matrix()); c.ok(a->assemblePressureVector(0.65)==OK_,"status"); c.op(2); c.closeM(a->rhs(),EV(l2.R.head(nb.nf)),1e-8,"constant pressure vector added, linear");
        c.ok(a->assemblePressureMatrix(0.65)==OK_&&a->assemblePressureMatrix(pf)==OK_,"status"); c.op(2); c.closeM(dense(a->matrix()),K0,1e-12,"the linear pressure has no stiffness");
        auto more=[&](auto*q){ q->setPressure(pf); q->assembleVector(def); EV v=q->rhs().col(0); EV dp=(r1.R-r0.R).head(nb.nf); c.ok(q->assemblePressureVector(def)==OK_,"status"); c.op(2); c.closeM(q->rhs(),EV(v+dp),1e-8,"pressure vector of the assembler's own pressure");
            gsFunctionExpr<real_t> ff("0.4+x","0.9","1.3-0.2*y",3); s->press.reset(); s->found.reset(new gsFunctionExpr<real_t>("0.4+x","0.9","1.3-0.2*y",3)); Sys r3=reference<d>(*s,def,nb,INT|EXT|TAN); EV df=(r3.R-r0.R).head(nb.nf); EM Kf=EM(r3.K-r0.K).topLeftCorner(nb.nf,nb.nf); double fl=v.cwiseAbs().maxCoeff();
            q->assembleVector(def); c.ok(q->assembleFoundationVector(ff,def)==OK_,"status"); c.op(2); c.closeM(q->rhs(),EV(v+df),1e-8,"foundation vector added",fl);
            q->setFoundation(ff); q->assembleVector(def); c.ok(q->assembleFoundationVector(def)==OK_,"status"); c.op(2); c.closeM(q->rhs(),EV(v+2*df),1e-8,"foundation vector of the assembler's own foundation",fl);
            c.ok(q->assembleFoundation()==OK_,"status"); c.op(); c.closeM(dense(q->matrix()),Kf,1e-8,"foundation matrix alone"); s->found.reset(); };
        if (f.bending) more(dynamic_cast<gsThinShellAssembler<3,real_t,true>*>((gsThinShellAssemblerBase<real_t>*)a.get())); else more(dynamic_cast<gsThinShellAssembler<3,real_t,false>*>((gsThinShellAssemblerBase<real_t>*)a.get()));
    }); } }
}
template<int d> void c12(Check&ck)
{
    for(auto f:confs<d>(ck.thorough(),true)) ck.add(f.key(d),[f](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); MP def=displaced(s->ori,moveOf(d,f.move).u); Numb nb(a->getMapper()); int n=nb.nf;
        Sys r=reference<d>(*s,def,nb,INT|EXT|TAN); EM K=r.K.topLeftCorner(n,n); c.state(nb.nt);
        c.ok(a->assembleMatrix(def)==OK_,"assembleMatrix succeeds"); c.op(); EM A=dense(a->matrix()); c.closeM(A,K,1e-8,"tangent");
        c.ok(a->assemble(def)==OK_,"assemble succeeds"); c.op(); c.closeM(dense(a->matrix()),K,1e-8,"tangent of the full assembly");
        if (!s->press) c.closeM(A,EM(A.transpose()),1e-10,"symmetry");
        // derivative of the assembled residual
        if (exactTangent(f,d) && n<=90) {
            double h=1e-4; EM D(n,n); MP e=def; std::vector<std::vector<std::array<int,3>>> own(n); for(size_t p=0;p<def.nPatches();++p) for(index_t i=0;i<def.patch(p).coefs().rows();++i) for(int k=0;k<d;++k){ int g=nb.id(i,p,k); if(g<n) own[g].push_back({{(int)p,(int)i,k}}); }
            auto R=[&](int j,double x){ for(auto&o:own[j]) e.patch(o[0]).coefs()(o[1],o[2])+=x; a->assembleVector(e); c.op(); EV v=a->rhs().col(0); for(auto&o:own[j]) e.patch(o[0]).coefs()(o[1],o[2])-=x; return v; };
            for(int j=0;j<n;++j){ EV p1=R(j,h),m1=R(j,-h); D.col(j)=-(p1-m1)/(2*h); }
            c.closeM(A,D,3e-6,"tangent is minus the derivative of the residual");
        }
        // the same state given as a vector of unknowns
        Mx um(n,1); for(int i=0;i<n;++i) um(i,0)=0.02*((i*7)%11-5)/5.0; MP dv=a->constructSolution(um); Sys rv=reference<d>(*s,dv,nb,INT|EXT|TAN);
        c.ok(a->assembleMatrix(um)==OK_,"assembleMatrix succeeds"); c.op(); c.closeM(dense(a->matrix()),EM(rv.K.topLeftCorner(n,n)),1e-8,"tangent of a solution vector");
    });
}
/// tangent with mixed integration points: stresses extrapolated from the previous iterate
template<int d> void c12mip(Check&ck)
{
    auto gn=geoNames<3>(); for(auto&g:gn) for(auto m:{"SvKt","NHct","LAM"}) for(auto&mv:moves(3)) for(auto&pv:moves(3)) { if (!ck.thorough() && pv.name!="id" && pv.name!="gen" && pv.name!=mv.name) continue; Conf f={g,{m},mv.name,"all","left",true,1,1,0}; ck.add("mip;prev="+pv.name+";"+f.key(3),[f,pv](Ctx&c){
        auto s=scene<3>(f); auto a=s->make(); MP def=displaced(s->ori,moveOf(3,f.move).u),prev=displaced(s->ori,pv.u); Numb nb(a->getMapper()); int n=nb.nf; Mx um(n,1); for(int i=0;i<n;++i) um(i,0)=0.01*((i*5)%13-6)/5.0;
        Sys r=reference<3>(*s,def,nb,INT|EXT|TAN); EM K=r.K; // replace the geometric part
        for(size_t p=0;p<s->ori.nPatches();++p){ const gsBasis<real_t>&B=s->mb.basis(p); for(auto&q:quad2(B,s->quA,s->quB)){ BAt b=basisAt(B,q.u,q.v); Geo o=geoAt(b,s->ori.patch(p).coefs()),g=geoAt(b,def.patch(p).coefs()),h=geoAt(b,prev.patch(p).coefs()); double w=q.w*o.area(); Var v(b,g,3,true),vp(b,h,3,true); Moments M=s->mats[p]->mom(o,g),P=s->mats[p]->mom(o,h);
            double e[3]={0,0,0},k[3]={0,0,0},dN[3],dM[3]; std::vector<int> id(v.n); for(int i=0;i<v.n;++i){ id[i]=nb.id(b.act[i/3],p,i%3); if (id[i]<n) for(int j=0;j<3;++j){ e[j]+=vp.dE(i,j)*um(id[i],0); k[j]+=vp.dK(i,j)*um(id[i],0); } }
            for(int i=0;i<3;++i){ dN[i]=P.N[i]-M.N[i]; dM[i]=P.M[i]-M.M[i]; for(int j=0;j<3;++j){ dN[i]+=P.A[i][j]*e[j]+P.B[i][j]*k[j]; dM[i]+=P.B[i][j]*e[j]+P.D[i][j]*k[j]; } }
            for(int i=0;i<v.n;++i)for(int j=0;j<v.n;++j) K(id[i],id[j])+=w*(v.d2E(i,j,dN)+v.d2K(i,j,dM)); } }
        c.state(nb.nt); c.ok(a->assembleMatrix(def,prev,um)==OK_,"assembleMatrix succeeds"); c.op(); c.closeM(dense(a->matrix()),EM(K.topLeftCorner(n,n)),1e-8,"tangent with extrapolated stresses");
        // given as vectors: the update is the difference of the iterates
        Mx v1=um; MP dv=a->constructSolution(v1); Mx v0=Mx::Zero(n,1); MP ov=a->constructSolution(v0); Mx up=v1-v0; a->assembleMatrix(dv,ov,up); EM A=dense(a->matrix()); c.ok(a->assembleMatrix(v1,v0)==OK_,"assembleMatrix succeeds"); c.op(2); c.closeM(dense(a->matrix()),A,1e-12,"iterates given as vectors");
    }); }
}
template<int d> void c13(Check&ck)
{
    bool th=ck.thorough(); auto gn=geoNames<d>(); if (th) { gn.push_back("quad3"); if(d==3) gn.push_back("curv3"); }
    std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    std::vector<Conf> cs; for(bool b:types) for(auto&g:gn) { for(auto&m:matSpecs()) for(auto bc:{"free","mix","coll","corn"}) for(int ct:{-1,0}) { bool multi=geometry<d>(g).nPatches()>1; if (!multi&&ct==0) continue; std::vector<std::string> ms={m.name}; if (multi&&ct==0) ms.push_back("SvKt"); cs.push_back({g,ms,"id","all",bc,b,1,1,ct}); }
        for(auto&L:loadCases<d>()) for(auto bc:{"free","left","mix","clamp"}) cs.push_back({g,{"SvKt"},"id",L.name,bc,b,1,1,-1}); }
    for(auto&f:cs) ck.add(f.key(d),[f](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); Numb nb(a->getMapper()); int n=nb.nf; double tol=f.load=="pointphys"?1e-5:1e-8;
        Sys r=reference<d>(*s,s->ori,nb,EXT|TAN|LINEAR); EV g=prescribed<d>(*s,nb); EM K=r.K.topLeftCorner(n,n); EV F=(r.F-r.K*g).head(n); c.state(nb.nt); double fl=1e-3*(r.F.cwiseAbs().maxCoeff()+K.cwiseAbs().maxCoeff()*g.cwiseAbs().maxCoeff())+1e-12;
        c.ok(a->assemble()==OK_,"assemble succeeds"); c.op(); EM A=dense(a->matrix()); EV R=a->rhs().col(0); c.closeM(A,K,1e-8,"stiffness matrix"); c.closeM(R,F,tol,"load vector",fl);
        c.closeM(A,EM(A.transpose()),1e-10,"symmetry"); gsEigen::SelfAdjointEigenSolver<EM> es(0.5*(A+A.transpose())); c.ok(es.eigenvalues()[0]>=-1e-10*es.eigenvalues()[n-1],"positive semi-definite","smallest eigenvalue "+num(es.eigenvalues()[0]));
        // the nonlinear system at the undeformed state
        MP same=s->ori; c.ok(a->assemble(same)==OK_,"assemble succeeds"); c.op(); EM T=dense(a->matrix()); EV Rn=a->rhs().col(0);
        if (!s->press) c.closeM(T,A,1e-8,"tangent at the undeformed state"); c.closeM(Rn,EV(r.F.head(n)),tol,"residual at the undeformed state",fl); c.closeM(EV(R-Rn),EV((-r.K*g).head(n)),tol,"contribution of prescribed displacements",fl);
    });
    // constant strain: affine displacement on the whole boundary is reproduced inside
    for(auto g:{"sq","quad","quad2","nurbs","quad3","two","three"}) for(auto m:{"SvK","NHi"}) for(int k=0;k<3;++k) { std::string mat=m,geo=g; ck.add("patch-test;d="+std::to_string(d)+";geo="+geo+";mat="+mat+";field="+std::to_string(k),[=](Ctx&c){
        std::unique_ptr<Scene<d>> sp(new Scene<d>(geometry<d>(geo))); auto&s=*sp; s.continuity=0; if (geo=="nurbs") { s.quA=3; s.quB=4; } s.materials({mat}); std::vector<std::vector<std::string>> fs={{"0.1*x","0","0"},{"0.02+0.1*x-0.05*y","0.2*x+0.15*y","0"},{"-0.1*y","0.1*x","0.3+0.2*x-0.1*y"}}; auto fe=fs[k]; fe.resize(d);
        for(auto&b:s.ori.boundaries()) s.support({(int)b.patch,(boundary::side)b.side().index(),condition_type::dirichlet,-1,fe}); s.loads(Loads{"none",{},d==2,"",{},{},{}});
        auto a=s.make(); c.ok(a->assemble()==OK_,"assemble succeeds"); Mx sol=Mx(EV(EM(dense(a->matrix())).ldlt().solve(EV(a->rhs().col(0))))); MP res=a->constructSolution(sol); c.op(2); gsFunctionExpr<real_t> F(fe,d);
        for(size_t p=0;p<s.ori.nPatches();++p){ Mx e=s.ori.patch(p).coefs(); for(index_t i=0;i<e.rows();++i){ V3 x={{0,0,0}}; for(int q=0;q<d;++q) x[q]=s.ori.patch(p).coefs()(i,q); Mx v=evalF(F,x); for(int q=0;q<d;++q) e(i,q)+=v(q,0); } c.state(e.rows()); c.closeM(res.patch(p).coefs(),e,1e-8,"constant strain state on patch "+std::to_string(p)); }
    }); }
}
template<int d> EV full(const EV&r,const Numb&nb){ EV x; x.setZero(nb.nt); x.head(r.size())=r; return x; }
template<int d> void c14(Check&ck)
{
    bool th=ck.thorough(); auto gn=geoNames<d>(); if (th) { gn.push_back("quad3"); if(d==3) gn.push_back("curv3"); } std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    std::vector<M3> rots; if (d==3) { rots={ref::rot({{1,0,0}},0.7),ref::rot({{0.3,-1,0.5}},2.4),ref::rot({{1,1,1}},3.1)}; } else rots={ref::rot({{0,0,1}},0.7),ref::rot({{0,0,1}},2.9)};
    for(bool b:types) for(auto&g:gn) for(auto&m:matSpecs()) for(auto&mv:moves(d)) for(int ct:{-1,0}) { bool multi=geometry<d>(g).nPatches()>1; if (!multi&&ct==0) continue; std::vector<std::string> ms={m.name}; if (multi&&ct==0) ms.push_back("SvKt"); Conf f={g,ms,mv.name,"none","free",b,1,1,ct}; ck.add(f.key(d),[f,rots](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); MP def=displaced(s->ori,moveOf(d,f.move).u); Numb nb(a->getMapper()); int n=nb.nf; c.state(n);
        c.ok(a->assemble(def)==OK_,"assemble succeeds"); c.op(); EV R=a->rhs().col(0); EM K=dense(a->matrix()); double sc=K.cwiseAbs().maxCoeff()*0.1;
        c.ok(nb.nt==n,"no unknown eliminated without supports");
        // position of every unknown and lists of unknowns per point
        std::vector<V3> X(n); std::vector<std::array<int,3>> pts; std::vector<V3> px; std::vector<int> comp(n); std::set<int> seen; for(size_t p=0;p<def.nPatches();++p) for(index_t i=0;i<def.patch(p).coefs().rows();++i){ std::array<int,3> q={{0,0,0}}; V3 x={{0,0,0}}; for(int k=0;k<d;++k){ q[k]=nb.id(i,p,k); x[k]=def.patch(p).coefs()(i,k); } if (seen.insert(q[0]).second) { pts.push_back(q); px.push_back(x); } }
        V3 tot={{0,0,0}},mom={{0,0,0}}; for(size_t i=0;i<pts.size();++i){ V3 r={{0,0,0}}; for(int k=0;k<d;++k) r[k]=R[pts[i][k]]; tot=tot+r; mom=mom+ref::cross(px[i],r); }
        for(int k=0;k<3;++k){ c.close(tot[k],0,sc,1e-9,"resultant internal force"); c.close(mom[k],0,sc*5,1e-9,"resultant internal moment"); }
        if (f.move=="id") for(int i=0;i<n;++i) c.close(R[i],0,sc,1e-9,"undeformed shell is free of forces");
        // rigid velocities: translations cost nothing, rotations turn the internal forces
        for(int k=0;k<d;++k){ EV t; t.setZero(n); for(auto&q:pts) t[q[k]]=1; c.closeM(EV(K*t),EV(EV::Zero(n)),1e-9,"tangent applied to a translation",sc); }
        for(int k=0;k<3;++k){ if (d==2&&k<2) continue; V3 w={{0,0,0}}; w[k]=1; EV t,e; t.setZero(n); e.setZero(n); for(size_t i=0;i<pts.size();++i){ V3 v=ref::cross(w,px[i]); V3 r={{0,0,0}}; for(int q=0;q<d;++q) r[q]=R[pts[i][q]]; V3 z=ref::cross(w,r); for(int q=0;q<d;++q){ t[pts[i][q]]=v[q]; e[pts[i][q]]=-z[q]; } } c.closeM(EV(K*t),e,1e-8,"tangent applied to a rotation",sc*5); }
        // finite rigid motions
        for(auto&Q:rots){ MP rd=def; for(size_t p=0;p<rd.nPatches();++p) for(index_t i=0;i<rd.patch(p).coefs().rows();++i){ V3 x={{0,0,0}}; for(int k=0;k<d;++k) x[k]=def.patch(p).coefs()(i,k); V3 y=Q*x+V3{{0.4,-1.3,2}}; for(int k=0;k<d;++k) rd.patch(p).coefs()(i,k)=y[k]; }
            c.ok(a->assembleVector(rd)==OK_,"assemble succeeds"); c.op(); EV R2=a->rhs().col(0),E(n); for(size_t i=0;i<pts.size();++i){ V3 r={{0,0,0}}; for(int k=0;k<d;++k) r[k]=R[pts[i][k]]; r=Q*r; for(int k=0;k<d;++k) E[pts[i][k]]=r[k]; } c.closeM(R2,E,1e-8,"internal forces turn with a rigid motion",sc);
            // the undeformed shell placed elsewhere, same relative deformation
        }
    }); }
    // applied loads add up
    for(bool b:types) for(auto&g:gn) for(auto&L:loadCases<d>()) { if (L.name=="found") continue; Conf f={g,{"SvKt"},"id",L.name,"free",b,1,1,-1}; ck.add("total;"+f.key(d),[f](Ctx&c){
        auto s=scene<d>(f); auto a=s->make(); Numb nb(a->getMapper()); c.ok(a->assemble()==OK_,"assemble succeeds"); c.op(); EV R=a->rhs().col(0); c.state(nb.nt); V3 sum={{0,0,0}},tot={{0,0,0}},ms={{0,0,0}},mt={{0,0,0}};
        for(size_t p=0;p<s->ori.nPatches();++p){ auto&co=s->ori.patch(p).coefs(); for(index_t i=0;i<co.rows();++i){ V3 x={{0,0,0}},r={{0,0,0}}; for(int k=0;k<d;++k){ x[k]=co(i,k); r[k]=R[nb.id(i,p,k)]; } sum=sum+r; ms=ms+ref::cross(x,r); } }
        auto add=[&](const V3&x,const Mx&F,double w){ V3 r={{0,0,0}}; for(int k=0;k<d;++k) r[k]=w*F(k,0); tot=tot+r; mt=mt+ref::cross(x,r); };
        for(size_t p=0;p<s->ori.nPatches();++p) for(auto&q:quad2(s->mb.basis(p),1,1)){ Geo o=geoAt(basisAt(s->mb.basis(p),q.u,q.v),s->ori.patch(p).coefs()); double w=q.w*o.area(); add(o.x, s->force->domainDim()==2?evalF(*s->force,{{q.u,q.v,0}}):evalF(*s->force,o.x),w); if (d==3&&s->press){ double pr=evalF(*s->press,o.x)(0,0); Mx F(3,1); F<<o.n[0],o.n[1],o.n[2]; add(o.x,F,w*pr); } }
        for(auto&nq:s->neu){ boxSide sd(nq.first.side); int p=nq.first.patch; for(auto&q:quad2(s->mb.basis(p),1,1,sd.direction(),sd.parameter()?1.0:0.0)){ Geo o=geoAt(basisAt(s->mb.basis(p),q.u,q.v),s->ori.patch(p).coefs()); add(o.x,evalF(*nq.second,o.x),q.w*ref::norm(sd.direction()==0?o.a2:o.a1)); } }
        for(size_t k=0;k<s->pl.numLoads();++k){ auto P=s->pl[k]; Mx F=P.value; V3 x={{0,0,0}}; if (P.parametric){ Geo o=geoAt(basisAt(s->mb.basis(P.patch),P.point[0],P.point[1]),s->ori.patch(P.patch).coefs()); x=o.x; } else for(int q=0;q<d;++q) x[q]=P.point[q]; add(x,F,1); }
        double tol=f.load=="pointphys"?1e-5:1e-9; for(int k=0;k<3;++k){ c.close(sum[k],tot[k],1+std::abs(tot[k]),tol,"resultant of the loads"); c.close(ms[k],mt[k],1+std::abs(mt[k]),tol,"moment of the loads"); }
    }); }
}
int main(int argc,char**argv)
{
    std::string id; for(int i=1;i+1<argc;++i) if(std::string(argv[i])=="--id") id=argv[i+1];
    Check ck(argc,argv,id);
    if (id=="C11") { c11<3>(ck); c11<2>(ck); }
    if (id=="C12") { c12<3>(ck); c12<2>(ck); }
    if (id=="C12") c12mip<3>(ck);
    if (id=="C13") { c13<3>(ck); c13<2>(ck); }
    if (id=="C14") { c14<3>(ck); c14<2>(ck); }
    if (id=="C11"||id=="C12") { ck.bound("full product per element kind and geometry (11): materials x deformations with all loads; loads x deformations x supports; quadrature settings"); ck.assume("same Gauss rule as the assembler; the numbering of unknowns is read from the assembler's mapper; physical point loads are located by the core to 1e-6"); }
    if (id=="C11") ck.bound("pressure and foundation added by hand to an assembled system, variable, constant and stored ones");
    if (id=="C12") ck.bound("finite differences of the residual for every unknown where the material tangent is exact; tangents with stresses extrapolated from a previous iterate for all pairs of deformations");
    if (id=="C13") ck.bound("element kinds x geometries x materials x supports x continuity; loads x supports; constant-strain fields x geometries x laws");
    if (id=="C14") ck.bound("element kinds x geometries x materials x deformations x continuity, each under rigid velocities and a set of finite rigid motions; loads x geometries for their resultants");
    return ck.run();
}
