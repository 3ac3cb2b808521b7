/* Explorers for the material-level properties C01-C06, C09, C10. */
#include "common.h"
#include <array>
using namespace mc;
using ref::V3; using ref::operator+; using ref::operator-; using ref::operator*;

static const double PTS[3][2]={{0.3,0.6},{0.85,0.15},{0,1}};

/// Compressible laws solve for the thickness stretch iteratively and may refuse (explicitly, by an error) very
/// strongly compressed states; any value that is returned still has to be right.
static bool mayRefuse(const LawDef&L,const double G[3],const double g[3])
{ return L.comp && L.mat!=0 && (g[0]*g[1]-g[2]*g[2])/(G[0]*G[1]-G[2]*G[2])<(L.pars[1]<0.25?0.75:0.5); } // the iteration starts from the isochoric thickness stretch: further away for small Poisson ratios
template<class F> bool attempt(Ctx&c,bool may,F f)
{ if (!may) { f(); return true; } try { f(); return true; } catch(const std::runtime_error&) { c.op(); return false; } }

/// reference response incl. the conventions of the linear law (moduli of the mid surface)
static ref::Resp response(const LawDef&L,const ref::Geo&go,const ref::Geo&gd,double zt,double G[3],double g[3])
{
    go.metric(zt,G); gd.metric(zt,g);
    if (L.mat!=0) return ref::respond(L.r(),G,g);
    double Gm[3]; go.metric(0,Gm); ref::Resp R=ref::respond(L.r(),Gm,Gm);
    double e[3]={0.5*(g[0]-G[0]),0.5*(g[1]-G[1]),g[2]-G[2]};
    for(int p=0;p<3;++p){R.S[p]=0;for(int q=0;q<3;++q)R.S[p]+=R.C[p][q]*e[q];}
    double r=(g[0]*g[1]-g[2]*g[2])/(G[0]*G[1]-G[2]*G[2]); R.C33=1/r; R.J=std::sqrt(r);
    return R;
}
static Mx vec3(const double*a){ Mx m(3,1); m<<a[0],a[1],a[2]; return m; }
static Mx v3m(const V3&v){ Mx m(3,1); m<<v[0],v[1],v[2]; return m; }
static Mx asM(const ref::Resp&R){ Mx C(9,1); for(int p=0;p<3;++p)for(int q=0;q<3;++q)C(p+3*q,0)=R.C[p][q]; return C; }
static Mx tens(const double s[3],const V3&g1,const V3&g2) // s^{11}g1g1+s^{22}g2g2+s^{12}(g1g2+g2g1)
{ Mx a=v3m(g1),b=v3m(g2); return s[0]*a*a.transpose()+s[1]*b*b.transpose()+s[2]*(a*b.transpose()+b*a.transpose()); }
static void dual(const V3&g1,const V3&g2,V3&h1,V3&h2)
{ double a=ref::dot(g1,g1),b=ref::dot(g2,g2),c=ref::dot(g1,g2),D=a*b-c*c; h1=(b/D)*g1-(c/D)*g2; h2=(a/D)*g2-(c/D)*g1; }

static Mx colM(const Mx&m,int j){ return m.col(j); }
static Mx sq3(const Mx&m){ Mx r(3,3); for(int i=0;i<9;++i) r(i%3,i/3)=m(i,0); return r; }

/// C01 / C02: pointwise stress and tangent against the reference energy
template<int d> void constitutive(Check&ck,bool tangent)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,3)) for (auto&U:undeformed(d)) {
        std::string key="d="+std::to_string(d)+";law="+L.name+";geo="+U.first;
        ck.add(key,[=](Ctx&c){
            gsMultiPatch<real_t> ori=mpatch<d>(U.second);
            std::vector<std::string> ths={"0.05"}; if (d==3) ths={"0.05","0.3"};
            for (auto&ts:ths) {
                MatBox<d> B(L,ori,ts); double t=atof(ts.c_str());
                for (auto&D:allDef(d,th)) {
                    ref::Poly pd=deform(U.second,D,d); gsMultiPatch<real_t> def=mpatch<d>(pd);
                    B.mat->setDeformed(&def);
                    std::vector<double> zs={0.0}; if (d==3) zs={-0.5,0.0,0.35}; if (th&&d==3) zs={-0.5,-0.2,0,0.1,0.35,0.5};
                    int np=3; std::vector<std::array<double,2>> pts; for(int i=0;i<np;++i) pts.push_back({{PTS[i][0],PTS[i][1]}});
                    if (th) for(double x:{0.1,0.5,0.95}) for(double y:{0.05,0.5,0.9}) pts.push_back({{x,y}});
                    for (size_t ip=0;ip<pts.size();++ip) for (double zz:zs) {
                        Mx u(2,1); u<<pts[ip][0],pts[ip][1]; Mx z(1,1); z<<zz;
                        ref::Geo go(U.second,u(0,0),u(1,0),d==2), gd(pd,u(0,0),u(1,0),d==2);
                        double G[3],g[3]; ref::Resp R=response(L,go,gd,zz*t,G,g);
                        Mx S=vec3(R.S),C=asM(R);
                        double cs=C.cwiseAbs().maxCoeff(); c.state(); c.op();
                        std::string at="def="+D.name+",t="+ts+",pt="+std::to_string(ip)+",z="+num(zz);
                        bool may=mayRefuse(L,G,g); double fl=cs*(D.name=="tiny"?1e-4:D.name=="small"?1e-3:1e-1);
                        if (!tangent) attempt(c,may,[&]{
                            c.closeM(B.mat->eval3D_vector(0,u,z,MaterialOutput::Generic),S,1e-7,"stress "+at,fl);
                            c.closeM(B.mat->eval3D_stress(0,u,z,MaterialOutput::Generic),S,1e-7,"stress2 "+at,fl);
                            if (ip==0) { gsVector<real_t> uv=u.col(0); c.closeM(B.mat->eval3D_vector(0,uv,zz,MaterialOutput::Generic),S,1e-7,"stress (single point) "+at,fl); c.closeM(B.mat->eval3D_stress(0,uv,zz,MaterialOutput::Generic),S,1e-7,"stress2 (single point) "+at,fl); }
                            if (D.name=="id") c.ok(B.mat->eval3D_vector(0,u,z,MaterialOutput::Generic).cwiseAbs().maxCoeff()<=1e-10*cs,"stress-free undeformed state "+at);
                            if (zz==0.0) { // response to a directly given deformation tensor
                                Mx Cm=vec3(g); gsVector<real_t> uv=u.col(0);
                                c.closeM(B.mat->eval3D_vector_C(Cm,0,uv,0.0,MaterialOutput::VectorN),S,1e-7,"stressC "+at,cs*1e-1); }
                            });
                        else attempt(c,may,[&]{
                            Mx T=B.mat->eval3D_matrix(0,u,z,MaterialOutput::Generic);
                            c.closeM(T,C,1e-6,"tangent "+at);
                            if (ip==0) { gsVector<real_t> uv=u.col(0); c.closeM(B.mat->eval3D_matrix(0,uv,zz,MaterialOutput::Generic),C,1e-6,"tangent (single point) "+at); }
                            if (zz==0.0) {
                                Mx Cm=vec3(g); gsVector<real_t> uv=u.col(0);
                                c.closeM(B.mat->eval3D_matrix_C(Cm,0,uv,0.0,MaterialOutput::MatrixA),C,1e-6,"tangentC "+at); }
                            // derivative of the tangent with respect to the deformation tensor (offered for some laws)
                            if (L.mat==0||(L.mat==1&&!L.comp)) {
                                Mx dC=B.mat->eval3D_dmatrix(0,u,z,MaterialOutput::Generic), X(27,1); X.setZero();
                                if (L.mat!=0) for(int k=0;k<3;++k){ double h=1e-5,gp[3],gm[3]; for(int i=0;i<3;++i){gp[i]=gm[i]=g[i];} gp[k]+=h; gm[k]-=h;
                                    Mx dd=(asM(ref::respond(L.r(),G,gp))-asM(ref::respond(L.r(),G,gm)))/(2*h)*(k==2?0.5:1.0);
                                    for(int e=0;e<9;++e) X(k+3*e,0)=dd(e,0); }
                                c.closeM(dC,X,1e-5,"dtangent "+at,cs);
                                if (ip==0) { gsVector<real_t> uv=u.col(0); c.closeM(B.mat->eval3D_dmatrix(0,uv,zz,MaterialOutput::Generic),X,1e-5,"dtangent (single point) "+at,cs); }
                            }
                            });
                    }
                }
            }
        });
    }
}

/// second patch, several points and heights in one call, parameters and thickness varying over the surface
template<int d> void constitutiveBatch(Check&ck,bool tangent)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?3:1)) for (auto&U:undeformed(d)) ck.add("batch;d="+std::to_string(d)+";law="+L.name+";geo="+U.first,[=](Ctx&c){
        ref::Poly other=undeformed(d)[2].second; gsMultiPatch<real_t> ori; ori.addPatch(other.template spline<d>()); ori.addPatch(U.second.template spline<d>());
        std::string ts="0.1+0.05*x-0.02*y"; VarBox<d> B(L,ori,ts); auto defs=th?allDef(d,false):deformations(d);
        for (size_t id=0;id<defs.size();++id) {
            ref::Poly pd[2]={deform(other,defs[(id+3)%defs.size()],d),deform(U.second,defs[id],d)},po[2]={other,U.second}; gsMultiPatch<real_t> def; for(auto&q:pd) def.addPatch(q.template spline<d>()); B.mat->setDeformed(&def);
            for(int patch=0;patch<2;++patch) for(int nz=1;nz<=3;++nz) {
                Mx u(2,3),z(nz,3),S(3,3*nz),C(9,3*nz); bool may=false; double cs=0; for(int k=0;k<3;++k) u.col(k)<<PTS[k][0],PTS[k][1];
                for(int k=0;k<3;++k) for(int j=0;j<nz;++j) { z(j,k)=d==2?0.0:0.3*j-0.25+0.1*k; ref::Geo go(po[patch],u(0,k),u(1,k),d==2),gd(pd[patch],u(0,k),u(1,k),d==2); double t=0.1+0.05*go.x[0]-0.02*go.x[1],G[3],g[3]; LawDef l=local(L,go.x[0],go.x[1]);
                    ref::Resp R=response(l,go,gd,z(j,k)*t,G,g); may|=mayRefuse(l,G,g); S.col(j*3+k)=vec3(R.S); C.col(j*3+k)=asM(R); cs=std::max(cs,asM(R).cwiseAbs().maxCoeff()); }
                std::string at="def="+defs[id].name+",patch="+std::to_string(patch)+",heights="+std::to_string(nz); c.state(3*nz); c.op();
                attempt(c,may,[&]{ if (tangent) c.closeM(B.mat->eval3D_matrix(patch,u,z,MaterialOutput::Generic),C,1e-6,"tangents "+at);
                    else { c.closeM(B.mat->eval3D_vector(patch,u,z,MaterialOutput::Generic),S,1e-7,"stress vectors "+at,0.1*cs); c.closeM(B.mat->eval3D_stress(patch,u,z,MaterialOutput::Generic),S,1e-7,"stresses "+at,0.1*cs); } });
            }
        }
    });
}
/// outputs at several points and heights of the second patch in one call = single evaluations on a shell with that patch alone
typedef std::vector<std::pair<std::string,std::function<Mx(gsMaterialMatrixBase<real_t>&,int,const Mx&,const Mx&)>>> Outs;
template<int d> void batchOuts(Check&ck,const Outs&outs)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?2:1)) for (auto&U:undeformed(d)) ck.add("batch;d="+std::to_string(d)+";law="+L.name+";geo="+U.first,[=](Ctx&c){
        ref::Poly other=undeformed(d)[2].second; gsMultiPatch<real_t> ori,one=mpatch<d>(U.second); ori.addPatch(other.template spline<d>()); ori.addPatch(U.second.template spline<d>());
        std::string ts="0.1+0.05*x-0.02*y"; VarBox<d> B(L,ori,ts),A(L,one,ts); auto defs=deformations(d);
        for (size_t id=0;id<defs.size();++id) {
            ref::Poly pd=deform(U.second,defs[id],d); gsMultiPatch<real_t> def,d1=mpatch<d>(pd); def.addPatch(deform(other,defs[(id+3)%defs.size()],d).template spline<d>()); def.addPatch(pd.template spline<d>()); B.mat->setDeformed(&def); A.mat->setDeformed(&d1);
            for(int nz=1;nz<=3;nz+=2) { Mx u(2,3),z(nz,3); bool may=false;
                for(int k=0;k<3;++k) { u.col(k)<<PTS[k][0],PTS[k][1]; ref::Geo go(U.second,u(0,k),u(1,k),d==2),gd(pd,u(0,k),u(1,k),d==2); double t=0.1+0.05*go.x[0]-0.02*go.x[1],G[3],g[3]; for(int j=0;j<nz;++j) { z(j,k)=d==2?0.0:0.3*j-0.25+0.1*k; go.metric(z(j,k)*t,G); gd.metric(z(j,k)*t,g); may|=mayRefuse(local(L,go.x[0],go.x[1]),G,g); } }
                for(auto&o:outs) attempt(c,may,[&]{ const std::string&dn=defs[id].name; if ((dn=="id"||dn=="equi"||dn=="rot"||dn=="bend")&&(o.first.find("direction")!=std::string::npos||o.first.find("spec2")==0)) return; // equal principal values: directions are arbitrary
                    Mx R=o.second(*B.mat,1,u,z); c.state(3*nz); c.op(); if (!c.ok(R.cols()==3*nz,o.first+": number of columns")) return;
                    double s=R.cwiseAbs().maxCoeff(); for(int k=0;k<3;++k) for(int j=0;j<nz;++j) { Mx r=o.second(*A.mat,0,Mx(u.col(k)),Mx(z.block(j,k,1,1))); c.op(); c.closeM(R.col(j*3+k),r,1e-8,o.first+" in a batch, def="+defs[id].name,std::max(s,1e-10)); } });
            }
        }
    });
}
static Outs kinOuts()
{
    Outs o; typedef gsMaterialMatrixBase<real_t> M;
#define OUT(n,e) o.push_back({n,[](M&m,int p,const Mx&u,const Mx&z)->Mx{ return e; }});
    OUT("deformation",m.eval3D_deformation(p,u,z)) OUT("strain",m.eval3D_strain(p,u,z)) OUT("principal strain",m.eval3D_pstrain(p,u,z)) OUT("principal stretch",m.eval3D_pstretch(p,u,z)) OUT("stretch directions",m.eval3D_pstretchDir(p,u,z)) OUT("volume ratio",m.eval3D_detF(p,u,z,MaterialOutput::Generic))
    return o;
}
static Outs stressOuts()
{
    Outs o; typedef gsMaterialMatrixBase<real_t> M;
    OUT("Cauchy stress",m.eval3D_CauchyStress(p,u,z,MaterialOutput::Generic)) OUT("Cauchy vector",m.eval3D_CauchyVector(p,u,z,MaterialOutput::Generic)) OUT("principal stress",m.eval3D_pstress(p,u,z,MaterialOutput::Generic)) OUT("stress directions",m.eval3D_pstressDir(p,u,z,MaterialOutput::Generic)) OUT("principal Cauchy stress",m.eval3D_CauchyPStress(p,u,z,MaterialOutput::Generic))
    OUT("spec2cov",m.eval3D_spec2cov(p,u,z)) OUT("spec2con",m.eval3D_spec2con(p,u,z)) OUT("cov2cart",m.eval3D_cov2cart(p,u,z)) OUT("con2cart",m.eval3D_con2cart(p,u,z))
    return o;
}
#undef OUT

/// C03: kinematic outputs
template<enum MaterialOutput o> Mx evalOut(gsMaterialMatrixBase<real_t>*m,const gsMultiPatch<real_t>&def,const Mx&z,int patch,const Mx&u)
{ gsMaterialMatrixEval<real_t,o> e(m,&def,z); Mx r; e.piece(patch).eval_into(u,r); return r; }

template<int d> void kinematics(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?2:1)) for (auto&U:undeformed(d)) {
        std::string key="d="+std::to_string(d)+";law="+L.name+";geo="+U.first;
        ck.add(key,[=](Ctx&c){
            gsMultiPatch<real_t> ori=mpatch<d>(U.second);
            std::vector<std::string> ths={"0.05+0.02*x-0.01*y*y"}; if (d==3) ths.push_back("0.2+0.05*sin(x)+0.03*z");
            for (auto&ts:ths) {
                MatBox<d> B(L,ori,ts,"3.0+x*y"); gsFunctionExpr<real_t> tf(ts,d);
                for (auto&D:allDef(d,th)) {
                    ref::Poly pd=deform(U.second,D,d); gsMultiPatch<real_t> def=mpatch<d>(pd);
                    B.mat->setDeformed(&def);
                    std::vector<double> zs={0.0}; if (d==3) zs={-0.5,0.0,0.35};
                    for (int ip=0;ip<3;++ip) {
                        Mx u(2,1); u<<PTS[ip][0],PTS[ip][1];
                        ref::Geo go(U.second,u(0,0),u(1,0),d==2), gd(pd,u(0,0),u(1,0),d==2);
                        Mx xx(d,1); for(int i=0;i<d;++i) xx(i,0)=go.x[i];
                        double t=tf.eval(xx)(0,0), rho=3.0+go.x[0]*go.x[1];
                        std::string at0="def="+D.name+",t="+ts+",pt="+std::to_string(ip);
                        { Mx r; B.mat->thickness_into(0,u,r); c.close(r(0,0),t,std::abs(t),1e-10,"thickness "+at0);
                          B.mat->density_into(0,u,r); c.close(r(0,0),t*rho,std::abs(t*rho),1e-10,"density*thickness "+at0);
                          B.mat->parameters_into(0,u,r); c.ok(r.rows()==(int)L.pars.size(),"parameter count "+at0);
                          for(int i=0;i<r.rows()&&i<(int)L.pars.size();++i) c.close(r(i,0),L.pars[i],std::abs(L.pars[i]),1e-12,"parameter "+at0);
                          c.closeM(evalOut<MaterialOutput::Thickness>(B.mat.get(),def,Mx(),0,u),Mx::Constant(1,1,t),1e-10,"eval thickness "+at0);
                          c.closeM(evalOut<MaterialOutput::Density>(B.mat.get(),def,Mx(),0,u),Mx::Constant(1,1,t*rho),1e-10,"eval density "+at0);
                          c.closeM(evalOut<MaterialOutput::Parameters>(B.mat.get(),def,Mx(),0,u),r,1e-10,"eval parameters "+at0); }
                        for (double zz:zs) {
                            Mx z(1,1); z<<zz; double G[3],g[3]; ref::Resp R=response(L,go,gd,zz*t,G,g);
                            std::string at=at0+",z="+num(zz); c.state(); c.op();
                            double gs=std::max(g[0],g[1]);
                            Mx F=B.mat->eval3D_deformation(0,u,z);
                            c.close(F(0,0),g[0],gs,1e-10,"deformation C11 "+at); c.close(F(4,0),g[1],gs,1e-10,"deformation C22 "+at);
                            c.close(F(1,0),g[2],gs,1e-10,"deformation C12 "+at); c.close(F(3,0),g[2],gs,1e-10,"deformation C21 "+at);
                            if (!(L.comp&&L.mat)) c.close(F(8,0),R.C33,R.C33,1e-9,"deformation C33 "+at);
                            double e[3]={0.5*(g[0]-G[0]),0.5*(g[1]-G[1]),g[2]-G[2]};
                            c.closeM(B.mat->eval3D_strain(0,u,z),vec3(e),1e-10,"strain "+at,gs);
                            c.closeM(evalOut<MaterialOutput::Strain>(B.mat.get(),def,z,0,u),vec3(e),1e-10,"eval strain "+at,gs);
                            c.closeM(evalOut<MaterialOutput::Deformation>(B.mat.get(),def,z,0,u),F,1e-10,"eval deformation "+at,gs);
                            if (ip==0) { gsVector<real_t> uv=u.col(0); c.closeM(B.mat->eval3D_strain(0,uv,zz),vec3(e),1e-10,"strain (single point) "+at,gs);
                                typedef gsMaterialMatrixEval<real_t,MaterialOutput::Strain> Ev; gsMaterialMatrixContainer<real_t> mc; mc.add(B.mat.get()); Mx r;
                                { Ev x(B.mat,&def,z); x.piece(0).eval_into(u,r); c.closeM(r,vec3(e),1e-10,"eval strain, unique pointer "+at,gs); } { Ev x(B.mat,&ori,&def,z); x.piece(0).eval_into(u,r); c.closeM(r,vec3(e),1e-10,"eval strain, unique pointer, both geometries "+at,gs); }
                                { Ev x(mc,&def,z); x.piece(0).eval_into(u,r); c.closeM(r,vec3(e),1e-10,"eval strain, container "+at,gs); } { Ev x(mc,&ori,&def,z); x.piece(0).eval_into(u,r); c.closeM(r,vec3(e),1e-10,"eval strain, container, both geometries "+at,gs); } B.mat->setUndeformed(&ori); B.mat->setDeformed(&def); }
                            double l[2]; ref::eig2(G,g,l);
                            double et[3]={e[0],e[1],0.5*e[2]}, ep[2]; ref::eig2(G,et,ep); const double tl=D.name=="tiny"?1e-10:1e-7;
                            Mx P=B.mat->eval3D_pstrain(0,u,z); c.ok(P.rows()>=2,"pstrain rows "+at);
                            c.close(std::min(P(0,0),P(1,0)),ep[0],1,tl,"min principal strain "+at); c.close(std::max(P(0,0),P(1,0)),ep[1],1,tl,"max principal strain "+at);
                            c.ok(P(0,0)<=P(1,0)+1e-12,"principal strains ascending "+at);
                            V3 h1,h2,G1,G2; go.basis(zz*t,G1,G2); dual(G1,G2,h1,h2);
                            bool may=mayRefuse(L,G,g);
                            attempt(c,may,[&]{
                                Mx s=B.mat->eval3D_pstretch(0,u,z), v=sq3(B.mat->eval3D_pstretchDir(0,u,z));
                                c.ok(s.rows()==3,"pstretch rows "+at);
                                c.close(std::min(s(0,0),s(1,0)),std::sqrt(l[0]),1,tl,"min stretch "+at); c.close(std::max(s(0,0),s(1,0)),std::sqrt(l[1]),1,tl,"max stretch "+at);
                                c.close(s(2,0),std::sqrt(R.C33),1,1e-7,"thickness stretch "+at);
                                Mx V=v.transpose()*v; c.closeM(V,Mx::Identity(3,3),1e-8,"orthonormal stretch directions "+at);
                                Mx T=s(0,0)*s(0,0)*v.col(0)*v.col(0).transpose()+s(1,0)*s(1,0)*v.col(1)*v.col(1).transpose();
                                c.closeM(T,tens(g,h1,h2),tl,"spectral form of the deformation tensor "+at,1);
                                if (zz==0.0&&L.comp&&L.mat) { Mx q,w; B.mat->pstretch_into(0,u,q); c.closeM(q,s,1e-7,"mid-surface stretches "+at,1); B.mat->pstretchDir_into(0,u,w); w=sq3(w); c.ok(w.rows()==3,"mid-surface stretch directions: size "+at);
                                    c.closeM(Mx(w.transpose()*w),Mx::Identity(3,3),1e-8,"orthonormal mid-surface stretch directions "+at); Mx T2=q(0,0)*q(0,0)*w.col(0)*w.col(0).transpose()+q(1,0)*q(1,0)*w.col(1)*w.col(1).transpose(); c.closeM(T2,tens(g,h1,h2),1e-7,"spectral form by mid-surface stretches "+at,1); }
                                double al=0; for(int i=0;i<3;++i) al+=v(i,2)*go.n[i]; c.close(std::abs(al),1,1,1e-8,"third direction is the normal "+at);
                                c.closeM(evalOut<MaterialOutput::Stretch>(B.mat.get(),def,z,0,u),s,1e-9,"eval stretch "+at,1);
                                c.closeM(evalOut<MaterialOutput::StretchDir>(B.mat.get(),def,z,0,u),B.mat->eval3D_pstretchDir(0,u,z),1e-9,"eval stretchdir "+at,1);
                                double J=L.mat==0?R.J:(L.comp?R.J:1.0);
                                c.close(B.mat->eval3D_detF(0,u,z,MaterialOutput::Generic)(0,0),J,1,1e-7,"volume ratio "+at);
                                if (L.mat && !L.comp) c.close(s(0,0)*s(1,0)*s(2,0),1,1,1e-8,"volume preservation "+at);
                            });
                        }
                    }
                }
            }
        });
    }
}

/// C04: objectivity and parametrisation independence
template<int d> struct Phys { Mx S,M,C,N,A,Dd; double t1,t2,p1,p2; bool ok=true; };
static Mx push4(const Mx&C9,const V3&g1,const V3&g2)
{   // C^{abcd} g_a g_b g_c g_d as a 9x9 array
    Mx g[2]={v3m(g1),v3m(g2)}; int I[3]={0,1,0},J[3]={0,1,1}; Mx R(9,9); R.setZero();
    auto vv=[&](int i,int j){ Mx T=g[i]*g[j].transpose()+g[j]*g[i].transpose(); if(i==j) T*=0.5; Mx r(9,1); for(int k=0;k<9;++k) r(k,0)=T(k%3,k/3); return r; };
    for(int p=0;p<3;++p)for(int q=0;q<3;++q) R+=C9(p+3*q,0)*vv(I[p],J[p])*vv(I[q],J[q]).transpose();
    return R;
}
template<enum MaterialOutput o> Mx integ(gsMaterialMatrixBase<real_t>*m,const gsMultiPatch<real_t>&def,int patch,const Mx&u)
{ gsMaterialMatrixIntegrate<real_t,o> e(m,&def); Mx r; e.piece(patch).eval_into(u,r); return r; }

template<int d> Phys<d> physical(const LawDef&L,const ref::Poly&pu,const ref::Poly&pd,double x,double y,double zz,const std::string&ts,double sgn)
{
    Phys<d> P; gsMultiPatch<real_t> ori=mpatch<d>(pu), def=mpatch<d>(pd); MatBox<d> B(L,ori,ts); double t=atof(ts.c_str());
    B.mat->setDeformed(&def); Mx u(2,1); u<<x,y; Mx z(1,1); z<<zz; ref::Geo go(pu,x,y,d==2); V3 g1,g2; go.basis(zz*t,g1,g2);
    try {
        Mx s=B.mat->eval3D_stress(0,u,z,MaterialOutput::Generic); double sv[3]={s(0,0),s(1,0),s(2,0)}; P.S=tens(sv,g1,g2);
        V3 m1=L.mat==0?go.a1:g1,m2=L.mat==0?go.a2:g2; P.S=tens(sv,m1,m2); // moduli of the linear law live on the mid surface
        P.C=push4(B.mat->eval3D_matrix(0,u,z,MaterialOutput::Generic),m1,m2);
        Mx st=B.mat->eval3D_pstretch(0,u,z); P.t1=std::min(st(0,0),st(1,0)); P.t2=std::max(st(0,0),st(1,0));
        Mx ps=B.mat->eval3D_pstress(0,u,z,MaterialOutput::Generic); P.p1=std::min(ps(0,0),ps(1,0)); P.p2=std::max(ps(0,0),ps(1,0));
        // resultants: per-height tensors of hyperelastic laws live on the shifted basis; compare through the linear law only for curved undeformed geometry
        Mx n=integ<MaterialOutput::VectorN>(B.mat.get(),def,0,u), mm=integ<MaterialOutput::VectorM>(B.mat.get(),def,0,u);
        double nv[3]={n(0,0),n(1,0),n(2,0)},mv[3]={mm(0,0),mm(1,0),mm(2,0)};
        P.N=tens(nv,go.a1,go.a2); P.M=sgn*tens(mv,go.a1,go.a2);
        P.A=push4(integ<MaterialOutput::MatrixA>(B.mat.get(),def,0,u),go.a1,go.a2);
        P.Dd=push4(integ<MaterialOutput::MatrixD>(B.mat.get(),def,0,u),go.a1,go.a2);
    } catch(const std::runtime_error&) { P.ok=false; }
    return P;
}
/// rotated tensors for comparison
static Mx rotT(const Mx&T,const ref::M3&R){ Mx Q(3,3); for(int i=0;i<3;++i)for(int j=0;j<3;++j)Q(i,j)=R.m[i][j]; return Q*T*Q.transpose(); }
static Mx rot4(const Mx&C,const ref::M3&R){ Mx Q(9,9); for(int i=0;i<3;++i)for(int j=0;j<3;++j)for(int k=0;k<3;++k)for(int l=0;l<3;++l) Q(i+3*j,k+3*l)=R.m[i][k]*R.m[j][l]; return Q*C*Q.transpose(); }

template<int d> void objectivity(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?2:1)) for (auto&U:undeformed(d)) {
        std::string key="d="+std::to_string(d)+";law="+L.name+";geo="+U.first;
        ck.add(key,[=](Ctx&c){
            std::string ts=d==3?"0.2":"0.05"; double t=atof(ts.c_str());
            std::vector<double> zs={0.0}; if (d==3) zs={-0.4,0.3};
            bool affine=true; for(int i=0;i<3;++i)for(int j=0;j<3;++j) if(i+j>1) for(int k=0;k<3;++k) if(U.second.c[i][j][k]!=0) affine=false;
            std::vector<ref::M3> rots; if (d==3) rots={ref::rot({{0,0,1}},0.7),ref::rot({{1,0,0}},M_PI/2),ref::rot({{0.3,-1,0.5}},2.2)}; else rots={ref::rot({{0,0,1}},0.7),ref::rot({{0,0,1}},2.6)};
            for (auto&D:deformations(d)) for (int ip=0;ip<2;++ip) for (double zz:zs) {
                ref::Poly pu=U.second,pd=deform(pu,D,d); double x=PTS[ip][0],y=PTS[ip][1];
                ref::Geo go(pu,x,y,d==2),gd(pd,x,y,d==2); double G[3],g[3]; ref::Resp R=response(L,go,gd,zz*t,G,g);
                // stay clear of states that may be refused anywhere over the thickness
                bool skip=false; for(double q:{-0.5,0.0,0.5,zz}) { double Gq[3],gq[3]; go.metric(q*t,Gq); gd.metric(q*t,gq); if (mayRefuse(L,Gq,gq)) skip=true; }
                if (skip) continue;
                Phys<d> b=physical<d>(L,pu,pd,x,y,zz,ts,1); c.state();
                std::string at="def="+D.name+",pt="+std::to_string(ip)+",z="+num(zz);
                c.ok(b.ok,"evaluates "+at); if(!b.ok) continue;
                double cs=b.C.cwiseAbs().maxCoeff(), sf=0.1*cs, as=b.A.cwiseAbs().maxCoeff(), ds=b.Dd.cwiseAbs().maxCoeff();
                auto cmp=[&](const Phys<d>&p,const ref::M3*Q,const std::string&w,bool planarRes){
                    c.op(); if(!c.ok(p.ok,w+": evaluates "+at)) return;
                    c.closeM(p.S,Q?rotT(b.S,*Q):b.S,1e-7,w+": stress "+at,sf); c.closeM(p.C,Q?rot4(b.C,*Q):b.C,1e-6,w+": tangent "+at,cs);
                    c.close(p.t1,b.t1,1,1e-7,w+": stretch "+at); c.close(p.t2,b.t2,1,1e-7,w+": stretch "+at);
                    c.close(p.p1,b.p1,sf,1e-7,w+": principal stress "+at); c.close(p.p2,b.p2,sf,1e-7,w+": principal stress "+at);
                    if (!planarRes) return;
                    c.closeM(p.N,Q?rotT(b.N,*Q):b.N,1e-6,w+": membrane force "+at,0.1*as); c.closeM(p.M,Q?rotT(b.M,*Q):b.M,1e-6,w+": moment "+at,0.1*as*t);
                    c.closeM(p.A,Q?rot4(b.A,*Q):b.A,1e-6,w+": membrane stiffness "+at,as); c.closeM(p.Dd,Q?rot4(b.Dd,*Q):b.Dd,1e-6,w+": bending stiffness "+at,ds);
                };
                V3 tr={{0.7,-1.3,d==3?2.1:0.0}};
                for(size_t r=0;r<rots.size();++r){ std::string rn=std::to_string(r);
                    cmp(physical<d>(L,pu,pd.lin(rots[r],tr),x,y,zz,ts,1),nullptr,"rotated deformed "+rn,true);
                    cmp(physical<d>(L,pu.lin(rots[r],tr),pd,x,y,zz,ts,1),&rots[r],"rotated undeformed "+rn,true);
                    cmp(physical<d>(L,pu.lin(rots[r],tr),pd.lin(rots[r],tr),x,y,zz,ts,1),&rots[r],"rotated both "+rn,true); }
                for(int m=1;m<8;++m){ bool sw=m&1,fx=m&2,fy=m&4; int orient=(sw?-1:1)*(fx?-1:1)*(fy?-1:1);
                    if (d==2 && orient<0) continue; // planar problems need positively oriented patches
                    double a=fx?1-x:x,bb=fy?1-y:y; if(sw) std::swap(a,bb);
                    cmp(physical<d>(L,pu.reparam(sw,fx,fy),pd.reparam(sw,fx,fy),a,bb,orient*zz,ts,orient),nullptr,"reparametrised "+std::to_string(m),true); }
                { double x0=0.1,x1=0.9,y0=0,y1=0.8; if (y<=y1) cmp(physical<d>(L,pu.restrict_(x0,x1,y0,y1),pd.restrict_(x0,x1,y0,y1),(x-x0)/(x1-x0),(y-y0)/(y1-y0),zz,ts,1),nullptr,"scaled parameters",true); }
                if (affine && D.bend==0) { // skewed parameters: x'=x-0.5y
                    auto skew=[&](const ref::Poly&p){ ref::Poly q=p; q.c[0][1]=p.c[0][1]+0.5*p.c[1][0]; return q; };
                    cmp(physical<d>(L,skew(pu),skew(pd),x-0.5*y,y,zz,ts,1),nullptr,"skewed parameters",true); }
            }
        });
    }
}

/// C05: thickness resultants against own quadrature of the reference response
template<int d> struct LayerMat : public gsMaterialMatrixBaseDim<d,real_t>
{   // synthetic material: polynomial variation over the height, declared as a given integration class
    typedef gsMaterialMatrixBaseDim<d,real_t> Base; GISMO_CLONE_FUNCTION(LayerMat)
    MatIntegration vi,mi; int dv,dm; 
    LayerMat(const gsFunctionSet<real_t>*mp,const gsFunctionSet<real_t>*t,MatIntegration v,MatIntegration m,int dv_,int dm_):Base(mp,t,t),vi(v),mi(m),dv(dv_),dm(dm_){ this->m_options.addInt("NumGauss","",4); }
    MatIntegration isVecIntegrated() const override{return vi;} MatIntegration isMatIntegrated() const override{return mi;}
    bool initialized() const override { return true; }
    static double val(int i,double zt,double x,int deg){ double r=(1+i)+0.3*x; if(deg>=1) r+=(2.0-0.7*i)*zt; if(deg>=2) r+=(3.0+i)*zt*zt; return r; }
    Mx ev(int n,const Mx&u,const Mx&z,int deg) const { Mx T; this->thickness_into(0,u,T); Mx r(n,u.cols()*z.rows()); for(int k=0;k<u.cols();++k)for(int j=0;j<z.rows();++j)for(int i=0;i<n;++i) r(i,j*u.cols()+k)=val(i,z(j,k)*T(0,k),u(0,k),deg); return r; }
    gsMatrix<real_t> eval3D_matrix(const index_t,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput) const override { return ev(9,u,z,dm); }
    gsMatrix<real_t> eval3D_vector(const index_t,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput) const override { return ev(3,u,z,dv); }
    gsMatrix<real_t> eval3D_CauchyVector(const index_t,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput) const override { return ev(3,u,z,dv); }
    gsMatrix<real_t> eval3D_pstress(const index_t,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput) const override { return ev(2,u,z,dv); }
    std::ostream& print(std::ostream&o) const override { return o; }
};
template<int d> void resultants(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?2:1)) for (auto&U:undeformed(d)) {
        std::string key="d="+std::to_string(d)+";law="+L.name+";geo="+U.first;
        ck.add(key,[=](Ctx&c){
            gsMultiPatch<real_t> ori=mpatch<d>(U.second);
            std::vector<std::string> ths={"0.1+0.04*x"}; if (d==3) ths.push_back("0.25-0.02*x*y");
            std::vector<int> ngs=L.mat==0?std::vector<int>{4}:(th?std::vector<int>{1,2,3,4,5,8}:std::vector<int>{1,2,4,5});
            for (auto&ts:ths) {
                MatBox<d> B(L,ori,ts); gsFunctionExpr<real_t> tf(ts,d);
                for (auto&D:deformations(d)) for (int ng:ngs) {
                    ref::Poly pd=deform(U.second,D,d); gsMultiPatch<real_t> def=mpatch<d>(pd);
                    B.mat->options().setInt("NumGauss",ng);
                    gsGaussRule<real_t> rule(ng); Mx qn; gsVector<real_t> qw; rule.mapTo(-0.5,0.5,qn,qw);
                    Mx u(2,3); for(int ip=0;ip<3;++ip) u.col(ip)<<PTS[ip][0],PTS[ip][1];
                    Mx E[8]; for(int i=0;i<8;++i) E[i]=Mx::Zero(i<4?3:9,3); bool may=false; double cs=0,cst=0;
                    for(int ip=0;ip<3;++ip){
                        ref::Geo go(U.second,u(0,ip),u(1,ip),d==2), gd(pd,u(0,ip),u(1,ip),d==2);
                        Mx xx(d,1); for(int i=0;i<d;++i) xx(i,0)=go.x[i]; double t=tf.eval(xx)(0,0);
                        if (L.mat==0) { double G[3],g[3]; ref::Resp R=response(L,go,gd,0,G,g); Mx C=sq3(asM(R));
                            double k[3]={go.bb[0]-gd.bb[0],go.bb[1]-gd.bb[1],2*(go.bb[2]-gd.bb[2])};
                            E[0].col(ip)=t*vec3(R.S); E[1].col(ip)=t*t*t/12*C*vec3(k);
                            E[2].col(ip)=E[0].col(ip)/R.J; E[3].col(ip)=E[1].col(ip)/R.J;
                            E[4].col(ip)=t*asM(R); E[7].col(ip)=t*t*t/12*asM(R); cs=std::max(cs,C.cwiseAbs().maxCoeff()*t); cst=std::max(cst,t); }
                        else for(int q=0;q<ng;++q){ double zt=qn(0,q)*t,w=qw[q]*t,G[3],g[3]; ref::Resp R=response(L,go,gd,zt,G,g); may|=mayRefuse(L,G,g);
                            double J=L.comp?R.J:1.0;
                            E[0].col(ip)+=w*vec3(R.S); E[1].col(ip)+=w*zt*vec3(R.S); E[2].col(ip)+=w/J*vec3(R.S); E[3].col(ip)+=w*zt/J*vec3(R.S);
                            E[4].col(ip)+=w*asM(R); E[5].col(ip)+=w*zt*asM(R); E[6].col(ip)+=w*zt*asM(R); E[7].col(ip)+=w*zt*zt*asM(R);
                            cs=std::max(cs,asM(R).cwiseAbs().maxCoeff()*t); cst=std::max(cst,t); }
                    }
                    std::string at="def="+D.name+",t="+ts+",ng="+std::to_string(ng); c.state();
                    attempt(c,may,[&]{ auto*m=B.mat.get();
                        c.closeM(integ<MaterialOutput::VectorN>(m,def,0,u),E[0],1e-6,"N "+at,0.1*cs); c.closeM(integ<MaterialOutput::VectorM>(m,def,0,u),E[1],1e-6,"M "+at,0.1*cs*cst);
                        c.closeM(integ<MaterialOutput::MatrixA>(m,def,0,u),E[4],1e-6,"A "+at,cs); c.closeM(integ<MaterialOutput::MatrixB>(m,def,0,u),E[5],1e-6,"B "+at,0.1*cs*cst);
                        c.closeM(integ<MaterialOutput::MatrixC>(m,def,0,u),E[6],1e-6,"C "+at,0.1*cs*cst); c.closeM(integ<MaterialOutput::MatrixD>(m,def,0,u),E[7],1e-6,"D "+at,0.05*cs*cst*cst);
                        c.closeM(integ<MaterialOutput::CauchyVectorN>(m,def,0,u),E[2],1e-6,"Cauchy N "+at,0.1*cs); c.closeM(integ<MaterialOutput::CauchyVectorM>(m,def,0,u),E[3],1e-6,"Cauchy M "+at,0.1*cs*cst);
                        c.op(8); });
                }
            }
        });
    }
    // classes of through-thickness variation
    for (int vi=0;vi<4;++vi) for (int mi=0;mi<4;++mi) for (int nu=1;nu<=3;++nu) ck.add("d="+std::to_string(d)+";class="+std::to_string(vi)+","+std::to_string(mi)+";points="+std::to_string(nu),[=](Ctx&c){
        for (auto&U:undeformed(d)) for (std::string ts:{"0.1","0.2+0.1*x"}) {
            gsMultiPatch<real_t> ori=mpatch<d>(U.second); gsFunctionExpr<real_t> tf(ts,d);
            auto degOf=[](MatIntegration I){ return I==MatIntegration::NotIntegrated?2:I==MatIntegration::Linear?1:0; };
            MatIntegration Iv=(MatIntegration)vi,Im=(MatIntegration)mi;
            LayerMat<d> m(&ori,&tf,Iv,Im,degOf(Iv),degOf(Im)); Mx u(2,nu); for(int k=0;k<nu;++k) u.col(k)<<PTS[k][0],PTS[k][1];
            Mx T; m.thickness_into(0,u,T);
            auto expect=[&](int n,int mom,MatIntegration I){ Mx E(n,nu); for(int k=0;k<nu;++k)for(int i=0;i<n;++i){ double t=T(0,k),r=0;
                if (I==MatIntegration::Integrated) r=m.val(i,0,u(0,k),0);
                else { gsGaussRule<real_t> g(6); Mx qn; gsVector<real_t> qw; g.mapTo(-t/2,t/2,qn,qw); for(int q=0;q<6;++q) r+=qw[q]*std::pow(qn(0,q),mom)*m.val(i,qn(0,q),u(0,k),degOf(I)); }
                E(i,k)=r; } return E; };
            c.state(); c.op(10);
            double fl=0.01*std::max(expect(9,0,Iv).cwiseAbs().maxCoeff(),expect(9,0,Im).cwiseAbs().maxCoeff());
            int mM=Iv==MatIntegration::Constant?2:1; // constant class: the vector returned for M multiplies z
            c.closeM(integ<MaterialOutput::VectorN>(&m,ori,0,u),expect(3,0,Iv),1e-10,"N "+U.first+ts); c.closeM(integ<MaterialOutput::VectorM>(&m,ori,0,u),expect(3,mM,Iv),1e-10,"M "+U.first+ts,fl);
            c.closeM(integ<MaterialOutput::CauchyVectorN>(&m,ori,0,u),expect(3,0,Iv),1e-10,"Cauchy N "+U.first+ts); c.closeM(integ<MaterialOutput::CauchyVectorM>(&m,ori,0,u),expect(3,mM,Iv),1e-10,"Cauchy M "+U.first+ts,fl);
            c.closeM(integ<MaterialOutput::MatrixA>(&m,ori,0,u),expect(9,0,Im),1e-10,"A "+U.first+ts); c.closeM(integ<MaterialOutput::MatrixB>(&m,ori,0,u),expect(9,1,Im),1e-10,"B "+U.first+ts,fl);
            c.closeM(integ<MaterialOutput::MatrixC>(&m,ori,0,u),expect(9,1,Im),1e-10,"C "+U.first+ts,fl); c.closeM(integ<MaterialOutput::MatrixD>(&m,ori,0,u),expect(9,2,Im),1e-10,"D "+U.first+ts);
            if (vi==mi && Iv!=MatIntegration::Constant) { c.closeM(integ<MaterialOutput::PStressN>(&m,ori,0,u),expect(2,0,Iv),1e-10,"principal N "+U.first+ts); c.closeM(integ<MaterialOutput::PStressM>(&m,ori,0,u),expect(2,1,Iv),1e-10,"principal M "+U.first+ts,fl); }
            // every way of constructing the integrator
            { typename gsMaterialMatrixBase<real_t>::uPtr q(new LayerMat<d>(m)); gsMaterialMatrixContainer<real_t> mc; mc.add(m); Mx r,e=integ<MaterialOutput::VectorN>(&m,ori,0,u); typedef gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> I;
              { I x(q,&ori); x.piece(0).eval_into(u,r); c.closeM(r,e,1e-13,"unique pointer "+U.first+ts); } { I x(q,&ori,&ori); x.piece(0).eval_into(u,r); c.closeM(r,e,1e-13,"unique pointer, both geometries "+U.first+ts); }
              { I x(mc,&ori); x.piece(0).eval_into(u,r); c.closeM(r,e,1e-13,"container "+U.first+ts); } { I x(mc,&ori,&ori); x.piece(0).eval_into(u,r); c.closeM(r,e,1e-13,"container, both geometries "+U.first+ts); } { I x(&m,&ori,&ori); x.piece(0).eval_into(u,r); c.closeM(r,e,1e-13,"pointer, both geometries "+U.first+ts); } }
        }
    });
}

/// C06: the outputs offered by a material as operations
typedef gsMaterialMatrixBase<real_t> MB;
struct Op { std::string name; std::function<Mx(const MB&,int,const Mx&,const Mx&)> f; bool usesZ; };
static std::vector<Op> matOps(const LawDef&L)
{
    std::vector<Op> o;
#define OP(n,e) o.push_back({n,[](const MB&m,int p,const Mx&u,const Mx&z)->Mx{ return e; },true})
    OP("stress",m.eval3D_stress(p,u,z,MaterialOutput::Generic)); OP("vectorN",m.eval3D_vector(p,u,z,MaterialOutput::VectorN)); OP("vectorM",m.eval3D_vector(p,u,z,MaterialOutput::VectorM));
    OP("matrix",m.eval3D_matrix(p,u,z,MaterialOutput::MatrixA)); OP("cauchy",m.eval3D_CauchyStress(p,u,z,MaterialOutput::Generic)); OP("cauchyvec",m.eval3D_CauchyVector(p,u,z,MaterialOutput::CauchyVectorN));
    OP("pstress",m.eval3D_pstress(p,u,z,MaterialOutput::PStress)); OP("pcauchy",m.eval3D_CauchyPStress(p,u,z,MaterialOutput::PCauchyStressN)); OP("pstressDir",m.eval3D_pstressDir(p,u,z,MaterialOutput::PStressDir));
    OP("pstretch",m.eval3D_pstretch(p,u,z)); OP("pstretchDir",m.eval3D_pstretchDir(p,u,z)); OP("pstrain",m.eval3D_pstrain(p,u,z)); OP("strain",m.eval3D_strain(p,u,z));
    OP("detF",m.eval3D_detF(p,u,z,MaterialOutput::Generic)); OP("deformation",m.eval3D_deformation(p,u,z)); OP("spec2cov",m.eval3D_spec2cov(p,u,z)); OP("spec2con",m.eval3D_spec2con(p,u,z));
    OP("cov2cart",m.eval3D_cov2cart(p,u,z)); OP("con2cart",m.eval3D_con2cart(p,u,z)); OP("tensionfield",m.eval3D_tensionfield(p,u,z,MaterialOutput::TensionField));
    if (L.mat==1&&!L.comp) OP("dmatrix",m.eval3D_dmatrix(p,u,z,MaterialOutput::Generic));
#undef OP
    o.push_back({"thickness",[](const MB&m,int p,const Mx&u,const Mx&)->Mx{ Mx r; m.thickness_into(p,u,r); return r; },false});
    o.push_back({"density",[](const MB&m,int p,const Mx&u,const Mx&)->Mx{ Mx r; m.density_into(p,u,r); return r; },false});
    o.push_back({"parameters",[](const MB&m,int p,const Mx&u,const Mx&)->Mx{ Mx r; m.parameters_into(p,u,r); return r; },false});
    if (L.comp&&L.mat) { o.push_back({"pstretch_into",[](const MB&m,int p,const Mx&u,const Mx&)->Mx{ Mx r; m.pstretch_into(p,u,r); return r; },false});
        o.push_back({"pstretchDir_into",[](const MB&m,int p,const Mx&u,const Mx&)->Mx{ Mx r; m.pstretchDir_into(p,u,r); return r; },false}); }
    return o;
}
/// two-patch material with parameters varying in space
template<int d> struct Scene
{
    gsMultiPatch<real_t> ori,defA,defB; LawDef L; std::vector<gsFunctionExpr<real_t>> pf; gsFunctionExpr<real_t> t,rho;
    Scene(const LawDef&l,int var=0):L(l),t(var?"0.03+0.02*y":"0.05+0.02*x",d),rho(var?"2+y":"1+x",d)
    {
        auto us=undeformed(d); auto ds=deformations(d); auto get=[&](const char*n){ for(auto&x:us) if(x.first==n) return x.second; return us[0].second; };
        auto def=[&](const char*n){ for(auto&x:ds) if(x.name==n) return x; return ds[0]; };
        ref::Poly a=get(d==3?"curved":"quad"), b=get("skew");
        ori.addPatch(a.template spline<d>()); ori.addPatch(b.template spline<d>());
        defA.addPatch(deform(a,def(d==3?"genbend":"gen"),d).template spline<d>()); defA.addPatch(deform(b,def("uni"),d).template spline<d>());
        defB.addPatch(deform(a,def("shear"),d).template spline<d>()); defB.addPatch(deform(b,def(d==3?"bend":"comp"),d).template spline<d>());
        for(size_t i=0;i<l.pars.size();++i) pf.push_back(gsFunctionExpr<real_t>((i==1?num(l.pars[i]):num(l.pars[i])+"*(1+0.1*x"+(var?"*y":"")+")"),d));
    }
    std::vector<gsFunctionSet<real_t>*> ptr(){ std::vector<gsFunctionSet<real_t>*> r; for(auto&f:pf) r.push_back(&f); return r; }
    typename MB::uPtr make(){ gsOptionList o; o.addInt("Material","",L.mat); o.addSwitch("Compressibility","",L.comp); o.addInt("Implementation","",L.imp); auto p=ptr(); return getMaterialMatrix<d,real_t>(ori,t,p,rho,o); }
};
static bool same(const Mx&a,const Mx&b,double tol=1e-9)
{ if(a.rows()!=b.rows()||a.cols()!=b.cols()) return false; if(!a.size()) return true; double s=b.cwiseAbs().maxCoeff(); return (a-b).cwiseAbs().maxCoeff()<=tol*std::max(s,1e-12); }
static Mx batchU(int mask){ // non-empty ordered selections of the points
    static const std::vector<std::vector<int>> B={{0},{1},{2},{0,1},{1,0},{2,1},{0,2},{0,1,2},{2,0,1},{1,1,0},{2,1,0,0,1}}; auto&b=B[mask]; Mx u(2,b.size()); for(size_t i=0;i<b.size();++i) u.col(i)<<PTS[b[i]][0],PTS[b[i]][1]; return u; }
static const int NB=11;
static Mx batchZ(int which,int n){ static const double zz[4][3]={{0,0,0},{-0.3,0,0},{0.4,-0.5,0},{0.1,0.5,-0.2}}; static const int nr[4]={1,1,2,3}; Mx z(nr[which],n); for(int j=0;j<nr[which];++j)for(int k=0;k<n;++k) z(j,k)=zz[which][j]+(which?0.05*k:0); return z; }

template<int d> void purity(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,1)) {
        auto nops=matOps(L).size();
        // (a) batch = singles
        ck.add("d="+std::to_string(d)+";law="+L.name+";batch",[=](Ctx&c){
            Scene<d> S(L); auto ops=matOps(L);
            for (auto&o:ops) for (int p=0;p<2;++p) for (int b=0;b<NB;++b) for (int w=0;w<(o.usesZ?4:1);++w) {
                Mx u=batchU(b), z=batchZ(w,u.cols()); auto m=S.make(); m->setDeformed(&S.defA);
                Mx R=o.f(*m,p,u,z); c.state();
                int nz=o.usesZ?z.rows():1; if(!c.ok(R.cols()==u.cols()*nz,"number of results "+o.name)) continue;
                for (int k=0;k<u.cols();++k) for(int j=0;j<nz;++j) {
                    auto m1=S.make(); m1->setDeformed(&S.defA); Mx u1=u.col(k), z1=z.block(j,k,1,1);
                    Mx r1=o.f(*m1,p,u1,z1); c.op();
                    c.ok(same(R.col(j*u.cols()+k),r1),"batch value "+o.name+" patch "+std::to_string(p)+" batch "+std::to_string(b)+" z "+std::to_string(w)); }
            }
        });
        // (b) histories: every ordered pair of operations, with and without a change of the deformed geometry in between
        for (size_t i=0;i<nops;++i) ck.add("d="+std::to_string(d)+";law="+L.name+";first="+matOps(L)[i].name,[=](Ctx&c){
            Scene<d> S(L),S2(L,1); auto ops=matOps(L);
            std::map<std::array<long,4>,Mx> memo;
            for (int chg=0;chg<4;++chg) for (size_t k=0;k<ops.size();++k) for (int p1=0;p1<2;++p1) for(int p2=0;p2<2;++p2) for(int b1:{0,8}) for(int b2:{0,7}) {
                if (!th && (b1==0) != (p1!=p2)) continue; // quick: single point first call on the other patch, batch on the same one
                // reference: fresh object, computed once per (change, operation, patch, batch)
                Mx u1=batchU(b1),z1=batchZ(b1?2:1,u1.cols()),u2=batchU(b2),z2=batchZ(b2?3:2,u2.cols());
                std::array<long,4> rk={{chg,(long)k,p2,b2}}; auto it=memo.find(rk);
                if (it==memo.end()) {
                auto fr=S.make(); fr->setDeformed(chg==1?&S.defB:&S.defA); if (chg==2) fr->setThickness(S2.t); if (chg==3) for(size_t q=0;q<L.pars.size();++q) fr->setParameter(q,S2.pf[q]);
                it=memo.insert({rk,ops[k].f(*fr,p2,u2,z2)}).first; }
                const Mx&X=it->second;
                auto m=S.make(); m->setDeformed(&S.defA); ops[i].f(*m,p1,u1,z1); c.op();
                if (chg==1) m->setDeformed(&S.defB); if (chg==2) m->setThickness(S2.t); if (chg==3) for(size_t q=0;q<L.pars.size();++q) m->setParameter(q,S2.pf[q]);
                Mx Y=ops[k].f(*m,p2,u2,z2); c.op(); c.state();
                c.ok(same(Y,X),"history "+ops[i].name+"@"+std::to_string(p1)+" chg"+std::to_string(chg)+" then "+ops[k].name+"@"+std::to_string(p2));
                if (th) { Mx Y2=ops[i].f(*m,p1,u1,z1); Mx Y3=ops[k].f(*m,p2,u2,z2); c.op(2); c.state(); c.ok(same(Y3,X),"history3 "+ops[i].name+" then "+ops[k].name); }
            }
        });
        // (c) evaluators and integrators over containers with different materials per patch
        ck.add("d="+std::to_string(d)+";law="+L.name+";container",[=](Ctx&c){
            auto ls=laws(false,1);
            for (auto&L2:ls) for (int order=0;order<2;++order) {
                if (!th && L2.imp==2) continue; // quick: the partner implementation variants are left to the thorough tier
                Scene<d> S1(L),S2(L2,1); auto m0=S1.make(), m1=S2.make(); gsMaterialMatrixContainer<real_t> mc(2);
                mc.set(0,order?m1.get():m0.get()); mc.set(1,order?m0.get():m1.get());
                for (int b:{0,7}) { Mx u=batchU(b),z=batchZ(2,1);
#define EV(o) { gsMaterialMatrixEval<real_t,MaterialOutput::o> e(mc,&S1.defA,z); gsMaterialMatrixEval<real_t,MaterialOutput::o> e2(mc,&S1.ori,&S1.defA,z); for(int rep=0;rep<2;++rep) for(int p=0;p<2;++p){ Mx r; e.piece(p).eval_into(u,r); Mx r2; e2.piece(p).eval_into(u,r2); \
                    Scene<d> F((p==0)==(order==0)?L:L2,(p==0)==(order==0)?0:1); auto fm=F.make(); gsMaterialMatrixEvalSingle<real_t,MaterialOutput::o> fe(p,fm.get(),&F.defA,z); Mx x; fe.eval_into(u,x); c.state(); c.op(); \
                    c.ok(same(r,x),"container eval " #o " patch "+std::to_string(p)+" with "+L2.name); c.ok(same(r2,x),"container eval with undeformed " #o " patch "+std::to_string(p)+" with "+L2.name);\
                    c.ok(r.rows()==0||e.targetDim()>0,"target dimension"); } }
#define IN(o) { gsMaterialMatrixIntegrate<real_t,MaterialOutput::o> e(mc,&S1.defA); gsMaterialMatrixIntegrate<real_t,MaterialOutput::o> e2(mc,&S1.ori,&S1.defA); for(int rep=0;rep<2;++rep) for(int p=0;p<2;++p){ Mx r; e.piece(p).eval_into(u,r); Mx r2; e2.piece(p).eval_into(u,r2); \
                    Scene<d> F((p==0)==(order==0)?L:L2,(p==0)==(order==0)?0:1); auto fm=F.make(); gsMaterialMatrixIntegrateSingle<real_t,MaterialOutput::o> fe(p,fm.get(),&F.defA); Mx x; fe.eval_into(u,x); c.state(); c.op(); \
                    c.ok(same(r,x),"container integral " #o " patch "+std::to_string(p)+" with "+L2.name); c.ok(same(r2,x),"container integral with undeformed " #o " patch "+std::to_string(p)+" with "+L2.name); } }
                    EV(VectorN) EV(MatrixA) EV(StressN) EV(CauchyStressN) EV(PStress) EV(PCauchyStressN) EV(Stretch) EV(Strain) EV(TensionField) EV(Density) EV(Spec2CovTransform) EV(Deformation)
                    IN(VectorN) IN(VectorM) IN(MatrixA) IN(MatrixB) IN(MatrixC) IN(MatrixD) IN(CauchyVectorN) IN(Density)
                }
                // one material for all patches
                { Mx u=batchU(7); Scene<d> A(L),Bq(L); auto ma=A.make(); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> e(ma.get(),&A.ori,&A.defA); gsMaterialMatrixEval<real_t,MaterialOutput::StressN> ee(ma.get(),&A.ori,&A.defA,Mx());
                  for(int p=0;p<2;++p){ Mx r,r2; e.piece(p).eval_into(u,r); ee.piece(p).eval_into(u,r2); auto mb=Bq.make(); gsMaterialMatrixIntegrateSingle<real_t,MaterialOutput::VectorN> fe(p,mb.get(),&Bq.defA); Mx x,x2; fe.eval_into(u,x);
                    Mx z0(1,1); z0<<0; gsMaterialMatrixEvalSingle<real_t,MaterialOutput::StressN> f2(p,mb.get(),&Bq.defA,z0); f2.eval_into(u,x2);
                    c.ok(same(r,x),"single material integral patch "+std::to_string(p)); c.ok(same(r2,x2),"single material eval patch "+std::to_string(p)); } }
            }
        });
    }
}

/// C09: identity under factory, copy, clone and XML
template<int d> static bool rightClass(const MB*m,const LawDef&L)
{
    if (L.mat==0) return dynamic_cast<const gsMaterialMatrixLinear<d,real_t>*>(m);
#define CL(id,cp) if (10*L.imp+L.mat==id && L.comp==cp) return dynamic_cast<const gsMaterialMatrixNonlinear<d,real_t,id,cp>*>(m);
    CL(11,false) CL(21,false) CL(31,false) CL(11,true) CL(21,true) CL(31,true) CL(12,true) CL(22,true) CL(32,true)
    CL(13,false) CL(23,false) CL(33,false) CL(13,true) CL(23,true) CL(33,true) CL(34,false) CL(34,true)
#undef CL
    return false;
}
template<int d> static typename MB::uPtr direct(const LawDef&L,Scene<d>&S,int kind) // kind 0: with geometry and density, 1: geometry only, 2: no geometry+density, 3: no geometry
{
    auto p=S.ptr();
#define MK(T) { switch(kind){ case 0: return typename MB::uPtr(new T(S.ori,S.t,p,S.rho)); case 1: return typename MB::uPtr(new T(S.ori,S.t,p)); case 2: return typename MB::uPtr(new T(S.t,p,S.rho)); default: return typename MB::uPtr(new T(S.t,p)); } }
    typedef gsMaterialMatrixLinear<d,real_t> Lin; if (L.mat==0) MK(Lin)
#define CL(id,cp) { typedef gsMaterialMatrixNonlinear<d,real_t,id,cp> X; if (10*L.imp+L.mat==id && L.comp==cp) MK(X) }
    CL(11,false) CL(21,false) CL(31,false) CL(11,true) CL(21,true) CL(31,true) CL(12,true) CL(22,true) CL(32,true)
    CL(13,false) CL(23,false) CL(33,false) CL(13,true) CL(23,true) CL(33,true) CL(34,false) CL(34,true)
#undef CL
#undef MK
    return nullptr;
}
template<int d> void identity(Check&ck)
{
    for (auto&L:laws(false,2)) ck.add("d="+std::to_string(d)+";law="+L.name,[=](Ctx&c){
        Scene<d> S(L); auto ops=matOps(L); auto p=S.ptr();
        gsOptionList o; o.addInt("Material","",L.mat); o.addSwitch("Compressibility","",L.comp); o.addInt("Implementation","",L.imp);
        auto all=[&](const MB&a,const MB&b,const std::string&w,bool dens=true){
            for(auto&op:ops) { if (op.name=="density"&&!dens) continue; for(int q=0;q<2;++q) for(int bt:{0,7}) { Mx u=batchU(bt),z=batchZ(bt?2:1,u.cols()); c.op(); c.ok(same(op.f(a,q,u,z),op.f(b,q,u,z)),w+" "+op.name); } }
            c.ok(a.numParameters()==b.numParameters(),w+" number of parameters"); c.ok(a.isMatIntegrated()==b.isMatIntegrated()&&a.isVecIntegrated()==b.isVecIntegrated(),w+" integration class"); c.state(); };
        auto fixG=[&](MB&m){ m.setUndeformed(&S.ori); m.setDeformed(&S.defA); };
        auto R=direct<d>(L,S,0); R->setDeformed(&S.defA);
        c.ok(rightClass<d>(R.get(),L),"direct class");
        // reference values at one point (the identity of the law itself)
        { Mx u=batchU(0),z(1,1); z<<0; ref::Poly pu=undeformed(d)[d==3?4:3].second; Mx xx=S.ori.patch(0).eval(u); Mx P; R->parameters_into(0,u,P);
          for(size_t i=0;i<L.pars.size();++i) c.close(P(i,0),S.pf[i].eval(xx)(0,0),std::abs(L.pars[i]),1e-12,"parameter value"); 
          LawDef LL=L; for(size_t i=0;i<LL.pars.size();++i) LL.pars[i]=P(i,0);
          auto ds=deformations(d); Def D=ds[0]; for(auto&x:ds) if(x.name==(d==3?"genbend":"gen")) D=x; ref::Poly pd=deform(pu,D,d); ref::Geo go(pu,u(0,0),u(1,0),d==2),gd(pd,u(0,0),u(1,0),d==2); double G[3],g[3]; ref::Resp rr=response(LL,go,gd,0,G,g);
          auto f=getMaterialMatrix<d,real_t>(S.ori,S.t,p,S.rho,o); f->setDeformed(&S.defA); c.closeM(f->eval3D_stress(0,u,z,MaterialOutput::Generic),vec3(rr.S),1e-6,"factory law"); }
        { auto f=getMaterialMatrix<d,real_t>(S.ori,S.t,p,S.rho,o); f->setDeformed(&S.defA); c.ok(rightClass<d>(f.get(),L),"factory class"); all(*f,*R,"factory"); }
        { auto f=getMaterialMatrix<d,real_t>(S.ori,S.t,p,o); f->setDeformed(&S.defA); c.ok(rightClass<d>(f.get(),L),"factory without density class"); c.ok(!f->hasDensity(),"no density assigned"); all(*f,*R,"factory without density",false); f->setDensity(S.rho); all(*f,*R,"factory, density set later"); }
        for(int k=1;k<4;++k){ auto f=direct<d>(L,S,k); c.ok(f->hasUndeformed()==(k<2),"hasUndeformed"); fixG(*f); all(*f,*R,"constructor "+std::to_string(k),k==2); if(k!=2){ f->setDensity(S.rho); all(*f,*R,"constructor "+std::to_string(k)+" density set later"); } }
        { auto f=R->clone(); c.ok(rightClass<d>(f.get(),L),"clone class"); c.ok(f->hasUndeformed()&&f->hasDeformed()&&f->hasDensity()&&f->hasThickness(),"clone has data"); all(*f,*R,"clone");
          c.ok(f->options().askInt("NumGauss",-1)==R->options().askInt("NumGauss",-1),"clone options");
          // independence of the clone
          Scene<d> S2(L,1); auto g=R->clone(); for(size_t i=0;i<L.pars.size();++i) g->setParameter(i,S2.pf[i]); g->setThickness(S2.t); g->setDensity(S2.rho); g->setDeformed(&S.defB); g->options().setInt("NumGauss",7);
          auto F=direct<d>(L,S,0); F->setDeformed(&S.defA); all(*R,*F,"original after changing the clone"); c.ok(R->options().getInt("NumGauss")==F->options().getInt("NumGauss"),"original options after changing the clone");
          // changed parameters = constructed with them
          auto H=direct<d>(L,S2,0); H->setUndeformed(&S.ori); H->setDeformed(&S.defB); all(*g,*H,"changed afterwards");
          auto K=R->clone(); std::vector<gsFunctionSet<real_t>*> pp=S2.ptr(); K->setParameters(pp); K->setThickness(S2.t); K->setDensity(S2.rho); K->setDeformed(&S.defB); all(*K,*H,"parameters set together");
          { typedef typename MB::function_ptr FP; auto sh=[](const gsFunctionSet<real_t>&f){ return FP(memory::make_shared(f.clone().release())); };
            auto A=R->clone(); std::vector<FP> fp; for(auto&x:S2.pf) fp.push_back(sh(x)); A->setParameters(fp); A->setThickness(sh(S2.t)); A->setDensity(sh(S2.rho)); A->setDeformed(FP(memory::make_shared_not_owned(&S.defB))); A->setUndeformed(FP(memory::make_shared_not_owned(&S.ori))); all(*A,*H,"set through shared pointers");
            auto A2=R->clone(); for(size_t i=L.pars.size();i-->0;) A2->setParameter(i,sh(S2.pf[i])); A2->setThickness(A->getThickness()); A2->setDensity(A->getDensity()); A2->setDeformed(A->getDeformed()); all(*A2,*H,"parameters set one by one through shared pointers");
            auto A3=R->clone(); for(size_t i=0;i<L.pars.size();++i) A3->setParameter(i,A->getParameter(i)); A3->setThickness(S2.t); A3->setDensity(S2.rho); A3->setDeformed(&S.defB); all(*A3,*H,"parameters taken from another material");
            auto A4=R->clone(); A4->resetParameters(); c.ok(A4->numParameters()==0,"reset parameters"); A4->setParameters(fp); A4->setThickness(S2.t); A4->setDensity(S2.rho); A4->setDeformed(&S.defB); all(*A4,*H,"reset and set again"); }
          // single parameter changes, every subset
          for(int m=1;m<(1<<std::min<size_t>(L.pars.size(),4));++m){ auto A=R->clone(); Scene<d> M(L); for(size_t i=0;i<L.pars.size();++i) if(m>>i&1){ A->setParameter(i,S2.pf[i]); M.pf[i]=S2.pf[i]; } auto Bm=direct<d>(L,M,0); Bm->setUndeformed(&S.ori); Bm->setDeformed(&S.defA); all(*A,*Bm,"parameter subset "+std::to_string(m)); }
          // named setters
          { auto A=R->clone(); A->setYoungsModulus(S2.pf[0]); A->setPoissonsRatio(S2.pf[1]); Scene<d> M(L); M.pf[0]=S2.pf[0]; M.pf[1]=S2.pf[1]; if (L.mat==3){ A->setRatio(S2.pf[2]); M.pf[2]=S2.pf[2]; }
            if (L.mat==4) for(size_t i=0;2+2*i<L.pars.size();++i){ A->setMu(i,S2.pf[2+2*i]); A->setAlpha(i,S2.pf[3+2*i]); M.pf[2+2*i]=S2.pf[2+2*i]; M.pf[3+2*i]=S2.pf[3+2*i]; }
            auto Bm=direct<d>(L,M,0); Bm->setUndeformed(&S.ori); Bm->setDeformed(&S.defA); all(*A,*Bm,"named setters");
            Mx x(d,1); x.setConstant(0.3); auto v=[&](typename MB::function_ptr f){ return f->piece(0).eval(x)(0,0); };
            c.close(v(A->getYoungsModulus()),S2.pf[0].eval(x)(0,0),1,1e-12,"getYoungsModulus"); c.close(v(A->getPoissonsRatio()),S2.pf[1].eval(x)(0,0),1,1e-12,"getPoissonsRatio");
            if (L.mat==3) c.close(v(A->getRatio()),S2.pf[2].eval(x)(0,0),1,1e-12,"getRatio");
            if (L.mat==4) for(size_t i=0;2+2*i<L.pars.size();++i){ c.close(v(A->getMu(i)),S2.pf[2+2*i].eval(x)(0,0),1,1e-12,"getMu"); c.close(v(A->getAlpha(i)),S2.pf[3+2*i].eval(x)(0,0),1,1e-12,"getAlpha"); } }
        }
        // XML
        if (L.imp==(L.mat==4?3:1)) for(int dens=0;dens<2;++dens) {
            char fn[]="/tmp/mcxmlXXXXXX"; int fd=mkstemp(fn); close(fd); unlink(fn); std::string file=std::string(fn)+".xml";
            auto f=direct<d>(L,S,dens?0:1); { gsFileData<real_t> w; w.setFloatPrecision(17); w<<*f; w.save(file); }
            gsFileData<real_t> r(file); auto g=r.getFirst<MB>(); unlink(file.c_str());
            if (c.ok(g.get()!=nullptr,"XML read back")) { c.ok(rightClass<d>(g.get(),L),"XML class"); c.ok(g->hasDensity()==(dens==1),"XML density presence"); fixG(*g); f->setDeformed(&S.defA); all(*g,*f,"XML",dens);
                c.ok(g->options().askInt("NumGauss",-1)==f->options().askInt("NumGauss",-1),"XML options"); 
                // and once more
                { gsFileData<real_t> w; w.setFloatPrecision(17); w<<*g; w.save(file); } gsFileData<real_t> r2(file); auto h=r2.getFirst<MB>(); unlink(file.c_str()); if(c.ok(h.get()!=nullptr,"XML twice")) { fixG(*h); all(*h,*f,"XML twice",dens);} }
        }
        // XML container: every assignment of two materials to three patches
        if (L.imp==(L.mat==4?3:1)) for(int asg=0;asg<8;++asg) {
            Scene<d> S2(L,1); auto f0=direct<d>(L,S,0), f1=direct<d>(L,S2,0); std::string body[2];
            for(int k=0;k<2;++k){ gsFileData<real_t> w; w.setFloatPrecision(17); w<<(k?*f1:*f0); std::string file="/tmp/mcx"+std::to_string(getpid())+".xml"; w.save(file); std::ifstream in(file); std::stringstream ss; ss<<in.rdbuf(); unlink(file.c_str()); std::string s=ss.str(); size_t a=s.find("<MaterialMatrix"), b=s.find("</MaterialMatrix>"); if(a==std::string::npos||b==std::string::npos){ c.fail("XML text",s.substr(0,80)); return; } s=s.substr(a,b+17-a); s.insert(15," index=\""+std::to_string(k)+"\""); body[k]=s; }
            // drop the id attribute written by gsFileData: it is irrelevant inside a container
            std::string g0,g1; for(int q=0;q<3;++q) ((asg>>q&1)?g1:g0)+=std::to_string(q)+" ";
            std::string file="/tmp/mcy"+std::to_string(getpid())+".xml"; { std::ofstream w(file); w<<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer id=\"0\" size=\"3\">\n"<<body[0]<<"\n"<<body[1]<<"\n<group material=\"0\">"<<g0<<"</group>\n<group material=\"1\">"<<g1<<"</group>\n</MaterialMatrixContainer>\n</xml>\n"; }
            gsFileData<real_t> r(file); gsMaterialMatrixContainer<real_t> mc; r.getFirst(mc); unlink(file.c_str());
            if(!c.ok(mc.size()==3,"container size")) continue; fixG(*f0); fixG(*f1); 
            for(int q=0;q<3;++q){ auto*m=mc.piece(q); if(!c.ok(m!=nullptr,"container piece")) continue; fixG(*m); Mx u=batchU(7),z=batchZ(2,u.cols()); const MB&X=(asg>>q&1)?*f1:*f0; c.ok(same(m->eval3D_stress(0,u,z,MaterialOutput::Generic),X.eval3D_stress(0,u,z,MaterialOutput::Generic)),"container patch material"); c.op(); }
        }
    });
    // the tension-field material around every law: constructors, clone, XML and XML container
    for (auto&L:laws(false,2)) ck.add("d="+std::to_string(d)+";tft="+L.name,[=](Ctx&c){
        Scene<d> S(L); typedef gsMaterialMatrixTFT<d,real_t,true> TL; typedef gsMaterialMatrixTFT<d,real_t,false> TN; bool lin=L.mat==0;
        std::vector<Op> ops;
#define OP(n,e) ops.push_back({n,[](const MB&m,int q,const Mx&u,const Mx&z)->Mx{ return e; },true});
        OP("matrix",m.eval3D_matrix(q,u,z,MaterialOutput::MatrixA)) OP("vector",m.eval3D_vector(q,u,z,MaterialOutput::VectorN)) OP("stress",m.eval3D_stress(q,u,z,MaterialOutput::Generic)) OP("cauchy",m.eval3D_CauchyStress(q,u,z,MaterialOutput::Generic)) OP("strain",m.eval3D_strain(q,u,z)) OP("pstress",m.eval3D_pstress(q,u,z,MaterialOutput::Generic)) OP("field",m.eval3D_tensionfield(q,u,z,MaterialOutput::Generic))
        ops.push_back({"thickness",[](const MB&m,int q,const Mx&u,const Mx&)->Mx{ Mx r; m.thickness_into(q,u,r); return r; },false}); ops.push_back({"density",[](const MB&m,int q,const Mx&u,const Mx&)->Mx{ Mx r; m.density_into(q,u,r); return r; },false});
#undef OP
        auto all=[&](MB&a,MB&b,const std::string&w,bool dens=true){ const gsMultiPatch<real_t>*D[2]={&S.defA,&S.defB}; for(int g=0;g<2;++g) for(auto&op:ops) { if (op.name=="density"&&!dens) continue; for(int q=0;q<2;++q) for(int bt:{0,7}) { Mx u=batchU(bt),z=batchZ(1,u.cols()); a.setUndeformed(&S.ori); a.setDeformed(D[g]); Mx x=op.f(a,q,u,z); b.setUndeformed(&S.ori); b.setDeformed(D[g]); Mx y=op.f(b,q,u,z); c.op(2); c.ok(same(x,y),w+" "+op.name); } } c.state(); };
        auto wrap=[&](MB*m)->typename MB::uPtr { return lin?typename MB::uPtr(new TL(m)):typename MB::uPtr(new TN(m)); };
        auto right=[&](const MB*m,const std::string&w){ c.ok(lin?(dynamic_cast<const TL*>(m)!=nullptr):(dynamic_cast<const TN*>(m)!=nullptr),w+" class"); c.ok(m->material()!=m&&rightClass<d>(m->material(),L),w+" class of the underlying material"); };
        auto B=direct<d>(L,S,0),B1=direct<d>(L,S,0); auto R=wrap(B.get()); right(R.get(),"constructor");
        { auto X=lin?typename MB::uPtr(new TL(*B1)):typename MB::uPtr(new TN(*B1)); right(X.get(),"constructor by reference"); all(*X,*R,"constructor by reference"); Scene<d> S2(L,1); B1->setThickness(S2.t); for(size_t i=0;i<L.pars.size();++i) B1->setParameter(i,S2.pf[i]); all(*X,*R,"constructor by reference, original changed"); }
        { auto X=R->clone(); right(X.get(),"clone"); auto B2=direct<d>(L,S,0); auto F=wrap(B2.get()); all(*X,*F,"clone"); }
        if (L.imp!=(L.mat==4?3:1)) return;
        auto text=[&](MB&m){ gsFileData<real_t> w; w.setFloatPrecision(17); w<<m; std::string file="/tmp/mct"+std::to_string(getpid())+".xml"; w.save(file); std::ifstream in(file); std::stringstream ss; ss<<in.rdbuf(); in.close(); unlink(file.c_str()); return ss.str(); };
        auto save=[&](const std::string&t){ std::string file="/tmp/mcu"+std::to_string(getpid())+".xml"; std::ofstream w(file); w<<t; return file; };
        for(int dens=0;dens<2;++dens) { auto b=direct<d>(L,S,dens?0:1); auto f=wrap(b.get()); std::string file=save(text(*f)); gsFileData<real_t> r(file); auto g=r.getFirst<MB>(); unlink(file.c_str()); if (!c.ok(g.get()!=nullptr,"XML read back")) continue; right(g.get(),"XML"); all(*g,*f,"XML",dens);
            file=save(text(*g)); gsFileData<real_t> r2(file); auto h=r2.getFirst<MB>(); unlink(file.c_str()); if (c.ok(h.get()!=nullptr,"XML twice")) { right(h.get(),"XML twice"); all(*h,*f,"XML twice",dens); } }
        // container: tension-field and plain material on the patches, every assignment
        for(int asg=0;asg<8;++asg) { std::string body[2]; auto b=direct<d>(L,S,0); for(int k=0;k<2;++k){ std::string s=k?text(*b):text(*R); size_t a=s.find("<MaterialMatrix"),e=s.find("</MaterialMatrix>"); if(a==std::string::npos||e==std::string::npos){ c.fail("XML text",s.substr(0,80)); return; } s=s.substr(a,e+17-a); s.insert(15," index=\""+std::to_string(k)+"\""); body[k]=s; }
            std::string g0,g1; for(int q=0;q<3;++q) ((asg>>q&1)?g1:g0)+=std::to_string(q)+" ";
            std::string file=save("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer id=\"0\" size=\"3\">\n"+body[0]+"\n"+body[1]+"\n<group material=\"0\">"+g0+"</group>\n<group material=\"1\">"+g1+"</group>\n</MaterialMatrixContainer>\n</xml>\n");
            gsFileData<real_t> r(file); gsMaterialMatrixContainer<real_t> mc; r.getFirst(mc); unlink(file.c_str()); if(!c.ok(mc.size()==3,"container size")) continue;
            for(int q=0;q<3;++q){ auto*m=mc.piece(q); if(!c.ok(m!=nullptr,"container piece")) continue; if (asg>>q&1) c.ok(rightClass<d>(m,L),"container piece class"); else right(m,"container piece"); c.op(); } }
    });
    // combinations that do not exist are refused
    ck.add("d="+std::to_string(d)+";unavailable",[=](Ctx&c){
        Scene<d> S(laws(false,1)[0]); auto p=S.ptr();
        for(int m=0;m<5;++m)for(int imp=0;imp<4;++imp)for(int cp=0;cp<2;++cp) for(int dens=0;dens<2;++dens) {
            bool avail = imp>0 && !(m==4&&imp<3) && !(m==2&&!cp);
            gsOptionList o; o.addInt("Material","",m); o.addSwitch("Compressibility","",cp); o.addInt("Implementation","",imp); bool thrown=false; typename MB::uPtr r;
            std::vector<gsFunctionSet<real_t>*> q=p; while((int)q.size()<(m==3?3:m==4?4:2)) q.push_back(p[0]);
            try { r= dens?getMaterialMatrix<d,real_t>(S.ori,S.t,q,S.rho,o):getMaterialMatrix<d,real_t>(S.ori,S.t,q,o); } catch(const std::exception&) { thrown=true; }
            c.state(); c.op(); c.ok(thrown==!avail,"availability of material "+std::to_string(m)+" implementation "+std::to_string(imp)+" comp "+std::to_string(cp));
        }
    });
}

/// container of materials: all histories of its operations against a list of (identity, value) pairs
template<int d> void containers(Check&ck)
{
    int depth=ck.thorough()?5:4;
    for (auto&L:laws(false,1)) { if (L.imp!=(L.mat==4?3:1)) continue; for(int o1=0;o1<10;++o1) ck.add("d="+std::to_string(d)+";container="+L.name+";first="+std::to_string(o1),[=](Ctx&c){
        Mx u=batchU(0),z=batchZ(1,u.cols());
        // 0,1 add a copy/pointer of A; 2 add a copy of B; 3,4,5 set first := copy of B / pointer to B / shared pointer; 6 set last := pointer to A; 7 clear; 8 change A; 9 copy the container and continue with the copy
        std::vector<int> h; std::function<void()> rec=[&]{
            if (!h.empty()) {
                Scene<d> S(L,0),S2(L,1); auto A=direct<d>(L,S,0),B=direct<d>(L,S2,0); auto Bs=typename MB::Ptr(B->clone().release()); gsMaterialMatrixContainer<real_t> mc; struct E{ const MB*p; int v; }; std::vector<E> m; int vA=0; bool valid=true;
                for(int o:h) { switch(o){
                    case 0: mc.add(*A); m.push_back({nullptr,vA}); break; case 1: mc.add(A.get()); m.push_back({A.get(),-1}); break; case 2: mc.add(*B); m.push_back({nullptr,1}); break;
                    case 3: if((valid=!m.empty())) { mc.set(0,*B); m[0]={nullptr,1}; } break; case 4: if((valid=!m.empty())) { mc.set(0,B.get()); m[0]={B.get(),1}; } break; case 5: if((valid=!m.empty())) { mc.set(0,Bs); m[0]={Bs.get(),1}; } break;
                    case 6: if((valid=!m.empty())) { mc.set(m.size()-1,A.get()); m.back()={A.get(),-1}; } break; case 7: mc.clear(); m.clear(); break;
                    case 8: A->setThickness(S2.t); for(size_t i=0;i<L.pars.size();++i) A->setParameter(i,S2.pf[i]); vA=1; break; case 9: { gsMaterialMatrixContainer<real_t> k(mc); mc.clear(); mc=k; } break; } if (!valid) return; }
                c.state(); c.op(); std::string w; for(int o:h) w+=std::to_string(o);
                if (c.ok(mc.size()==(index_t)m.size(),"container size after "+w)) for(size_t q=0;q<m.size();++q) { MB*x=mc.piece(q); if(!c.ok(x!=nullptr,"container piece after "+w)) continue;
                    if (m[q].p) c.ok(x==m[q].p,"container refers to the given material after "+w); else c.ok(x!=A.get()&&x!=B.get()&&x!=Bs.get(),"container holds a copy after "+w);
                    int v=m[q].v<0?vA:m[q].v; Scene<d>&Sx=v?S2:S; auto F=direct<d>(L,Sx,0); F->setUndeformed(&S.ori); F->setDeformed(&S.defA); x->setUndeformed(&S.ori); x->setDeformed(&S.defA);
                    c.ok(rightClass<d>(x,L),"class of the piece after "+w); c.ok(same(x->eval3D_stress(0,u,z,MaterialOutput::Generic),F->eval3D_stress(0,u,z,MaterialOutput::Generic)),"material of the piece after "+w); } }
            if ((int)h.size()<depth) for(int o=0;o<10;++o) { if (h.empty()&&o!=o1) continue; h.push_back(o); rec(); h.pop_back(); } };
        rec(); }); }
}
/// C10: stress measures, principal values and transformations
template<int d> void measures(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,th?2:1)) for (auto&U:undeformed(d)) {
        std::string key="d="+std::to_string(d)+";law="+L.name+";geo="+U.first;
        ck.add(key,[=](Ctx&c){
            gsMultiPatch<real_t> ori=mpatch<d>(U.second); std::string ts=d==3?"0.2":"0.05"; double t=atof(ts.c_str()); MatBox<d> B(L,ori,ts);
            auto defs=allDef(d,th); // add exactly uniaxial stress-like states
            defs.push_back({"eps-uni",ref::diag(1.0001,1,1),0,false}); defs.push_back({"strongcomp",ref::diag(0.8,0.8,1),0,false});
            if (L.mat==0) { double nu=L.pars[1]; double e=0.1; defs.push_back({"uniaxial-stress",ref::diag(std::sqrt(1+2*e),std::sqrt(1-2*nu*e),1),0,false}); }
            for (auto&D:defs) {
                ref::Poly pd=deform(U.second,D,d); gsMultiPatch<real_t> def=mpatch<d>(pd); B.mat->setDeformed(&def);
                std::vector<double> zs={0.0}; if (d==3) zs={-0.5,0.0,0.35};
                for (int ip=0;ip<3;++ip) for (double zz:zs) {
                    Mx u(2,1); u<<PTS[ip][0],PTS[ip][1]; Mx z(1,1); z<<zz;
                    ref::Geo go(U.second,u(0,0),u(1,0),d==2), gd(pd,u(0,0),u(1,0),d==2);
                    double G[3],g[3]; ref::Resp R=response(L,go,gd,zz*t,G,g); std::string at="def="+D.name+",pt="+std::to_string(ip)+",z="+num(zz); c.state(); c.op();
                    double cs=asM(R).cwiseAbs().maxCoeff(); double sf=0.1*cs; bool may=mayRefuse(L,G,g);
                    V3 G1,G2,g1,g2,h1,h2; go.basis(zz*t,G1,G2); gd.basis(zz*t,g1,g2); dual(G1,G2,h1,h2);
                    attempt(c,may,[&]{
                        auto*m=B.mat.get();
                        Mx S=m->eval3D_stress(0,u,z,MaterialOutput::Generic), s=m->eval3D_CauchyStress(0,u,z,MaterialOutput::Generic);
                        double J=L.mat==0?R.J:(L.comp?R.J:1.0); Mx Sx=vec3(R.S);
                        c.closeM(s,Sx/J,1e-7,"Cauchy stress "+at,sf); c.closeM(m->eval3D_CauchyVector(0,u,z,MaterialOutput::Generic),Sx/J,1e-7,"Cauchy vector "+at,sf);
                        c.closeM(s*m->eval3D_detF(0,u,z,MaterialOutput::Generic)(0,0),S,1e-9,"Cauchy times volume ratio "+at,sf);
                        // principal stresses on the undeformed basis, principal Cauchy stresses on the deformed one
                        double Si[3]={S(0,0),S(1,0),S(2,0)}, sc[3]={s(0,0),s(1,0),s(2,0)};
                        Mx T=tens(Si,G1,G2), Tc=tens(sc,g1,g2); auto pv=[&](const Mx&T,double e[2]){ double tr=T.trace(),i2=0.5*(tr*tr-(T*T).trace()); double mm=tr/2,dd=std::sqrt(std::max(0.0,mm*mm-i2)); e[0]=mm-dd; e[1]=mm+dd; };
                        double e[2],ec[2]; pv(T,e); pv(Tc,ec); double ts_=std::max(T.norm(),1e-6*cs), tc=std::max(Tc.norm(),1e-6*cs);
                        Mx ps=m->eval3D_pstress(0,u,z,MaterialOutput::PStress), pc=m->eval3D_CauchyPStress(0,u,z,MaterialOutput::Generic);
                        c.close(ps(0,0),e[0],ts_,1e-7,"min principal stress "+at); c.close(ps(1,0),e[1],ts_,1e-7,"max principal stress "+at);
                        c.close(pc(0,0),ec[0],tc,1e-7,"min principal Cauchy stress "+at); c.close(pc(1,0),ec[1],tc,1e-7,"max principal Cauchy stress "+at);
                        Mx v=sq3(m->eval3D_pstressDir(0,u,z,MaterialOutput::PStressDir));
                        c.closeM(v.transpose()*v,Mx::Identity(3,3),1e-8,"orthonormal stress directions "+at);
                        Mx Ts=ps(0,0)*v.col(0)*v.col(0).transpose()+ps(1,0)*v.col(1)*v.col(1).transpose(); c.closeM(Ts,T,1e-7,"spectral form of the stress "+at,ts_);
                        double al=0; for(int i=0;i<3;++i) al+=v(i,2)*go.n[i]; c.close(std::abs(al),1,1,1e-8,"third stress direction is the normal "+at);
                        c.closeM(evalOut<MaterialOutput::PStress>(m,def,z,0,u),ps,1e-9,"eval pstress "+at,sf); c.closeM(evalOut<MaterialOutput::PStressDir>(m,def,z,0,u),m->eval3D_pstressDir(0,u,z,MaterialOutput::PStressDir),1e-9,"eval pstressDir "+at,1);
                        c.closeM(evalOut<MaterialOutput::Stress>(m,def,z,0,u),S,1e-9,"eval stress "+at,sf);
                        if (ip==0) { gsVector<real_t> uv=u.col(0); c.closeM(m->eval3D_CauchyStress(0,uv,zz,MaterialOutput::Generic),s,1e-9,"Cauchy stress (single point) "+at,sf); }
                        if (zz==0.0) { // membrane and bending parts on the mid surface
                            Mx Mb=Sx; if (L.mat==0) { double k[3]={go.bb[0]-gd.bb[0],go.bb[1]-gd.bb[1],2*(go.bb[2]-gd.bb[2])}; Mb=sq3(asM(R))*vec3(k); }
                            double mi[3]={Mb(0,0),Mb(1,0),Mb(2,0)}; Mx TM=tens(mi,G1,G2),TcM=tens(mi,g1,g2)/J; double eM[2],ecM[2]; pv(TM,eM); pv(TcM,ecM); auto p2=[](double*e){ Mx r(2,1); r<<e[0],e[1]; return r; }; double sM=std::max(TM.norm(),1e-6*cs),sMc=std::max(TcM.norm(),1e-6*cs);
                            c.closeM(evalOut<MaterialOutput::VectorN>(m,def,z,0,u),Sx,1e-7,"eval VectorN "+at,sf); c.closeM(evalOut<MaterialOutput::VectorM>(m,def,z,0,u),Mb,1e-7,"eval VectorM "+at,sf);
                            c.closeM(evalOut<MaterialOutput::StressN>(m,def,z,0,u),Sx,1e-7,"eval StressN "+at,sf); c.closeM(evalOut<MaterialOutput::StressM>(m,def,z,0,u),Mb,1e-7,"eval StressM "+at,sf);
                            c.closeM(evalOut<MaterialOutput::CauchyVectorN>(m,def,z,0,u),Sx/J,1e-7,"eval CauchyVectorN "+at,sf); c.closeM(evalOut<MaterialOutput::CauchyVectorM>(m,def,z,0,u),Mb/J,1e-7,"eval CauchyVectorM "+at,sf);
                            c.closeM(evalOut<MaterialOutput::CauchyStressN>(m,def,z,0,u),Sx/J,1e-7,"eval CauchyStressN "+at,sf); c.closeM(evalOut<MaterialOutput::CauchyStressM>(m,def,z,0,u),Mb/J,1e-7,"eval CauchyStressM "+at,sf);
                            c.closeM(evalOut<MaterialOutput::PStressN>(m,def,z,0,u),p2(e),1e-7,"eval PStressN "+at,ts_); c.closeM(evalOut<MaterialOutput::PStressM>(m,def,z,0,u),p2(eM),1e-7,"eval PStressM "+at,sM);
                            c.closeM(evalOut<MaterialOutput::PCauchyStressN>(m,def,z,0,u),p2(ec),1e-7,"eval PCauchyStressN "+at,tc); c.closeM(evalOut<MaterialOutput::PCauchyStressM>(m,def,z,0,u),p2(ecM),1e-7,"eval PCauchyStressM "+at,sMc);
                        }
                        // transformations: spectral components from covariant/contravariant ones and back
                        Mx w=sq3(m->eval3D_pstretchDir(0,u,z)); auto vo=[&](const Mx&X,const Mx&a,const Mx&b)->double{ return (a.transpose()*X*b)(0,0); };
                        auto comps=[&](const Mx&X,const Mx&a,const Mx&b){ Mx r(3,1); r<<vo(X,a,a),vo(X,b,b),vo(X,a,b); return r; };
                        Mx Tcov=sq3(m->eval3D_spec2cov(0,u,z)), Tcon=sq3(m->eval3D_spec2con(0,u,z));
                        c.closeM(Tcov*S,comps(T,w.col(0),w.col(1)),1e-8,"spectral stress components "+at,sf);
                        double gi[3]={g[0],g[1],g[2]}; Mx Cp=comps(tens(gi,h1,h2),w.col(0),w.col(1)); c.closeM(Tcon*vec3(g),Cp,1e-8,"spectral deformation components "+at,1);
                        c.close((Tcon*vec3(g))(2,0),0,1,1e-8,"deformation is diagonal in the spectral basis "+at);
                        c.closeM(evalOut<MaterialOutput::PStressTransform>(m,def,z,0,u),m->eval3D_spec2cov(0,u,z),1e-9,"eval pstress transform "+at,1); c.closeM(evalOut<MaterialOutput::StretchTransform>(m,def,z,0,u),m->eval3D_spec2con(0,u,z),1e-9,"eval stretch transform "+at,1);
                        c.closeM(evalOut<MaterialOutput::Spec2CovTransform>(m,def,z,0,u),m->eval3D_spec2cov(0,u,z),1e-9,"eval spec2cov "+at,1); c.closeM(evalOut<MaterialOutput::Spec2ConTransform>(m,def,z,0,u),m->eval3D_spec2con(0,u,z),1e-9,"eval spec2con "+at,1);
                        c.closeM(evalOut<MaterialOutput::Cov2CartTransform>(m,def,z,0,u),m->eval3D_cov2cart(0,u,z),1e-9,"eval cov2cart "+at,1); c.closeM(evalOut<MaterialOutput::Con2CartTransform>(m,def,z,0,u),m->eval3D_con2cart(0,u,z),1e-9,"eval con2cart "+at,1);
                        {   Mx A=sq3(m->eval3D_cov2cart(0,u,z)), Bc=sq3(m->eval3D_con2cart(0,u,z)); Mx X(3,3); X.setZero(); X(0,0)=1.3; X(1,1)=-0.4; X(0,1)=X(1,0)=0.7; Mx cart(3,1); cart<<1.3,-0.4,0.7;
                            Mx cov=comps(X,v3m(G1),v3m(G2)), con=comps(X,v3m(h1),v3m(h2)); double sc2=std::max(1.0,cov.cwiseAbs().maxCoeff());
                            c.closeM(A*cart,cov,1e-8,"covariant components "+at,sc2); c.closeM(Bc*cart,con,1e-8,"contravariant components "+at,1);
                            if (std::abs(std::abs(go.n[2])-1)<1e-12) { // surface (locally) parallel to the xy-plane: Cartesian components are in-plane
                            double cv[3]={con(0,0),con(1,0),con(2,0)}; Mx back=tens(cv,G1,G2); Mx bl(3,1); bl<<back(0,0),back(1,1),back(0,1); c.closeM(bl,cart,1e-8,"forth and back "+at,1);
                            c.closeM(A.inverse()*cov,cart,1e-7,"inverse transformation "+at,1); }
                        }
                    });
                }
            }
        });
    }
}

int main(int argc,char**argv)
{
    std::string id; for(int i=1;i+1<argc;++i) if(std::string(argv[i])=="--id") id=argv[i+1];
    Check ck(argc,argv,id);
    ck.assume("polynomial surfaces of degree <=2 per direction represented exactly as B-splines; smooth bounded deformations");
    ck.assume("compressible laws may refuse (by an explicit error) states with in-plane area ratio squared below 0.5; returned values are always checked");
    ck.bound("full product of constitutive laws x implementation variants x parameter sets x undeformed surfaces x deformations x points x heights");
    if (id=="C01"||id=="C02") { constitutive<3>(ck,id=="C02"); constitutive<2>(ck,id=="C02"); constitutiveBatch<3>(ck,id=="C02"); constitutiveBatch<2>(ck,id=="C02"); }
    if (id=="C03") { kinematics<3>(ck); kinematics<2>(ck); batchOuts<3>(ck,kinOuts()); batchOuts<2>(ck,kinOuts()); }
    if (id=="C04") { objectivity<3>(ck); objectivity<2>(ck); }
    if (id=="C05") { resultants<3>(ck); resultants<2>(ck); }
    if (id=="C06") { ck.bound("all ordered pairs of evaluation operations x patches x batches x state changes; all batches; all pairs of laws per patch"); purity<3>(ck); purity<2>(ck); }
    if (id=="C09") { identity<3>(ck); identity<2>(ck); containers<3>(ck); containers<2>(ck); }
    if (id=="C10") { measures<3>(ck); measures<2>(ck); batchOuts<3>(ck,stressOuts()); batchOuts<2>(ck,stressOuts()); }
    return ck.run();
}
