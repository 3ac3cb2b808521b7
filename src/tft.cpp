/* Explorer for the tension-field material (C07). */
#include "common.h"
#include <array>
using namespace mc;
using ref::V3; using ref::operator+; using ref::operator-; using ref::operator*;

static const double PTS[2][2]={{0.3,0.6},{0.85,0.15}};
static Mx vec3(const double*a){ Mx m(3,1); m<<a[0],a[1],a[2]; return m; }

/// everything the modified material has to deliver in a state (undeformed metric G, deformed metric g)
struct TF { double S[3],Sw[3],Ew[3],C[3][3],ps[2],pe[2],n[2],gam; double cs; ref::Resp R; };
static TF model(const LawDef&L,const double G[3],const double g[3])
{
    TF r; r.R=ref::respond(L.r(),G,g); for(int i=0;i<3;++i){ r.S[i]=r.R.S[i]; for(int j=0;j<3;++j) r.C[i][j]=r.R.C[i][j]; }
    // local Cartesian frame: g1 = (a,0), g2 = (b,c)
    double a=std::sqrt(G[0]), b=G[2]/a, c=std::sqrt(G[1]-b*b);
    auto car=[&](const double s[3],double o[3]){ o[0]=a*a*s[0]+2*a*b*s[2]+b*b*s[1]; o[1]=c*c*s[1]; o[2]=a*c*s[2]+b*c*s[1]; };
    double sc[3]; car(r.S,sc);
    double e[3]={0.5*(g[0]-G[0]),0.5*(g[1]-G[1]),0.5*(g[2]-G[2])};
    // dual basis: h1=(1/a,-b/(ac)), h2=(0,1/c)
    double h1x=1/a,h1y=-b/(a*c),h2y=1/c; double ec[3]={e[0]*h1x*h1x, e[0]*h1y*h1y+2*e[2]*h1y*h2y+e[1]*h2y*h2y, e[0]*h1x*h1y+e[2]*h1x*h2y};
    auto eig=[&](const double s[3],double v[2]){ double m=(s[0]+s[1])/2,d=std::hypot((s[0]-s[1])/2,s[2]); v[0]=m-d; v[1]=m+d; return 0.5*std::atan2(2*s[2],s[0]-s[1]); };
    double phi=eig(ec,r.pe); eig(sc,r.ps); // direction of the major strain = major stress (isotropic laws)
    double nx=-std::sin(phi), ny=std::cos(phi); // unit normal direction of the wrinkles' tension direction
    double n1=a*nx, n2=b*nx+c*ny; r.n[0]=n1; r.n[1]=n2; // covariant components
    double nv[3]={n1*n1,n2*n2,2*n1*n2}; double num_=0,den=0; double Cn[3]={0,0,0};
    for(int i=0;i<3;++i){ num_+=nv[i]*r.S[i]; for(int j=0;j<3;++j) Cn[i]+=r.C[i][j]*nv[j]; den+=nv[i]*Cn[i]; }
    r.gam=-num_/den; r.cs=0;
    for(int i=0;i<3;++i){ r.Sw[i]=r.S[i]+r.gam*Cn[i]; r.Ew[i]=(i<2?e[i]:2*e[2])+r.gam*nv[i]; for(int j=0;j<3;++j) r.cs=std::max(r.cs,std::abs(r.C[i][j])); }
    return r;
}
static Mx tangent(const LawDef&L,const double G[3],const double g[3],double&acc)
{
    Mx C(9,1),C2(9,1); double gs=std::sqrt(std::abs(G[0]*G[1]));
    auto fd=[&](double h,Mx&X){ for(int k=0;k<3;++k){ double gp[3],gm[3]; for(int i=0;i<3;++i) gp[i]=gm[i]=g[i]; double d=h*gs*(k<2?2:1); gp[k]+=d; gm[k]-=d;
        TF p=model(L,G,gp),m=model(L,G,gm); for(int i=0;i<3;++i) X(i+3*k,0)=(p.Sw[i]-m.Sw[i])/(2*h*gs); } };
    fd(2e-4,C2); fd(1e-4,C); Mx X=(4*C-C2)/3; acc=(X-C).cwiseAbs().maxCoeff(); return X;
}

template<int d,bool lin> void explore(Check&ck)
{
    bool th=ck.thorough();
    std::vector<double> st={0.75,0.88,0.97,0.995,1.0,1.005,1.04,1.15,1.4};
    int na=th?24:12;
    for (auto&L:laws(false,th?2:1)) {
        if (lin && L.mat!=0 && L.imp!=1 && !th) continue;
        for (auto&U:undeformed(d)) for (int ia=0;ia<na;++ia) {
            if (!th && U.first=="unit" && false) continue;
            double ang=M_PI*ia/na; std::string key="d="+std::to_string(d)+";linear="+(lin?"1":"0")+";law="+L.name+";geo="+U.first+";angle="+std::to_string(ia)+"/"+std::to_string(na);
            ck.add(key,[=](Ctx&c){
                gsMultiPatch<real_t> ori=mpatch<d>(U.second); MatBox<d> B(L,ori,"0.05");
                bool curved=U.first.substr(0,6)=="curved";
                for (size_t i1=0;i1<st.size();++i1) for (size_t i2=0;i2<=i1;++i2) {
                    // stretch st[i1] along the angle (in the plane of the surface at the first point), st[i2] across
                    ref::Geo g0(U.second,PTS[0][0],PTS[0][1],d==2); V3 t1=(1/ref::norm(g0.a1))*g0.a1, t2=ref::cross(g0.n,t1);
                    V3 p=std::cos(ang)*t1+std::sin(ang)*t2, q=(-std::sin(ang))*t1+std::cos(ang)*t2, n=g0.n;
                    Def D; D.A=ref::M3::id(); D.bend=0; D.rotate=false;
                    for(int r=0;r<3;++r)for(int s=0;s<3;++s) D.A.m[r][s]=st[i1]*p[r]*p[s]+st[i2]*q[r]*q[s]+n[r]*n[s];
                    ref::Poly pd=deform(U.second,D,d); gsMultiPatch<real_t> def=mpatch<d>(pd);
                    gsMaterialMatrixTFT<d,real_t,lin> T(B.mat.get()); T.setDeformed(&def);
                    for (int ip=0;ip<(curved?2:1);++ip) for (double zz:(d==3&&!curved?std::vector<double>{0.0,0.4}:std::vector<double>{0.0})) {
                        Mx u(2,1),z(1,1); u<<PTS[ip][0],PTS[ip][1]; z<<zz;
                        ref::Geo go(U.second,u(0,0),u(1,0),d==2), gd(pd,u(0,0),u(1,0),d==2); double G[3],g[3]; go.metric(0,G); gd.metric(0,g);
                        double J2=(g[0]*g[1]-g[2]*g[2])/(G[0]*G[1]-G[2]*G[2]); if (L.comp&&L.mat&&J2<0.5) continue; // may be refused
                        TF M=model(L,G,g); std::string at="l1="+num(st[i1])+",l2="+num(st[i2])+",pt="+std::to_string(ip)+",z="+num(zz);
                        c.state();
                        double ms=1e-9*M.cs*std::max(G[0],G[1]), me=1e-9; // margins around the transitions
                        for (int opt:{2,0,1}) {
                            B.mat->options().setInt("TensionField",opt);
                            double lo=opt==0?M.pe[0]:M.ps[0], hi=opt==1?M.ps[1]:M.pe[1]; double ml=opt==0?me:ms, mh=opt==1?ms:me;
                            bool sureTaut=lo>ml, sureNot=lo<-ml, sureSlack=sureNot&&hi<-mh, sureWrinkled=sureNot&&hi>mh;
                            int want=sureTaut?1:sureSlack?-1:sureWrinkled?0:9;
                            double tf=T.eval3D_tensionfield(0,u,z,MaterialOutput::TensionField)(0,0); c.op();
                            if (want!=9) c.ok(tf==want,"classification option "+std::to_string(opt)+" "+at,"got "+num(tf)+" expected "+std::to_string(want));
                            c.ok(tf==1||tf==0||tf==-1,"classification value "+at);
                            c.ok(B.mat->eval3D_tensionfield(0,u,z,MaterialOutput::TensionField)(0,0)==tf,"classification of the base material "+at);
                            if (opt!=2) { // other criteria: modified response follows their classification
                                if (want==1||want==-1) { c.closeM(T.eval3D_stress(0,u,z,MaterialOutput::Generic),want==1?vec3(M.S):Mx(Mx::Zero(3,1)),1e-7,"stress option "+std::to_string(opt)+" "+at,0.1*M.cs); }
                                continue; }
                            double J=L.mat==0?M.R.J:(L.comp?M.R.J:1.0);
                            if (want==1||want==-1) {
                                double f=want==1?1:0; Mx S=f*vec3(M.S); Mx C(9,1); for(int a=0;a<3;++a)for(int b=0;b<3;++b) C(a+3*b,0)=f*M.C[a][b];
                                c.closeM(T.eval3D_stress(0,u,z,MaterialOutput::Generic),S,1e-7,"stress "+at,0.1*M.cs); c.closeM(T.eval3D_vector(0,u,z,MaterialOutput::VectorN),S,1e-7,"vector "+at,0.1*M.cs);
                                c.closeM(T.eval3D_matrix(0,u,z,MaterialOutput::MatrixA),C,1e-6,"tangent "+at,M.cs);
                                c.closeM(T.eval3D_CauchyStress(0,u,z,MaterialOutput::Generic),S/J,1e-7,"Cauchy stress "+at,0.1*M.cs);
                                Mx ps=T.eval3D_pstress(0,u,z,MaterialOutput::Generic); c.close(ps(0,0),f*M.ps[0],M.cs*G[0],1e-7,"pstress0 "+at); c.close(ps(1,0),f*M.ps[1],M.cs*G[0],1e-7,"pstress1 "+at);
                                Mx pe=T.eval3D_pstrain(0,u,z); c.close(pe(0,0),f*M.pe[0],1,1e-8,"pstrain0 "+at); c.close(pe(1,0),f*M.pe[1],1,1e-8,"pstrain1 "+at);
                                double e[3]={f*0.5*(g[0]-G[0]),f*0.5*(g[1]-G[1]),f*(g[2]-G[2])}; c.closeM(T.eval3D_strain(0,u,z),vec3(e),1e-8,"strain "+at,1);
                                c.ok(std::isnan(T.eval3D_theta(0,u,z,MaterialOutput::Generic)(0,0)),"no wrinkling direction outside the wrinkled regime "+at); c.ok(std::isnan(T.eval3D_gamma(0,u,z,MaterialOutput::Generic)(0,0)),"no wrinkling strain outside the wrinkled regime "+at); c.op(7);
                            } else if (want==0) {
                                Mx Sw=vec3(M.Sw); Mx S=T.eval3D_stress(0,u,z,MaterialOutput::Generic); c.op(6);
                                c.closeM(S,Sw,1e-7,"wrinkled stress "+at,0.1*M.cs); c.closeM(T.eval3D_vector(0,u,z,MaterialOutput::VectorN),Sw,1e-7,"wrinkled vector "+at,0.1*M.cs);
                                // uniaxial and tensile, judged without the reference direction
                                double det=S(0,0)*S(1,0)-S(2,0)*S(2,0); c.close(det,0,M.cs*M.cs,1e-8,"wrinkled stress is uniaxial "+at);
                                double tr=G[0]*S(0,0)+G[1]*S(1,0)+2*G[2]*S(2,0); if (L.mat==0) c.ok(tr>=-1e-8*M.cs*std::max(G[0],G[1]),"wrinkled stress is tensile "+at,num(tr));
                                c.closeM(T.eval3D_strain(0,u,z),vec3(M.Ew),1e-7,"wrinkled strain "+at,1);
                                c.closeM(T.eval3D_CauchyStress(0,u,z,MaterialOutput::Generic),Sw/J,1e-7,"wrinkled Cauchy stress "+at,0.1*M.cs);
                                double th_=T.eval3D_theta(0,u,z,MaterialOutput::Generic)(0,0), ga=T.eval3D_gamma(0,u,z,MaterialOutput::Generic)(0,0);
                                double nn=M.n[0]*M.n[0]+M.n[1]*M.n[1]; c.close(std::cos(th_)*M.n[1]-std::sin(th_)*M.n[0],0,std::sqrt(nn),1e-6,"wrinkling direction "+at);
                                c.close(ga,M.gam*nn,1,1e-7,"wrinkling strain "+at);
                                { // the same through the evaluators and the single-point calls
                                  gsVector<real_t> uv=u.col(0); gsMaterialMatrixBase<real_t>&b=T; Mx r; auto ev=[&](auto&&e,const Mx&x,const std::string&w,double sc){ e.piece(0).eval_into(u,r); c.closeM(r,x,1e-9,w+" "+at,sc); }; auto one=[](double v){ Mx m(1,1); m<<v; return m; };
                                  ev(gsMaterialMatrixEval<real_t,MaterialOutput::Theta>(&T,&def,z),one(th_),"eval theta",1); ev(gsMaterialMatrixEval<real_t,MaterialOutput::Gamma>(&T,&def,z),one(ga),"eval gamma",1); ev(gsMaterialMatrixEval<real_t,MaterialOutput::TensionField>(&T,&def,z),one(tf),"eval classification",1); ev(gsMaterialMatrixEval<real_t,MaterialOutput::Stress>(&T,&def,z),S,"eval stress",0.1*M.cs);
                                  c.closeM(b.eval3D_theta(0,uv,zz,MaterialOutput::Generic),one(th_),1e-9,"theta (single point) "+at,1); c.closeM(b.eval3D_gamma(0,uv,zz,MaterialOutput::Generic),one(ga),1e-9,"gamma (single point) "+at,1); c.closeM(b.eval3D_tensionfield(0,uv,zz,MaterialOutput::Generic),one(tf),1e-9,"classification (single point) "+at,1);
                                  c.closeM(b.eval3D_stress(0,uv,zz,MaterialOutput::Generic),S,1e-9,"stress (single point) "+at,0.1*M.cs); c.closeM(b.eval3D_CauchyStress(0,uv,zz,MaterialOutput::Generic),Sw/J,1e-7,"Cauchy stress (single point) "+at,0.1*M.cs); c.closeM(b.eval3D_strain(0,uv,zz),vec3(M.Ew),1e-7,"strain (single point) "+at,1); c.op(10); }
                                // stiffness is the derivative of the wrinkled stress
                                if ((L.mat==0) || !lin) { double acc; Mx X=tangent(L,G,g,acc); double tol=L.mat==0||(L.mat==1&&!L.comp)?1e-5:1e-4;
                                    if (acc<1e-3*M.cs && std::min(std::abs(M.ps[0]),std::abs(M.pe[1])*M.cs)>1e-3*M.cs*0) c.closeM(T.eval3D_matrix(0,u,z,MaterialOutput::MatrixA),X,tol,"wrinkled tangent "+at,M.cs); }
                            }
                        }
                        B.mat->options().setInt("TensionField",2);
                    }
                }
            });
        }
    }
}
/// batches, slack multiplier, explicit iterations
template<int d,bool lin> void modes(Check&ck)
{
    bool th=ck.thorough();
    for (auto&L:laws(false,1)) ck.add("d="+std::to_string(d)+";linear="+(lin?"1":"0")+";law="+L.name+";modes",[=](Ctx&c){
        // one surface whose three points are taut, wrinkled and slack: in-plane stretch varies along x
        ref::Poly un=undeformed(d)[0].second, df=un; df.c[2][0]={{0.25,0,0}}; df.c[1][0]={{0.8,0.05,0}}; df.c[0][1]={{0,0.97,0}}; // dx = 0.8+0.5x, dy=0.97
        df.c[1][1]={{0,0.12,0}};
        ref::Poly d2=un.lin(ref::diag(1.2,1.15,1)), d3=un.lin(ref::diag(0.9,0.92,1)), d4=un.lin(ref::mat(1.2,0.1,0,0,0.75,0,0,0,1));
        gsMultiPatch<real_t> ori=mpatch<d>(un),A=mpatch<d>(df),taut=mpatch<d>(d2),slack=mpatch<d>(d3),wrin=mpatch<d>(d4); MatBox<d> B(L,ori,"0.05");
        auto fresh=[&](const gsMultiPatch<real_t>&D){ MatBox<d>*b=new MatBox<d>(L,ori,"0.05"); auto*t=new gsMaterialMatrixTFT<d,real_t,lin>(b->mat.get()); t->setDeformed(&D); return t; };
        typedef gsMaterialMatrixTFT<d,real_t,lin> TT;
        std::vector<std::pair<std::string,std::function<Mx(TT&,int,const Mx&,const Mx&)>>> ops;
#define OP(n,e) ops.push_back({n,[](TT&t,int p,const Mx&u,const Mx&z)->Mx{ return e; }});
        OP("stress",t.eval3D_stress(p,u,z,MaterialOutput::Generic)) OP("matrix",t.eval3D_matrix(p,u,z,MaterialOutput::MatrixA)) OP("vector",t.eval3D_vector(p,u,z,MaterialOutput::VectorN)) OP("cauchy",t.eval3D_CauchyStress(p,u,z,MaterialOutput::Generic))
        OP("pstress",t.eval3D_pstress(p,u,z,MaterialOutput::Generic)) OP("pstrain",t.eval3D_pstrain(p,u,z)) OP("strain",t.eval3D_strain(p,u,z)) OP("tf",t.eval3D_tensionfield(p,u,z,MaterialOutput::Generic))
        OP("theta",t.eval3D_theta(p,u,z,MaterialOutput::Generic)) OP("gamma",t.eval3D_gamma(p,u,z,MaterialOutput::Generic))
        auto same=[&](const Mx&a,const Mx&b,double tol){ if(a.rows()!=b.rows()||a.cols()!=b.cols()) return false; double s=0; for(int i=0;i<b.size();++i) if(!std::isnan(b.data()[i])) s=std::max(s,std::abs(b.data()[i]));
            for(int i=0;i<b.size();++i){ if (std::isnan(a.data()[i])!=std::isnan(b.data()[i])) return false; if(!std::isnan(b.data()[i])&&std::abs(a.data()[i]-b.data()[i])>tol*(s+1e-12)) return false; } return true; };
        static const double xs[4][2]={{0.05,0.5},{0.35,0.4},{0.9,0.7},{0.6,0.05}};
        std::set<double> seen;
        ref::Poly db=df; db.c[2][0][2]=0.4; db.c[1][1][2]=0.3; db.c[0][2]={{0,0,-0.25}}; gsMultiPatch<real_t> Ab=mpatch<d>(db); // the same with bending: the heights differ
        for (int bent=0;bent<(d==3?2:1);++bent) for (int mask=1;mask<16;++mask) for (int nz=bent+1;nz<=(th?3:2);++nz) for (auto&o:ops) for (auto&o0:ops) {
            int n=__builtin_popcount(mask); Mx u(2,n),z(nz,n); for(int i=0,k=0;i<4;++i) if(mask>>i&1){ u(0,k)=xs[i][0]; u(1,k)=xs[i][1]; ++k; }
            for(int j=0;j<nz;++j)for(int k=0;k<n;++k) z(j,k)=0.2*j-0.1;
            if (&o0!=&ops[0] && (mask!=15&&mask!=5)) continue;
            const gsMultiPatch<real_t>&AA=bent?Ab:A; TT T(B.mat.get()); T.setDeformed(&AA); o0.second(T,0,u,z); Mx R=o.second(T,0,u,z); c.state(); c.op(2);
            if(!c.ok(R.cols()==n*nz,"batch size "+o.first)) continue;
            for(int j=0;j<nz;++j)for(int k=0;k<n;++k){ std::unique_ptr<TT> S(fresh(AA)); Mx u1=u.col(k),z1=z.block(j,k,1,1); Mx r=o.second(*S,0,u1,z1); c.op();
                if (o.first=="tf") seen.insert(r(0,0));
                c.ok(same(R.col(j*n+k),r,1e-9),"batch value "+o.first+" after "+o0.first+(bent?" (bent)":"")); } }
        c.ok(seen.size()==3,"all three regimes present in the batch");
        // several patches, each in another regime and with another thickness: every patch as if it were alone
        { const ref::Poly pu[3]={un,undeformed(d)[1].second,undeformed(d)[2].second}; const ref::M3 pm[3]={ref::diag(1.2,1.15,1),ref::mat(1.2,0.1,0,0,0.75,0,0,0,1),ref::diag(0.9,0.92,1)}; static const int perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
          for(auto&q:perm) { gsMultiPatch<real_t> o3,d3_; for(int p=0;p<3;++p){ o3.addPatch(pu[p].template spline<d>()); d3_.addPatch(pu[p].lin(pm[q[p]]).template spline<d>()); } MatBox<d> B3(L,o3,"0.05"); TT T(B3.mat.get()); T.setDeformed(&d3_);
            for(int p=0;p<3;++p) for(int p0=0;p0<3;++p0) for(auto&o:ops) { gsMultiPatch<real_t> o1=mpatch<d>(pu[p]),d1=mpatch<d>(pu[p].lin(pm[q[p]])); MatBox<d> B1(L,o1,"0.05"); TT T1(B1.mat.get()); T1.setDeformed(&d1); Mx u(2,2),z(1,2); u<<0.3,0.7,0.6,0.2; z<<0.1,0.1;
                ops[3].second(T,p0,u,z); c.state(); c.op(3); c.ok(same(o.second(T,p,u,z),o.second(T1,0,u,z),1e-9),"value on one of several patches "+o.first); } } }
        Mx u(2,1),z(1,1); u<<0.4,0.7; z<<0;
        auto eq=[&](const Mx&a,const Mx&b,const std::string&n){ c.state(); c.closeM(a,b,1e-9,n,1e-9); };
        for (double m:{0.0,0.25,1.0}) { TT T(B.mat.get()); T.options().setReal("SlackMultiplier",m);
            T.setDeformed(&slack); Mx S=T.eval3D_stress(0,u,z,MaterialOutput::Generic),C=T.eval3D_matrix(0,u,z,MaterialOutput::MatrixA); eq(S,m*B.mat->eval3D_stress(0,u,z,MaterialOutput::VectorN),"slack multiplier stress"); eq(C,m*B.mat->eval3D_matrix(0,u,z,MaterialOutput::MatrixA),"slack multiplier matrix");
            eq(T.eval3D_CauchyStress(0,u,z,MaterialOutput::Generic),m*B.mat->eval3D_CauchyStress(0,u,z,MaterialOutput::CauchyStressN),"slack multiplier Cauchy");
            T.setDeformed(&taut); eq(T.eval3D_stress(0,u,z,MaterialOutput::Generic),B.mat->eval3D_stress(0,u,z,MaterialOutput::VectorN),"taut is independent of the slack multiplier"); }
        // explicit iterations: the classification is frozen on another geometry
        const gsMultiPatch<real_t>*geos[3]={&taut,&wrin,&slack}; const char*gn[3]={"taut","wrinkled","slack"};
        for (int f=0;f<3;++f) for (int g=0;g<3;++g) { TT T(B.mat.get()); T.setDeformed(geos[g]); T.updateDeformed(geos[f]); T.options().setSwitch("Explicit",true);
            std::string at=std::string(" frozen ")+gn[f]+" current "+gn[g]; Mx S0=B.mat->eval3D_stress(0,u,z,MaterialOutput::VectorN);
            double tf=T.eval3D_tensionfield(0,u,z,MaterialOutput::Generic)(0,0); c.ok(tf==1-f,"explicit classification"+at);
            Mx S=T.eval3D_stress(0,u,z,MaterialOutput::Generic); if(f==0) eq(S,S0,"explicit stress"+at); if(f==2) eq(S,0*S0,"explicit stress"+at);
            if (f==1&&g==1) { std::unique_ptr<TT> I(fresh(wrin)); eq(S,I->eval3D_stress(0,u,z,MaterialOutput::Generic),"explicit equals implicit"+at); }
            Mx S1=B.mat->eval3D_stress(0,u,z,MaterialOutput::VectorN); eq(S1,S0,"deformed geometry restored"+at); }
        // directions computed for several states at once equal those computed one by one
        { std::vector<Mx> Cs,Ns,Es; for(int ia=0;ia<12;++ia) for(double l2:{0.75,0.97}) { double an=M_PI*ia/12,co=std::cos(an),si=std::sin(an),l1=1.15; Def D; D.bend=0; D.rotate=false; D.A=ref::mat(l1*co*co+l2*si*si,(l1-l2)*co*si,0,(l1-l2)*co*si,l1*si*si+l2*co*co,0,0,0,1);
            gsMultiPatch<real_t> W=mpatch<d>(deform(un,D,d)); TT T(B.mat.get()); T.setDeformed(&W); if (T.eval3D_tensionfield(0,u,z,MaterialOutput::Generic)(0,0)!=0) { T.setDeformed(&taut); continue; }
            Cs.push_back(B.mat->eval3D_matrix(0,u,z,MaterialOutput::MatrixA)); Ns.push_back(B.mat->eval3D_stress(0,u,z,MaterialOutput::VectorN)); Es.push_back(B.mat->eval3D_strain(0,u,z)); T.setDeformed(&taut); }
          B.mat->setDeformed(&taut); TT T(B.mat.get()); c.ok(Cs.size()>=12,"wrinkled states for the direction search");
          for(size_t i=0;i<Cs.size();++i) for(size_t j=0;j<Cs.size();++j) { Mx C2(9,2),N2(3,2),E2(3,2); C2<<Cs[i],Cs[j]; N2<<Ns[i],Ns[j]; E2<<Es[i],Es[j]; Mx t2=T.eval_theta(C2,N2,E2), ta=T.eval_theta(Cs[i],Ns[i],Es[i]), tb=T.eval_theta(Cs[j],Ns[j],Es[j]); c.state(); c.op();
            c.close(std::sin(t2(0,0)-ta(0,0)),0,1,1e-6,"direction of the first of two states"); c.close(std::sin(t2(0,1)-tb(0,0)),0,1,1e-6,"direction of the second of two states"); } }
        // through the evaluators used by the assembler
        for (int g=0;g<3;++g) { TT T(B.mat.get()); std::unique_ptr<TT> I(fresh(*geos[g])); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> iN(&T,geos[g]); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> iA(&T,geos[g]); Mx r;
            iN.piece(0).eval_into(u,r); eq(r,0.05*I->eval3D_stress(0,u,z,MaterialOutput::VectorN),std::string("membrane force ")+gn[g]); iA.piece(0).eval_into(u,r); eq(r,0.05*I->eval3D_matrix(0,u,z,MaterialOutput::MatrixA),std::string("membrane stiffness ")+gn[g]);
            gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> eT(&T,geos[g],z); eT.piece(0).eval_into(u,r); c.ok(r(0,0)==1-g,std::string("evaluated classification ")+gn[g]); }
    });
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C07");
    ck.bound("full product of laws x linear/nonlinear variant x surfaces x 45 principal-stretch pairs x orientations x heights x classification options; all batches of four points, all operation pairs, all frozen/current geometry pairs");
    ck.assume("membrane states (no curvature change) at z=0 and, on flat surfaces, z=0.4; isotropic base laws, for which the wrinkling direction is a principal direction");
    ck.assume("classification is not judged within 1e-9 (relative) of a transition");
    explore<2,true>(ck); explore<2,false>(ck); explore<3,true>(ck); explore<3,false>(ck);
    modes<2,true>(ck); modes<2,false>(ck); modes<3,true>(ck); modes<3,false>(ck);
    return ck.run();
}
