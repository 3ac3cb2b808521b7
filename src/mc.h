/* Bounded exhaustive exploration engine.
 *
 * A check registers a finite list of tasks (the enumerated configurations or
 * operation-sequence prefixes). Every task is executed on the real library in
 * forked workers, so that a crash, an abort or a hang of the code under test is
 * itself an observed outcome attributed to one configuration. Nothing is
 * sampled: a run ends only when every task of the bounded space was executed. */
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <atomic>
#include <chrono>
#include <regex>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

struct Failure { std::string key, check, detail; };

inline std::string esc(const std::string &s)
{
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c=='"'||c=='\\') { r+='\\'; r+=c; }
        else if (c=='\n') r+="\\n";
        else if (c=='\t') r+=' ';
        else if (c<32 || c>126) { snprintf(b,8,"\\u%04x",c); r+=b; }
        else r+=c;
    }
    return r;
}

class Ctx
{
public:
    std::string key;
    std::vector<Failure> fails;
    long states=0, transitions=0, comparisons=0;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> notes;
    double maxerr=0; std::string worst;
    void rate(double r,const std::string&n){ if(r>maxerr){ maxerr=r; worst=n; } }

    static uint64_t mix(uint64_t h, uint64_t x)
    { h ^= x + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2); return h*0xff51afd7ed558ccdULL; }

    void state(long n=1) { states+=n; }
    void op(long n=1) { transitions+=n; }
    void outcome(double v)
    {   // distinct outcomes, rounded to 6 significant digits
        char b[40]; snprintf(b,40,"%.5e",v+0.0);
        uint64_t h=1469598103934665603ULL; for(char*p=b;*p;++p) h=(h^(unsigned char)*p)*1099511628211ULL;
        if (outcomes.size()<200000) outcomes.insert(h);
    }
    void fail(const std::string &check, const std::string &detail)
    { if (fails.size()<500) fails.push_back({key,check,detail}); }
    bool ok(bool c, const std::string &check, const std::string &detail="")
    { comparisons++; if(!c) fail(check,detail); return c; }

    /// |a-b| <= tol*scale
    bool close(double a, double b, double scale, double tol, const std::string &check)
    {
        comparisons++; outcome(b);
        double e=std::abs(a-b);
        bool good = (e<=tol*scale) && std::isfinite(a) && std::isfinite(b);
        if (good) { if (scale>0) rate(e/(tol*scale),check); return true; }
        std::ostringstream o; o<<std::setprecision(12)<<"got "<<a<<" expected "<<b<<" (err "<<e<<" > "<<tol<<"*"<<scale<<")";
        fail(check,o.str()); return false;
    }
    /// matrices: max|a-b| <= tol*max(|b|max,floor)
    template<class A,class B>
    bool closeM(const A &a, const B &b, double tol, const std::string &check, double floor=0, bool dims=true)
    {
        comparisons++;
        if (dims && (a.rows()!=b.rows() || a.cols()!=b.cols())) {
            std::ostringstream o; o<<"size "<<a.rows()<<"x"<<a.cols()<<" expected "<<b.rows()<<"x"<<b.cols();
            fail(check,o.str()); return false; }
        double s=floor, e=0; bool fin=true; long ei=0,ej=0;
        for (long i=0;i<b.rows();++i) for(long j=0;j<b.cols();++j) {
            double bv=b(i,j), av=a(i,j);
            if (!std::isfinite(av)||!std::isfinite(bv)) { fin=false; ei=i; ej=j; }
            s=std::max(s,std::abs(bv)); outcome(bv);
            if (std::abs(av-bv)>e) { e=std::abs(av-bv); ei=i; ej=j; } }
        if (fin && e<=tol*s) { if (s>0) rate(e/(tol*s),check); return true; }
        std::ostringstream o; o<<std::setprecision(12);
        if (b.rows()>0 && b.cols()>0) o<<"entry ("<<ei<<","<<ej<<") got "<<a(ei,ej)<<" expected "<<b(ei,ej)<<" (maxerr "<<e<<", scale "<<s<<", tol "<<tol<<")";
        fail(check,o.str()); return false;
    }
    void note(const std::string &s){ if(notes.size()<6) notes.push_back(s); }
};

typedef std::function<void(Ctx&)> Task;

class Check
{
    struct Shared { std::atomic<long> next,failed; std::atomic<long> cur[64]; std::atomic<long> since[64]; };
    std::string m_id, m_tier, m_evid, m_known, m_replayKey, m_outdir, m_only; long m_jobs=8; double m_timeout=240; bool m_list=false, m_verbose=false;
    std::vector<std::pair<std::string,Task>> m_tasks;
    std::vector<std::string> m_assume;
    std::vector<std::string> m_rule;
public:
    Check(int argc, char**argv, const std::string &id) : m_id(id), m_tier("quick")
    {
        for (int i=1;i<argc;++i) {
            std::string a=argv[i]; auto nx=[&](){ return std::string(i+1<argc?argv[++i]:""); };
            if (a=="--tier") m_tier=nx(); else if (a=="--evidence") m_evid=nx();
            else if (a=="--known") m_known=nx(); else if (a=="--replay") m_replayKey=nx();
            else if (a=="--outdir") m_outdir=nx(); else if (a=="--jobs") m_jobs=atol(nx().c_str());
            else if (a=="--timeout") m_timeout=atof(nx().c_str()); else if (a=="--list") m_list=true;
            else if (a=="--only") m_only=nx(); else if (a=="-v") m_verbose=true;
            else if (a=="--id") m_id=nx();
        }
        if (m_jobs>64) m_jobs=64;
    }
    const std::string & id() const { return m_id; }
    bool thorough() const { return m_tier=="thorough"; }
    void assume(const std::string &s){ m_assume.push_back(s); }
    void bound(const std::string &s){ m_rule.push_back(s); }
    void add(const std::string &key, Task t)
    {   if (!m_replayKey.empty() && key!=m_replayKey) return;
        if (!m_only.empty() && key.find(m_only)==std::string::npos) return;
        m_tasks.push_back({key,t}); }
    size_t size() const { return m_tasks.size(); }

    static long nowms(){ return (long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    static void exec(const std::string &key, const Task &t, Ctx &c)
    {
        c.key=key;
        try { t(c); }
        catch (const std::exception &e) { c.fail("unexpected-exception", e.what()); }
        catch (...) { c.fail("unexpected-exception","unknown"); }
    }

    int run()
    {
        auto t0=std::chrono::steady_clock::now();
        if (m_list) { for (auto&t:m_tasks) std::cout<<t.first<<"\n"; return 0; }
        if (m_tasks.empty()) { std::cerr<<"no such configuration\n"; return 2; }
        if (m_outdir.empty()) m_outdir="/tmp";
        Shared *sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        new(sh) Shared; sh->next=0; sh->failed=0; for(int i=0;i<64;++i){ sh->cur[i]=-1; sh->since[i]=0; }
        // known findings
        std::vector<std::pair<std::regex,std::string>> known;
        { std::ifstream in(m_known); std::string l; while(std::getline(in,l)) {
            // KNOWN<TAB>property<TAB>regex over "key|check"<TAB>description
            std::vector<std::string> f; std::stringstream ss(l); std::string x; while(std::getline(ss,x,'\t')) f.push_back(x);
            if (f.size()>=4 && f[0]=="KNOWN" && f[1]==m_id) known.push_back({std::regex(f[2]),f[3]}); } }
        auto isKnown=[&](const std::string&k,const std::string&c){ for(auto&kk:known) if (std::regex_match(k+"|"+c,kk.first)) return true; return false; };
        bool failfast=getenv("MC_FAILFAST")!=nullptr; // development only
        char dirt[]="/tmp/mcXXXXXX"; std::string dir=mkdtemp(dirt);
        std::vector<pid_t> pid(m_jobs,0);
        std::vector<Failure> fails; long crashes=0,hangs=0; int gen=0;
        std::vector<std::string> resfiles;
        auto spawn=[&](int w){
            std::string rf=dir+"/r"+std::to_string(w)+"_"+std::to_string(gen++); resfiles.push_back(rf);
            fflush(stdout); std::cout.flush();
            pid_t p=fork();
            if (p==0) {
                // deep recursion / memory runaway in changed code must not take the machine down
                struct rlimit rl; rl.rlim_cur=rl.rlim_max=(rlim_t)6<<30; setrlimit(RLIMIT_AS,&rl);
                rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
                if (!m_verbose) { int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); }
                FILE*f=fopen(rf.c_str(),"w");
                for (;;) {
                    long i=sh->next.fetch_add(1); if (i>=(long)m_tasks.size()) break;
                    sh->since[w]=nowms(); sh->cur[w]=i;
                    Ctx c; exec(m_tasks[i].first,m_tasks[i].second,c);
                    fprintf(f,"T\t%ld\t%ld\t%ld\t%ld\t%.3e\t%s\n",i,c.states,c.transitions,c.comparisons,c.maxerr,esc(c.worst).c_str());
                    for (auto h:c.outcomes) fprintf(f,"O\t%llx\n",(unsigned long long)h);
                    for (auto&n:c.notes) fprintf(f,"N\t%ld\t%s\n",i,esc(n).c_str());
                    for (auto&x:c.fails) fprintf(f,"F\t%ld\t%s\t%s\n",i,esc(x.check).c_str(),esc(x.detail).c_str());
                    for (auto&x:c.fails) if (!sh->failed&&!isKnown(m_tasks[i].first,x.check)) { sh->failed=1; if (failfast) sh->next=(long)m_tasks.size(); }
                    fflush(f); sh->cur[w]=-1;
                }
                fclose(f); _exit(0);
            }
            pid[w]=p;
        };
        int W=(int)std::min<long>(m_jobs,(long)m_tasks.size());
        for(int w=0;w<W;++w) spawn(w);
        int alive=W;
        while (alive>0) {
            int st; pid_t p=waitpid(-1,&st,WNOHANG);
            if (p==0) {
                usleep(20000);
                // once a violation is established, a run that drags on (changed code may hang or crawl) is cut short and reported
                if (m_tier!="thorough" && sh->next<(long)m_tasks.size() && (hangs>=3 || (sh->failed || crashes) && std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>420)) sh->next=(long)m_tasks.size();
                for(int w=0;w<W;++w) if (pid[w]>0 && sh->cur[w]>=0 && nowms()-sh->since[w]>m_timeout*1000) {
                    long i=sh->cur[w]; fails.push_back({m_tasks[i].first,"termination","no answer within the time limit"});
                    kill(pid[w],SIGKILL); int s2; waitpid(pid[w],&s2,0); sh->cur[w]=-1; crashes++; hangs++;
                    if (crashes<200&&sh->next<(long)m_tasks.size()) spawn(w); else { pid[w]=0; alive--; }
                }
                continue;
            }
            if (p<0) break;
            for(int w=0;w<W;++w) if (pid[w]==p) {
                if (WIFEXITED(st) && WEXITSTATUS(st)==0) { pid[w]=0; alive--; }
                else {
                    long i=sh->cur[w]; std::ostringstream o;
                    if (WIFSIGNALED(st)) o<<"terminated by signal "<<WTERMSIG(st); else o<<"exited with "<<WEXITSTATUS(st);
                    if (i>=0) fails.push_back({m_tasks[i].first,"crash",o.str()});
                    sh->cur[w]=-1; crashes++;
                    if (crashes<200) spawn(w); else { pid[w]=0; alive--; }
                }
            }
        }
        long states=0,trans=0,comp=0,done=0; double maxerr=0; std::string worst; std::unordered_set<std::string> outc; std::vector<std::string> notes;
        for (auto&rf:resfiles) {
            std::ifstream in(rf); std::string line;
            while (std::getline(in,line)) {
                std::vector<std::string> f; std::stringstream ss(line); std::string x; while(std::getline(ss,x,'\t')) f.push_back(x);
                if (f.empty()) continue;
                if (f[0]=="T" && f.size()>=6) { done++; states+=atol(f[2].c_str()); trans+=atol(f[3].c_str()); comp+=atol(f[4].c_str()); if(atof(f[5].c_str())>maxerr){ maxerr=atof(f[5].c_str()); worst=m_tasks[atol(f[1].c_str())].first+" :: "+(f.size()>6?f[6]:""); } }
                else if (f[0]=="O") outc.insert(f[1]);
                else if (f[0]=="N" && f.size()>=3 && notes.size()<8) notes.push_back(m_tasks[atol(f[1].c_str())].first+" :: "+f[2]);
                else if (f[0]=="F" && f.size()>=3) fails.push_back({m_tasks[atol(f[1].c_str())].first,f[2],f.size()>3?f[3]:""});
            }
            unlink(rf.c_str());
        }
        rmdir(dir.c_str());
        bool complete = (done+ (long)crashes >= (long)m_tasks.size());
        std::vector<Failure> bad; std::set<std::string> hit; long knownhits=0;
        for (auto&f:fails) {
            bool k=false;
            for (auto&kk:known) if (std::regex_match(f.key+"|"+f.check,kk.first)) { hit.insert(kk.second); k=true; knownhits++; break; }
            if (!k) bad.push_back(f);
        }
        if (const char*dump=getenv("MC_DUMP")) { std::ofstream o(dump); for(auto&f:bad) o<<f.key<<"|"<<f.check<<"|"<<f.detail<<"\n"; }
        for (auto&h:hit) std::cout<<"KNOWN-FINDING: property="<<m_id<<" "<<h<<"\n";
        // replay the first failing configurations in a fresh process before reporting them
        std::map<std::string,std::vector<Failure>> bykey; std::vector<std::string> order;
        for (auto&f:bad) { if(!bykey.count(f.key)) order.push_back(f.key); bykey[f.key].push_back(f); }
        double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
        int shown=0; int maxshown=getenv("MC_SHOW")?atoi(getenv("MC_SHOW")):5;
        for (auto&k:order) {
            if (shown>=maxshown) break;
            std::string path=m_outdir+"/"+m_id+"-"+std::to_string(shown)+".json";
            std::ofstream o(path);
            o<<"{\n \"property\": \""<<m_id<<"\",\n \"key\": \""<<esc(k)<<"\",\n \"tier\": \""<<m_tier<<"\",\n \"failures\": [\n";
            auto&v=bykey[k]; for(size_t i=0;i<v.size();++i) o<<"  {\"check\": \""<<v[i].check<<"\", \"detail\": \""<<v[i].detail<<"\"}"<<(i+1<v.size()?",":"")<<"\n";
            o<<" ]\n}\n"; o.close();
            std::cout<<"  configuration: "<<k<<"\n";
            for(size_t i=0;i<std::min<size_t>(v.size(),maxshown>5?50:3);++i) std::cout<<"    "<<v[i].check<<": "<<v[i].detail<<"\n";
            std::cout<<"VIOLATION property="<<m_id<<" replay="<<path<<"\n";
            shown++;
        }
        std::ostringstream ev;
        ev<<"{\n \"property\": \""<<m_id<<"\",\n \"tier\": \""<<m_tier<<"\",\n \"seed\": "<<(getenv("VERIF_SEED")?atol(getenv("VERIF_SEED")):0)<<",\n \"level\": \"model_checking\",\n";
        ev<<" \"coverage\": {\n  \"states\": "<<(states?states:done)<<",\n  \"transitions\": "<<(trans?trans:comp)<<",\n  \"traces_validated_against_impl\": "<<done
          <<",\n  \"oracle_comparisons\": "<<comp<<",\n  \"distinct_outcomes\": "<<outc.size()<<",\n  \"tasks_in_bounded_space\": "<<m_tasks.size()
          <<",\n  \"crashed_or_hung_tasks\": "<<crashes<<",\n  \"exhaustive\": "<<(complete?"true":"false")<<",\n  \"known_finding_hits\": "<<knownhits
          <<",\n  \"worst_error_over_tolerance\": "<<maxerr<<",\n  \"rule\": \"";
        for(auto&r:m_rule) ev<<esc(r)<<" ";
        ev<<"\",\n  \"worst_comparison\": \""<<esc(worst)<<"\",\n  \"samples\": [";
        std::vector<std::string> sm; size_t n=m_tasks.size(); for (size_t i: {(size_t)0,n/3,(2*n)/3,n-1}) if (i<n) sm.push_back(m_tasks[i].first);
        for (auto&x:notes) sm.push_back(x);
        for(size_t i=0;i<sm.size();++i) ev<<(i?", ":"")<<"\""<<esc(sm[i])<<"\"";
        ev<<"]\n },\n \"wall_s\": "<<wall<<",\n \"violations\": "<<bykey.size()<<",\n \"assumptions\": [";
        for(size_t i=0;i<m_assume.size();++i) ev<<(i?", ":"")<<"\""<<esc(m_assume[i])<<"\"";
        ev<<"]\n}\n";
        if (!m_evid.empty()) { std::ofstream o(m_evid); o<<ev.str(); }
        std::cout<<m_id<<": tasks "<<done<<"/"<<m_tasks.size()<<" states "<<(states?states:done)<<" transitions "<<(trans?trans:comp)<<" comparisons "<<comp
                 <<" outcomes "<<outc.size()<<" failing "<<bykey.size()<<" known "<<knownhits<<" worst "<<maxerr<<" ("<<worst<<")"<<" wall "<<wall<<"s\n";
        if (!bad.empty()) {
            std::map<std::string,int> bc; for(auto&f:bad) bc[f.check]++;
            for(auto&x:bc) std::cout<<"    failing check kind: "<<x.first<<" x"<<x.second<<"\n";
            return 1; }
        if (!complete) { std::cout<<"incomplete exploration\n"; return 2; }
        return 0;
    }
};
} // namespace mc
