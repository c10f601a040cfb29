// Bounded-exhaustive exploration kernel used by every harness of /verif.
//
// A harness enumerates a finite space completely; every element of it is one "case"
// (an input configuration, a whole operation history, a choice sequence). Cases are
// numbered in enumeration order, so that (section, ordinal) identifies one of them and
// the same binary can replay it alone.  Cases are distributed over shards by ordinal.
//
// A case ends in one of: passed, violation (an oracle disagreed), violation (the code under
// test aborted, crashed, looped or threw where the oracle expects a value).
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

struct Violation { std::string section, tag, desc, msg; uint64_t ord; };

struct State
{
	int shard=0, nshards=1;
	bool thorough=false;
	bool replay=false;
	std::string only_section;
	uint64_t only_ord=0;
	FILE* out=nullptr;

	std::string section;
	std::map<std::string,uint64_t> ord;         // next ordinal per section
	std::map<std::string,uint64_t> done;        // cases executed per section
	uint64_t cases=0, steps=0, checks=0, nviol=0;
	std::unordered_set<uint64_t> outcomes;
	std::vector<std::string> samples;
	std::map<std::string,int> sampled;

	// current case
	volatile bool in_case=false;
	volatile uint64_t seq=0, last_seq_seen=0;
	int same=0;
	sigjmp_buf jb;
	std::function<std::string()> desc;
	uint64_t cur_ord=0;
	uint64_t case_viol=0;
	int crashes=0;
	std::map<std::string,int> per_tag;
};
inline State& S() { static State s; return s; }

inline bool thorough() { return S().thorough; }

inline std::string esc( const std::string& s )
{
	std::string o;
	for( unsigned char c: s )
	{
		if( c=='"' || c=='\\' ) { o+='\\'; o+=c; }
		else if( c=='\n' ) o+="\\n";
		else if( c=='\t' ) o+="\\t";
		else if( c<32 || c>126 ) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; }
		else o+=c;
	}
	return o;
}

inline void emitViol( const std::string& tag, const std::string& msg )
{
	auto& s=S();
	s.nviol++; s.case_viol++;
	std::string key = s.section + "/" + tag;
	if( s.per_tag[key]++ >= 400 ) return;        // keep files small; the count stays exact
	std::string d;
	try { d = s.desc ? s.desc() : ""; } catch(...) { d="?"; }
	fprintf( s.out, "{\"k\":\"v\",\"section\":\"%s\",\"ord\":%llu,\"tag\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n",
		esc(s.section).c_str(), (unsigned long long)s.cur_ord, esc(tag).c_str(), esc(d).c_str(), esc(msg.substr(0,600)).c_str() );
	fflush( s.out );
}

/// records a disagreement between the code and the oracle for the current case
inline void fail( const std::string& tag, const std::string& msg ) { emitViol( tag, msg ); }

/// oracle comparison
template<class M>
inline bool check( bool ok, const char* tag, M&& msg )
{
	S().checks++;
	if( !ok )
	{
		if constexpr( std::is_invocable_v<M> ) emitViol( tag, msg() );
		else emitViol( tag, msg );
	}
	return ok;
}
inline bool check( bool ok, const char* tag ) { return check( ok, tag, "" ); }

/// number of calls into the code under test / model transitions taken
inline void step( uint64_t n=1 ) { S().steps += n; }
/// something observable the case ended in: a run with few distinct outcomes explored nothing
inline void outcome( uint64_t h ) { auto& o=S().outcomes; if( o.size()<2000000 ) o.insert( h ); }
inline uint64_t mix( uint64_t a, uint64_t b ) { a ^= b + 0x9e3779b97f4a7c15ULL + (a<<6) + (a>>2); return a*0xff51afd7ed558ccdULL ^ (a>>33); }
inline uint64_t hd( double d ) { if(d==0) d=0; double r=std::round(d*1e6); uint64_t u; memcpy(&u,&r,8); return u; }

inline void onSignal( int sig )
{
	auto& s=S();
	if( sig==SIGVTALRM )
	{
		if( s.in_case && s.seq==s.last_seq_seen )
		{
			if( ++s.same >= (s.replay?10:3) && s.in_case ) { s.same=0; siglongjmp( s.jb, SIGVTALRM ); }
		}
		else { s.same=0; s.last_seq_seen=s.seq; }
		return;
	}
	if( s.in_case ) siglongjmp( s.jb, sig );
	_exit( 70 );
}
inline void onExit()
{
	auto& s=S();
	if( s.in_case )
	{
		emitViol( "exit", "the code under test terminated the process (exit)" );
		fprintf( s.out, "{\"k\":\"end\",\"aborted\":1,\"cases\":%llu,\"steps\":%llu,\"checks\":%llu,\"nviol\":%llu,\"outcomes\":%llu,\"sections\":{},\"samples\":[]}\n",
			(unsigned long long)s.cases,(unsigned long long)s.steps,(unsigned long long)s.checks,(unsigned long long)s.nviol,(unsigned long long)s.outcomes.size() );
		fflush( s.out );
		_exit( 0 );
	}
}

inline void section( const std::string& n ) { S().section=n; }

/// Runs one case. \c body performs calls and checks, \c desc gives its text (lazily).
/// Returns false if the case belongs to another shard (not executed).
template<class Body, class Desc>
bool run( Body&& body, Desc&& desc )
{
	auto& s=S();
	uint64_t o = s.ord[s.section]++;
	if( s.replay ) { if( s.section!=s.only_section || o!=s.only_ord ) return false; }
	else if( int(o % s.nshards) != s.shard ) return false;
	s.cur_ord=o;
	s.desc=[&desc]{ std::ostringstream os; os<<desc(); return os.str(); };
	s.case_viol=0;
	s.cases++; s.done[s.section]++;
	s.seq=s.seq+1;
	if( s.sampled[s.section]<2 && (o%97==0) ) { s.sampled[s.section]++; s.samples.push_back( s.section+": "+s.desc() ); }
	int sig = sigsetjmp( s.jb, 1 );
	if( sig==0 )
	{
		s.in_case=true;
		try { body(); s.in_case=false; }
		catch( const std::exception& e ) { s.in_case=false; emitViol( "exception", std::string("unexpected exception: ")+e.what() ); }
		catch( ... ) { s.in_case=false; emitViol( "exception", "unexpected exception (unknown type)" ); }
	}
	else
	{
		s.in_case=false;
		emitViol( sig==SIGVTALRM?"hang":"crash", sig==SIGVTALRM ? std::string("no return after several seconds of CPU time") : std::string("signal: ")+strsignal(sig) );
		if( ++s.crashes > 40 )
		{
			fprintf( s.out, "{\"k\":\"end\",\"aborted\":1,\"cases\":%llu,\"steps\":%llu,\"checks\":%llu,\"nviol\":%llu,\"outcomes\":%llu,\"sections\":{},\"samples\":[]}\n",
				(unsigned long long)s.cases,(unsigned long long)s.steps,(unsigned long long)s.checks,(unsigned long long)s.nviol,(unsigned long long)s.outcomes.size() );
			fflush( s.out );
			_exit( 0 );
		}
	}
	s.desc=nullptr;
	return true;
}

/// calls f, returns 0 if it returned, 1 if it threw std::runtime_error (the documented error), 2 for any other std::exception
template<class F>
int thrown( F&& f, std::string* what=nullptr )
{
	step();
	try { f(); return 0; }
	catch( const std::runtime_error& e ) { if(what) *what=e.what(); return 1; }
	catch( const std::exception& e ) { if(what) *what=e.what(); return 2; }
}

inline void init( int argc, char** argv )
{
	auto& s=S();
	s.out=stdout;
	for( int i=1;i<argc;i++ )
	{
		std::string a=argv[i];
		auto val=[&]{ return std::string(argv[++i]); };
		if( a=="--shard" ) s.shard=atoi(val().c_str());
		else if( a=="--nshards" ) s.nshards=atoi(val().c_str());
		else if( a=="--tier" ) s.thorough = val()=="thorough";
		else if( a=="--out" ) { s.out=fopen(val().c_str(),"w"); if(!s.out) _exit(71); }
		else if( a=="--replay" ) { s.replay=true; s.only_section=val(); s.only_ord=strtoull(val().c_str(),0,10); }
	}
	if( !getenv("MC_STDERR") ) { int fd=open("/dev/null",O_WRONLY); dup2(fd,2); if( s.out!=stdout ) dup2(fd,1); }
	struct rlimit rl{ 3ull<<30, 3ull<<30 };
	setrlimit( RLIMIT_AS, &rl );
	stack_t ss{}; static char alt[1<<16]; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack( &ss, nullptr );
	struct sigaction sa{}; sa.sa_handler=onSignal; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
	for( int g: {SIGABRT,SIGSEGV,SIGFPE,SIGBUS,SIGILL,SIGVTALRM} ) sigaction( g, &sa, nullptr );
	struct itimerval it{ {2,0},{2,0} };
	setitimer( ITIMER_VIRTUAL, &it, nullptr );
	atexit( onExit );
}
inline int finish()
{
	auto& s=S();
	std::string sec, sam;
	for( auto& p: s.done ) { if(!sec.empty()) sec+=","; sec += "\""+esc(p.first)+"\":"+std::to_string(p.second); }
	for( auto& p: s.samples ) { if(!sam.empty()) sam+=","; sam += "\""+esc(p)+"\""; }
	fprintf( s.out, "{\"k\":\"end\",\"cases\":%llu,\"steps\":%llu,\"checks\":%llu,\"nviol\":%llu,\"outcomes\":%llu,\"sections\":{%s},\"samples\":[%s]}\n",
		(unsigned long long)s.cases,(unsigned long long)s.steps,(unsigned long long)s.checks,(unsigned long long)s.nviol,(unsigned long long)s.outcomes.size(), sec.c_str(), sam.c_str() );
	fflush( s.out );
	return 0;
}

// ---------------------------------------------------------------- small helpers
inline bool near( double a, double b, double eps=1e-9 )
{
	if( !(std::isfinite(a) && std::isfinite(b)) ) return false;
	return std::fabs(a-b) <= eps * std::max( 1.0, std::max( std::fabs(a), std::fabs(b) ) );
}
template<class... A> std::string str( const A&... a ) { std::ostringstream o; o.precision(12); ((o<<a),...); return o.str(); }

typedef long long ll;
typedef __int128 i128;

/// integer grid point
struct IP { ll x,y;
	bool operator==( const IP& o ) const { return x==o.x && y==o.y; }
	bool operator!=( const IP& o ) const { return !(*this==o); }
	bool operator<( const IP& o ) const { return x!=o.x ? x<o.x : y<o.y; } };
inline std::ostream& operator<<( std::ostream& o, const IP& p ) { return o<<'('<<p.x<<','<<p.y<<')'; }
inline std::ostream& operator<<( std::ostream& o, const std::vector<IP>& v ) { for( auto& p: v ) o<<p; return o; }
inline ll cross( const IP& o, const IP& a, const IP& b ) { return (a.x-o.x)*(b.y-o.y)-(a.y-o.y)*(b.x-o.x); }
inline ll dot( const IP& o, const IP& a, const IP& b ) { return (a.x-o.x)*(b.x-o.x)+(a.y-o.y)*(b.y-o.y); }
inline ll d2( const IP& a, const IP& b ) { return (a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y); }
inline int sgn( ll v ) { return (v>0)-(v<0); }

/// exact rational (small values only; kept reduced)
struct Q
{
	i128 n=0,d=1;
	Q( ll v=0 ):n(v) {}
	static i128 g( i128 a, i128 b ) { if(a<0)a=-a; if(b<0)b=-b; while(b){ i128 t=a%b;a=b;b=t; } return a?a:1; }
	Q( i128 a, i128 b, int ) : n(a), d(b) { norm(); }
	static Q of( ll a, ll b ) { return Q((i128)a,(i128)b,0); }
	void norm() { if(d<0){d=-d;n=-n;} i128 k=g(n,d); n/=k; d/=k; }
	Q operator+( const Q& o ) const { return Q(n*o.d+o.n*d,d*o.d,0); }
	Q operator-( const Q& o ) const { return Q(n*o.d-o.n*d,d*o.d,0); }
	Q operator*( const Q& o ) const { return Q(n*o.n,d*o.d,0); }
	Q operator/( const Q& o ) const { return Q(n*o.d,d*o.n,0); }
	Q operator-() const { Q r=*this; r.n=-r.n; return r; }
	bool operator==( const Q& o ) const { return n==o.n&&d==o.d; }
	bool operator!=( const Q& o ) const { return !(*this==o); }
	bool operator<( const Q& o ) const { return n*o.d<o.n*d; }
	bool operator>( const Q& o ) const { return o<*this; }
	bool operator<=( const Q& o ) const { return !(o<*this); }
	bool operator>=( const Q& o ) const { return !(*this<o); }
	bool zero() const { return n==0; }
	int sign() const { return (n>0)-(n<0); }
	double v() const { return (double)n/(double)d; }
};

} // namespace mc
