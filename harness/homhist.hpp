// C01 / C02: histories of operations on homographies. The model is a plain 3x3 matrix (long double), never cached nor normalised.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc;
using h2d::operator*;
typedef long double LD;

struct M3
{
	LD m[3][3];
	static M3 eye() { M3 r{}; for( int i=0;i<3;i++ ) r.m[i][i]=1; return r; }
	M3 operator*( const M3& o ) const { M3 r{}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) r.m[i][j]+=m[i][k]*o.m[k][j]; return r; }
	LD det() const { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
	M3 cof() const { M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) { int a=(i+1)%3,b=(i+2)%3,c=(j+1)%3,d=(j+2)%3; r.m[i][j]=m[a][c]*m[b][d]-m[a][d]*m[b][c]; } return r; }
	M3 T() const { M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=m[j][i]; return r; }
	M3 adj() const { return cof().T(); }
	LD mx() const { LD v=0; for(auto& l:m) for(auto e:l) v=std::max(v,std::fabs(e)); return v; }
	void norm() { LD v=mx(); if(v>0) for(auto& l:m) for(auto& e:l) e/=v; }
	LD rdet() const { M3 c=*this; c.norm(); return std::fabs(c.det()); }         // relative determinant
	bool singular() const { return rdet()<1e-13L; }
	bool m22null() const { return std::fabs(m[2][2])<1e-9L*mx(); }
};
inline bool proportional( const M3& a, const M3& b, LD eps ) { M3 x=a,y=b; x.norm(); y.norm(); for( int s=-1;s<=1;s+=2 ) { bool ok=true; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if( std::fabs(x.m[i][j]-s*y.m[i][j])>eps ) ok=false; if(ok) return true; } return false; }
static M3 tr( LD x, LD y ) { M3 r=M3::eye(); r.m[0][2]=x; r.m[1][2]=y; return r; }
static M3 sc( LD x, LD y ) { M3 r=M3::eye(); r.m[0][0]=x; r.m[1][1]=y; return r; }
static M3 rot( double a ) { M3 r=M3::eye(); r.m[0][0]=r.m[1][1]=std::cos((LD)a); r.m[1][0]=std::sin((LD)a); r.m[0][1]=-r.m[1][0]; return r; }
static const M3& proj() { static M3 p=[]{ M3 r{}; LD v[9]={1,0.5,2, -0.25,2,1, 0.125,-0.0625,1}; for(int i=0;i<9;i++) r.m[i/3][i%3]=v[i]; return r; }(); return p; }
static const M3& cyc()  { static M3 p=[]{ M3 r{}; LD v[9]={0,0,1, 0,1,0, 1,0,1}; for(int i=0;i<9;i++) r.m[i/3][i%3]=v[i]; return r; }(); return p; }

static const double PI2=1.5707963267948966;

template<class T> struct H1
{
	typedef h2d::Homogr_<T> HT;
	static std::vector<std::vector<double>> vv( const M3& m ) { std::vector<std::vector<double>> v(3,std::vector<double>(3)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) v[i][j]=m.m[i][j]; return v; }
	static M3 rd( const HT& h ) { M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r.m[i][j]=h.value(i,j); return r; }
};
enum { OP_MUT=0, OP_USE=200 };
static const char* mutName[]={"init","setTranslation(3,-2)","addTranslation(1.5,2)","setRotation(90)","addRotation(0.7)","setScale(2,-.5)","addScale(3)","addScale(-1,2)",
 "value(0,1)=.5","set(2,0,.125)","set(2,2,2)","set(2,2,-.5)","getRaw*=-2","inverse","transpose","=other","copy","*=other","other*=","other=","vector(proj)","array(cyc)","H(0.3)","H(2,5)","swap","copy+change","self=","setScale(0,1)","set(2,2,0)",
 "add-chain","set(all)", "setRotation(0)","setTranslation(0,0)","setScale(1)","addRotation(0)","addTranslation(0,0)","addScale(1)" };
static const int NMUT=31;        // the operations of the deep explorations
static const int NALL=37;        // with the neutral ones
static const char* useName[]={"H*pt","H*line","other*line","==other","H*vec<line>","copy*line","refused:3pts","refused:badvec","refused:value(3,0)","==itself*2","applyTo","const*line"};
static const int NUSE=12;
inline std::string opn( int o ) { return o<OP_USE?mutName[o]:useName[o-OP_USE]; }

template<class T> struct Sys
{
	typedef h2d::Homogr_<T> HT;
	HT h, o; M3 m=M3::eye(), mo=M3::eye();

	// the matrix is singular, and this shows in the stored values in spite of rounding (null row or column, small dyadic or small values)
	bool surelySingular() const
	{
		if( !m.singular() ) return false;
		M3 r=H1<T>::rd(h); bool dyadic=true;
		for( int i=0;i<3;i++ )
		{
			if( r.m[i][0]==0 && r.m[i][1]==0 && r.m[i][2]==0 ) return true;
			if( r.m[0][i]==0 && r.m[1][i]==0 && r.m[2][i]==0 ) return true;
			for( int j=0;j<3;j++ ) dyadic = dyadic && r.m[i][j]*32==std::floor(r.m[i][j]*32) && std::fabs(r.m[i][j])<128;
		}
		LD x=r.mx(); return dyadic ? r.det()==0 : std::fabs(r.det())+2e-15L*x*x*x < 1e-15L;
	}
	// an operation that may be refused because the result cannot be normalised / inverted: refused => unchanged
	template<class F> bool may( const M3& res, bool mustThrow, F f )
	{
		std::string w; int r=thrown( f, &w );
		check( r!=2, "errtype", w );
		if( r==0 ) { check( !mustThrow, "accepted", "an impossible operation was accepted" ); m=res; }
		else check( mustThrow || m.singular() || res.m22null() || m.m22null(), "refused", [&]{ return "a valid operation was refused: "+w; } );
		return r==0;
	}
	void apply( int op )
	{
		step();
		switch( op )
		{
			case 0: h.init(); m=M3::eye(); break;
			case 1: h.setTranslation(3,-2); m=tr(3,-2); break;
			case 2: { M3 r=tr(1.5,2)*m; may( r, false, [&]{ h.addTranslation(1.5,2.); } ); } break;
			case 3: h.setRotation(PI2); m=rot(PI2); break;
			case 4: { M3 r=rot(0.7)*m; may( r, false, [&]{ h.addRotation(0.7); } ); } break;
			case 5: h.setScale(2,-0.5); m=sc(2,-0.5); break;
			case 6: { M3 r=sc(3,3)*m; may( r, false, [&]{ h.addScale(3); } ); } break;
			case 7: { M3 r=sc(-1,2)*m; may( r, false, [&]{ h.addScale(-1,2.); } ); } break;
			case 8: h.value(0,1)=0.5; sync(); m.m[0][1]=0.5; break;
			case 9: sync(); h.set(2,0,0.125); m.m[2][0]=0.125; break;
			case 10: sync(); h.set(2,2,2); m.m[2][2]=2; break;
			case 11: sync(); h.set(2,2,-0.5); m.m[2][2]=-0.5; break;
			case 12: for( auto& l: h.getRaw() ) for( auto& e: l ) e*=-2; break;
			case 13: { bool s=m.singular(); if( may( m.adj(), surelySingular(), [&]{ h.inverse(); } ) && s ) m=H1<T>::rd(h); } break;      // inverse of rounding errors: go on with these values
			case 14: h.transpose(); m=m.T(); break;
			case 15: h=o; m=mo; break;
			case 16: { HT c(h); h=c; } break;
			case 17: { M3 r=m*mo; may( r, false, [&]{ h=h*o; } ); } break;
			case 18: { M3 r=mo*m; may( r, false, [&]{ h=o*h; } ); } break;
			case 19: o=h; mo=m; break;
			case 20: h=HT( H1<T>::vv(proj()) ); m=proj(); break;
			case 21: { std::array<std::array<double,3>,3> a; for(int i=0;i<9;i++) a[i/3][i%3]=cyc().m[i/3][i%3]; h=HT(a); m=cyc(); } break;
			case 22: h=HT(0.3); m=rot(0.3); break;
			case 23: h=HT(2,5.); m=tr(2,5); break;
			case 24: std::swap(h,o); std::swap(m,mo); break;
			case 25: { HT c=h; try { c.addScale(2,5); useLine(c); } catch( const std::runtime_error& ) {} c.init(); useLine(c); } break;
			case 26: { HT& r=h; h=r; } break;
			case 27: h.setScale(0,1); m=sc(0,1); break;
			case 28: sync(); h.set(2,2,0.); m.m[2][2]=0; break;
			case 29: { M3 r=tr(2,1)*sc(2,2)*rot(PI2)*m; may( r, false, [&]{ HT c(h); c.addRotation(PI2).addScale(2).addTranslation(2,1); h=c; } ); } break;
			case 30: for(int i=0;i<9;i++) { h.set( i/3, i%3, (double)proj().m[i/3][i%3]*4 ); } m=proj(); break;
			case 31: h.setRotation(0.); m=rot(0); break;
			case 32: h.setTranslation(0.,0.); m=tr(0,0); break;
			case 33: h.setScale(1.); m=sc(1,1); break;
			case 34: may( m, false, [&]{ h.addRotation(0.); } ); break;
			case 35: may( m, false, [&]{ h.addTranslation(0.,0.); } ); break;
			case 36: may( m, false, [&]{ h.addScale(1.); } ); break;
			case OP_USE+0: { auto p=h*h2d::Point2d_<T>(1,2); (void)p; } break;
			case OP_USE+1: useLine(h); break;
			case OP_USE+2: useLine(o); break;
			case OP_USE+3: eq(); break;
			case OP_USE+4: try { std::vector<h2d::Line2d_<T>> v{ h2d::Line2d_<T>(1,1), h2d::Line2d_<T>(1.,0,-4) }; auto w=h*v; } catch( const std::runtime_error& ) {} break;
			case OP_USE+5: { HT c(h); useLine(c); useLine(h); } break;
			case OP_USE+6: { std::vector<h2d::Point2d_<T>> v(3), w(4); check( thrown([&]{ h.buildFrom4Points( v, w ); })==1, "refused" ); check( thrown([&]{ h.buildFrom4Points( w, v ); })==1, "refused" ); } break;
			case OP_USE+7: check( thrown([&]{ h=HT( std::vector<std::vector<double>>(2,std::vector<double>(3,1)) ); })==1, "refused" ); check( thrown([&]{ auto v=H1<T>::vv(proj()); v[1].pop_back(); h=HT( v ); })==1, "refused" ); break;
			case OP_USE+8: check( thrown([&]{ h.value(3,0)=7; })==1, "refused" ); check( thrown([&]{ h.set(0,3,7); })==1, "refused" ); check( thrown([&]{ (void)((const HT&)h).value(0,3); })==1, "refused" ); break;
			case OP_USE+9: { HT c(h); for( auto& l: c.getRaw() ) for( auto& e: l ) e*=2; int r=thrown([&]{ check( c==h && h==c && !(h!=c), "equal", "not equal to its own double" ); }); check( r==0 || m.m22null(), "eq-refused" ); } break;
			case OP_USE+10: { std::list<h2d::Line2d_<T>> v{ h2d::Line2d_<T>(1,1) }; try { h.applyTo( v ); } catch( const std::runtime_error& ) {} } break;
			case OP_USE+11: { const HT& c=h; useLine(c); } break;
		}
	}
	void useLine( const HT& x ) { step(); try { auto l=x*h2d::Line2d_<T>(1,2,-3); (void)l; } catch( const std::runtime_error& ) {} }
	// the matrix is homogeneous: before a single element is set, the model takes the scale the object has (values checked by "state")
	void sync()
	{
		M3 r=H1<T>::rd(h);
		// only the scale is adopted: take the ratio at the largest model element
		int bi=0,bj=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if( std::fabs(m.m[i][j])>std::fabs(m.m[bi][bj]) && !(i==0&&j==1) ) { bi=i;bj=j; }
		LD k = m.m[bi][bj]==0 ? 1 : r.m[bi][bj]/m.m[bi][bj];
		if( k==0 || !std::isfinite((double)k) ) return;
		for(int i=0;i<3;i++) for(int j=0;j<3;j++) m.m[i][j]*=k;
	}
	void eq()
	{
		bool me=proportional( m, mo, 1e-12L ), mn=!proportional( m, mo, 1e-7L );
		bool e=false; int r=thrown( [&]{ e=(h==o); bool n=(h!=o); check( e!=n, "eq-ne" ); check( e==(o==h), "eq-sym" ); } );
		if( r ) { check( r==1 && ( m.m22null() || mo.m22null() ), "eq-refused" ); return; }
		if( mn && !m.m22null() && !mo.m22null() ) check( !e, "eq-wrong", "== on different homographies" );
		(void)me;       // rounding may legitimately separate proportional matrices (threshold 1e-15): exact cases are checked by finalC01
	}
	double tol() const { return std::is_same_v<T,float>?2e-3:1e-7; }
	void finalPoints()
	{
		for( auto q: { std::make_pair(0.,0.), {1.,2.}, {-3.,0.5}, {10.,-7.} } )
		{
			LD v[3]; for(int i=0;i<3;i++) v[i]=m.m[i][0]*q.first+m.m[i][1]*q.second+m.m[i][2];
			step();
			auto p = h * h2d::Point2d_<T>( q.first, q.second );
			if( std::fabs(v[2]) < 1e-3L*m.mx() ) continue;
			check( near( p.getX(), v[0]/v[2], tol() ) && near( p.getY(), v[1]/v[2], tol() ), "point", [&]{ return str("image of ",q.first,",",q.second," is ",p.getX(),",",p.getY()," expected ",(double)(v[0]/v[2]),",",(double)(v[1]/v[2])); } );
			outcome( mix( hd(v[0]/v[2]), hd(v[1]/v[2]) ) );
		}
	}
	void finalC01()
	{
		finalPoints();
		// equality with an exact multiple of itself, whatever was done before
		for( double k: {2.,-0.5,1.} )
		{
			if( m.m22null() ) break;
			M3 r=H1<T>::rd(h); for(auto& l:r.m) for(auto& e:l) e*=k;
			HT g; int t=thrown([&]{ g=HT( H1<T>::vv(r) ); });
			if( t ) { check( false, "eq-build" ); break; }
			// the object is given in its normalised form or not: both must compare equal
			if( !std::is_same_v<T,long double> ) check( g==h && h==g && !(g!=h), "eq-multiple", [&]{ return str("not equal to ",k," times itself"); } );
			for( LD dif: { (LD)0.03125, std::is_same_v<T,float>?1e-6L:2e-10L } ) for( int i=0;i<9;i++ )
			{
				M3 d=r; d.m[i/3][i%3]+= dif*r.mx()*(i==8?3:1); if( d.m22null() || proportional(d,r,dif/100) ) continue;
				HT g2( H1<T>::vv(d) );
				check( !(g2==h) && h!=g2, "eq-differs", [&]{ return str("equal although element ",i," differs"); } );
			}
		}
		if( !m.singular() && m.rdet()>1e-5L && !std::is_same_v<T,float> )
		{
			HT g(h); M3 a=m.adj();
			if( thrown([&]{ g.inverse(); })==0 )
				for( auto q: { std::make_pair(1.,2.), {-3.,0.5} } )
				{
					LD v[3]; for(int i=0;i<3;i++) v[i]=m.m[i][0]*q.first+m.m[i][1]*q.second+m.m[i][2];
					if( std::fabs(v[2]) < 1e-3L*m.mx() ) continue;
					auto p=g*(h*h2d::Point2d_<T>(q.first,q.second));
					check( near(p.getX(),q.first,1e-6) && near(p.getY(),q.second,1e-6), "inverse", [&]{ return str("inverse maps back to ",p.getX(),",",p.getY()); } );
				}
			else check( a.m22null(), "inverse-refused" );
		}
	}
	void lineCheck( const HT& hh, const M3& mm, const char* tag )
	{
		bool sing=mm.singular(), ill=mm.rdet()<1e-6L;
		M3 c=mm.cof();       // H^-T up to scale
		for( auto l: { std::array<double,3>{1,2,-3}, {0,1,-2}, {1,0,4}, {3,-1,0.5} } )
		{
			h2d::Line2d_<T> li( l[0], l[1], l[2] ), res;
			std::string w; int r=thrown([&]{ res=hh*li; },&w);
			LD e[3]; for(int i=0;i<3;i++) e[i]=c.m[i][0]*l[0]+c.m[i][1]*l[1]+c.m[i][2]*l[2];
			LD n=std::hypot(e[0],e[1]); 
			if( sing ) { check( r==1 || ill, "line-singular", "a line was mapped by a singular matrix" ); continue; }
			if( ill ) continue;
			if( n < 1e-6L*c.mx() ) continue;                  // line sent to infinity
			if( !check( r==0, tag, [&]{ return "refused: "+w; } ) ) continue;
			for( auto& x: e ) x/=n;
			auto a=res.get(); outcome( mix(hd(a[0]),hd(a[2])) ); LD s = a[0]*e[0]+a[1]*e[1]; s = s<0?-1:1;
			bool ok=true; for(int i=0;i<3;i++) ok=ok && near( a[i], s*e[i], tol()*10 );
			check( ok, tag, [&]{ return str("image of line ",l[0],",",l[1],",",l[2]," is ",a[0],",",a[1],",",a[2]," expected +/-",(double)e[0],",",(double)e[1],",",(double)e[2]); } );
		}
	}
	void finalC02()
	{
		lineCheck( h, m, "line" );
		lineCheck( h, m, "line-again" );
		lineCheck( o, mo, "other-line" );
		{ HT c(h); lineCheck( c, m, "copy-line" ); }
		// incidence and join, on the objects themselves
		if( m.rdet()<1e-5L || std::is_same_v<T,float> ) return;
		h2d::Point2d_<T> p(1,2), q(-3,0.5);
		LD wp=m.m[2][0]*1+m.m[2][1]*2+m.m[2][2], wq=m.m[2][0]*-3+m.m[2][1]*0.5+m.m[2][2];
		if( std::fabs(wp)<1e-2L*m.mx() || std::fabs(wq)<1e-2L*m.mx() ) return;
		auto l=h*(p*q); auto hp=h*p, hq=h*q;
		if( hp.distTo(hq)<1e-3 ) return;
		auto l2=hp*hq;
		double sc2=1+std::fabs(hp.getX())+std::fabs(hp.getY())+std::fabs(hq.getX())+std::fabs(hq.getY());
		check( l.distTo(hp)<1e-6*sc2 && l.distTo(hq)<1e-6*sc2, "incidence" );
		auto a=l.get(), b=l2.get();
		LD s=a[0]*b[0]+a[1]*b[1]<0?-1:1; double t=1e-6*sc2*(1+1/hp.distTo(hq));
		check( std::fabs(a[0]-s*b[0])<t && std::fabs(a[1]-s*b[1])<t && std::fabs(a[2]-s*b[2])<t*sc2, "join" );
	}
};
template<class F> void seqs( const std::vector<int>& al, int n, F f )
{
	std::vector<int> c; std::function<void()> rec=[&]{ if( (int)c.size()==n ) { f(c); return; } for( int a: al ) { c.push_back(a); rec(); c.pop_back(); } }; rec();
}
template<class T> void history( const std::vector<int>& ops, bool lines )
{
	run( [&]{
		Sys<T> s; s.o=typename Sys<T>::HT( H1<T>::vv(proj()) ); s.mo=proj();
		for( int o: ops ) s.apply( o );
		if( lines ) s.finalC02(); else s.finalC01();
	}, [&]{ std::string r; for( int o: ops ) r+=opn(o)+"; "; return r; } );
}
