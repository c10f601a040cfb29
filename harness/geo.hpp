// Exact integer reference geometry and enumeration helpers (no library code used here).
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <numeric>

namespace geo {
using mc::IP; using mc::ll; using mc::cross; using mc::dot; using mc::sgn; using mc::d2;
typedef std::vector<IP> Poly;

inline bool onSeg( const IP& a, const IP& b, const IP& p ) { return cross(a,b,p)==0 && dot(p,a,b)<=0; }

/// closed segments [ab] and [cd] share at least a point
inline bool segTouch( const IP& a, const IP& b, const IP& c, const IP& d )
{
	int s1=sgn(cross(a,b,c)), s2=sgn(cross(a,b,d)), s3=sgn(cross(c,d,a)), s4=sgn(cross(c,d,b));
	if( s1*s2<0 && s3*s4<0 ) return true;
	return onSeg(a,b,c)||onSeg(a,b,d)||onSeg(c,d,a)||onSeg(c,d,b);
}
inline bool segCrossProper( const IP& a, const IP& b, const IP& c, const IP& d )
{
	int s1=sgn(cross(a,b,c)), s2=sgn(cross(a,b,d)), s3=sgn(cross(c,d,a)), s4=sgn(cross(c,d,b));
	return s1*s2<0 && s3*s4<0;
}
inline ll area2( const Poly& p ) { ll s=0; size_t n=p.size(); for( size_t i=0;i<n;i++ ) { auto& a=p[i]; auto& b=p[(i+1)%n]; s += a.x*b.y-a.y*b.x; } return s; }

/// simple polygon: >=3 vertices, consecutive edges share exactly their common vertex, others share nothing
inline bool isSimple( const Poly& p )
{
	size_t n=p.size();
	if( n<3 ) return false;
	for( size_t i=0;i<n;i++ ) if( p[i]==p[(i+1)%n] ) return false;
	for( size_t i=0;i<n;i++ )
		for( size_t j=i+1;j<n;j++ )
		{
			const IP &a=p[i],&b=p[(i+1)%n],&c=p[j],&d=p[(j+1)%n];
			bool adj1 = (j==i+1), adj2 = (i==0 && j==n-1);
			if( adj1 ) { if( onSeg(a,b,d) || onSeg(c,d,a) ) return false; }      // b==c
			if( adj2 ) { if( onSeg(a,b,c) || onSeg(c,d,b) ) return false; }      // d==a
			if( !adj1 && !adj2 && segTouch(a,b,c,d) ) return false;
		}
	return true;
}
/// -1 outside, 0 boundary, 1 strictly inside (simple polygon)
inline int pip( const Poly& p, const IP& q )
{
	size_t n=p.size(); bool in=false;
	for( size_t i=0;i<n;i++ ) if( onSeg(p[i],p[(i+1)%n],q) ) return 0;
	for( size_t i=0;i<n;i++ )
	{
		const IP &a=p[i],&b=p[(i+1)%n];
		if( (a.y>q.y) != (b.y>q.y) )
		{
			ll c=cross(a,b,q);
			if( (b.y>a.y) ? c>0 : c<0 ) in=!in;
		}
	}
	return in?1:-1;
}
/// +1 strictly/weakly convex simple polygon (collinear vertices allowed)
inline bool isConvexSimple( const Poly& p )
{
	size_t n=p.size(); int s=0;
	for( size_t i=0;i<n;i++ )
	{
		int c=sgn(cross(p[i],p[(i+1)%n],p[(i+2)%n]));
		if( c==0 ) continue;
		if( s==0 ) s=c; else if( s!=c ) return false;
	}
	return s!=0;
}
/// strictly convex hull, counter-clockwise, starting with the smallest point
inline Poly hull( Poly v )
{
	std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end());
	if( v.size()<3 ) return v;
	Poly h;
	for( int pass=0;pass<2;pass++ )
	{
		size_t base=h.size();
		for( auto& q: v )
		{
			while( h.size()>=base+2 && cross(h[h.size()-2],h.back(),q)<=0 ) h.pop_back();
			h.push_back(q);
		}
		h.pop_back();
		std::reverse(v.begin(),v.end());
	}
	return h;
}
inline Poly rotated( const Poly& p, size_t k ) { Poly r; for( size_t i=0;i<p.size();i++ ) r.push_back(p[(i+k)%p.size()]); return r; }
inline Poly reversed( Poly p ) { std::reverse(p.begin(),p.end()); return p; }
/// listing k of a cyclic vertex list: k<n rotations, then the reversed ones
inline Poly listing( const Poly& p, size_t k ) { size_t n=p.size(); Poly r=rotated(p,k%n); if( k>=n ) r=reversed(r); return r; }

inline std::vector<IP> grid( int x0, int y0, int x1, int y1 ) { std::vector<IP> g; for( int x=x0;x<=x1;x++ ) for( int y=y0;y<=y1;y++ ) g.push_back({x,y}); return g; }

/// calls f(seq) for every sequence of exactly n elements of v; distinct: no repetition at all; canon: first is the smallest index and second<last (cyclic canonical form)
template<class F>
void sequences( const std::vector<IP>& v, size_t n, bool distinct, bool canon, F f )
{
	std::vector<int> idx; std::vector<char> used(v.size(),0); Poly cur;
	std::function<void()> rec=[&]
	{
		if( cur.size()==n ) { if( canon && n>2 && idx[1]>idx[n-1] ) return; f(cur); return; }
		for( size_t i=0;i<v.size();i++ )
		{
			if( distinct && used[i] ) continue;
			if( canon && !idx.empty() && (int)i<idx[0] ) continue;
			if( !distinct && !idx.empty() && idx.back()==(int)i ) { /* repetition of the previous one: caller decides */ }
			used[i]++; idx.push_back(i); cur.push_back(v[i]);
			rec();
			used[i]--; idx.pop_back(); cur.pop_back();
		}
	};
	rec();
}
/// all subsets of size k (in index order)
template<class F>
void subsets( const std::vector<IP>& v, size_t k, F f )
{
	Poly cur;
	std::function<void(size_t)> rec=[&]( size_t from )
	{
		if( cur.size()==k ) { f(cur); return; }
		for( size_t i=from;i<v.size();i++ ) { cur.push_back(v[i]); rec(i+1); cur.pop_back(); }
	};
	rec(0);
}
/// outer boundary of every hole-free, corner-contact-free polyomino in a w x h box (as vertex lists)
inline std::vector<Poly> polyominoes( int w, int h )
{
	std::vector<Poly> out;
	int n=w*h;
	for( int m=1;m<(1<<n);m++ )
	{
		auto in=[&]( int x,int y ){ return x>=0&&y>=0&&x<w&&y<h&&(m>>(y*w+x)&1); };
		// directed boundary edges, interior on the left
		std::map<IP,std::vector<IP>> nxt; int ne=0;
		for( int x=0;x<w;x++ ) for( int y=0;y<h;y++ ) if( in(x,y) )
		{
			if( !in(x,y-1) ) { nxt[{x,y}].push_back({x+1,y}); ne++; }
			if( !in(x+1,y) ) { nxt[{x+1,y}].push_back({x+1,y+1}); ne++; }
			if( !in(x,y+1) ) { nxt[{x+1,y+1}].push_back({x,y+1}); ne++; }
			if( !in(x-1,y) ) { nxt[{x,y+1}].push_back({x,y}); ne++; }
		}
		bool ok=true;
		for( auto& e: nxt ) if( e.second.size()!=1 ) ok=false;
		if( !ok ) continue;
		Poly p; IP s=nxt.begin()->first, c=s;
		do { p.push_back(c); c=nxt[c][0]; } while( c!=s );
		if( (int)p.size()!=ne ) continue;               // several loops
		Poly r; size_t k=p.size();
		for( size_t i=0;i<k;i++ ) if( cross(p[(i+k-1)%k],p[i],p[(i+1)%k])!=0 ) r.push_back(p[i]);
		out.push_back(r);
	}
	return out;
}

/// similarity placing the integer grid into the plane. exact: dyadic (no rounding at all)
struct Emb
{
	double s, tx, ty; bool swap, exact; const char* name;
	double m00=1, m01=0, m10=0, m11=1;   ///< applied first
	double det() const { return std::fabs(m00*m11-m01*m10); }
	double X( double x, double y ) const { return (swap?m10*x+m11*y:m00*x+m01*y)*s+tx; }
	double Y( double x, double y ) const { return (swap?m00*x+m01*y:m10*x+m11*y)*s+ty; }
};
/// Polygons with many vertices (simple): a saw, stairs, a parabola, a square whose sides are cut in pieces of different lengths
inline std::vector<Poly> big( int n )
{
	Poly saw, st, pa, sq;
	saw.push_back({0,-2}); for( int i=0;i<n-2;i++ ) saw.push_back({i,i%2?3:0}); saw.push_back({n-3,-2});
	for( int i=0;i<n-1;i++ ) st.push_back({(i+1)/2,i/2}); st.push_back({-1,n/2+1}); 
	for( int i=0;i<n;i++ ) pa.push_back({i-n/2,(ll)(i-n/2)*(i-n/2)});
	for( int i=0;i<n;i++ ) { int q=n/4, k=i%q, d=k*(k+1)/2, L=q*(q+1)/2; if( i>=4*q ) break; switch( i/q ) { case 0: sq.push_back({d,0}); break; case 1: sq.push_back({L,d}); break; case 2: sq.push_back({L-d,L}); break; default: sq.push_back({0,L-d}); } }
	return { saw, st, pa, sq };
}
inline std::vector<int> bigSizes() { return mc::thorough() ? std::vector<int>{8,9,10,11,12,13,14,15,16,17,18,20,24,28,32,33,40,48,64} : std::vector<int>{9,13,17,24,33}; }
inline const std::vector<Emb>& embeddings()
{
	static const std::vector<Emb> e{
		{ 1.,0.,0.,false,true,"unit" },
		{ 0.25,-37.5,112.,false,true,"small" },
		{ 8388617.,-16777259.,-5242883.,true,true,"huge-swapped" },
		{ 0.3,12.7,-5.1,false,false,"decimal" },
		{ 7.1,-301.3,44.9,true,false,"decimal-swapped" },
		{ 0.02,1.01,2.03,false,false,"tiny" },
		{ 0.0009765625,0.25,-0.5,false,true,"minute" },
	};
	return e;
}
/// For checks that also use float numbers, or irrational lengths: the huge placement is a power of two, plus the other one (with rounding)
inline const std::vector<Emb>& rounded()
{
	static const std::vector<Emb> e=[]{ auto v=embeddings(); v.push_back(v[2]); v[2]={ 1048576.,-16777216.,-5242880.,true,true,"huge-dyadic" }; v.back().exact=false; return v; }();
	return e;
}
/// The same, and one that is far from the origin compared to the size of things
inline std::vector<Emb> withFar( std::vector<Emb> e ) { e.push_back( { 0.7,15000.3,-22000.6,false,false,"far" } ); return e; }
/// For the queries that are limited by the library's absolute thresholds: the same with a large placement instead of the huge one
inline const std::vector<Emb>& moderate()
{
	static const std::vector<Emb> e=[]{ auto v=embeddings(); v[2]={ 64.,-1024.,-320.,true,true,"large-swapped" }; return v; }();
	return e;
}
/// Rotations by angles that make horizontal things nearly horizontal, and one that leaves nothing horizontal
inline std::vector<Emb> tilted( std::vector<Emb> e=embeddings() )
{
	for( double a: {4e-4,-3e-3,1.1} )
		e.push_back( { 1.,0.3,-2.1,false,false, a==4e-4?"tilted by 4e-4":a<0?"tilted by -3e-3":"turned by 1.1", std::cos(a),-std::sin(a),std::sin(a),std::cos(a) } );
	return e;
}
/// The same, plus maps that make right angles nearly right, and squares nearly squares (areas are multiplied by 1 only by the shear maps)
inline std::vector<Emb> skewed( std::vector<Emb> e=tilted() )
{
	e.push_back( { 1.,0.3,-2.1,false,false,"sheared by 5e-4",1.,5e-4,0.,1. } );
	e.push_back( { 2.,-7.3,0.7,false,false,"sheared by -0.01",1.,0.,-0.01,1. } );
	e.push_back( { 1.,1.7,3.2,false,false,"stretched by 1.004",1.004,0.,0.,1. } );
	return e;
}
/// Maps after which all edges but the vertical ones are within 2e-4 rad of each other (the first two without rounding)
inline std::vector<Emb> flattened( std::vector<Emb> e={} )
{
	e.push_back( { 1.,0.,0.,false,true,"flat",20000.,0.,0.,1. } ); e.push_back( { 1.,-3.,8.,true,true,"flat-swapped",16384.,0.,0.,1. } );
	e.push_back( { 1.,2.,-1.,false,false,"flat-turned",8000*std::cos(.7),-std::sin(.7),8000*std::sin(.7),std::cos(.7) } );
	return e;
}
} // namespace geo
