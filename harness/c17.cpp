// C17: rectangle intersection, union and IoU are exact set operations; accessors agree with the two points.
#include "geo.hpp"
#include "homog2d.hpp"
using namespace mc; using geo::Poly;
using namespace h2d;

/// increasing coordinate tables: index -> value
struct Tab { std::vector<double> x,y; const char* name; };
static std::vector<Tab> tabs( int n )
{
	std::vector<Tab> t;
	auto lin=[&]( double s, double o ) { std::vector<double> v; for( int i=0;i<n;i++ ) v.push_back( i*s+o ); return v; };
	t.push_back( { lin(1,0), lin(1,0), "unit" } );
	t.push_back( { lin(0.25,-37.5), lin(0.25,112), "small" } );
	t.push_back( { lin(0.3,12.7), lin(0.3,-5.1), "decimal" } );
	t.push_back( { lin(7.1,-301.3), lin(0.1,44.9), "anisotropic" } );
	t.push_back( { lin(0.7,15000.3), lin(0.7,-22000.6), "far" } );
	t.push_back( { lin(0.02,1.01), lin(0.02,2.03), "tiny" } );
	std::vector<double> a{-1000.1,-3.7,0.1,0.1001,2500.3,7001}, b{-0.9,-0.3,-0.1,0.7,0.70003,11.3}; a.resize(n); b.resize(n);
	t.push_back( { a, b, "uneven" } );
	t.push_back( { b, a, "uneven-swapped" } );
	t.push_back( { lin(M_PI/3,-M_PI), lin(std::sqrt(2.),-std::sqrt(8.)), "irrational" } );
	return t;
}
struct R { int x0,y0,x1,y1; };
static std::ostream& operator<<( std::ostream& o, const R& r ) { return o<<"["<<r.x0<<','<<r.y0<<"-"<<r.x1<<','<<r.y1<<"]"; }
template<class T> FRect_<T> mk( const R& r, const Tab& t, int flip=0 )
{
	double x0=t.x[r.x0],x1=t.x[r.x1],y0=t.y[r.y0],y1=t.y[r.y1];
	if( flip&1 ) std::swap(x0,x1); if( flip&2 ) std::swap(y0,y1);
	return FRect_<T>( Point2d_<T>( (T)x0,(T)y0 ), Point2d_<T>( (T)x1,(T)y1 ) );
}
template<class T> bool isRect( const FRect_<T>& r, double x0, double y0, double x1, double y1 )
{
	auto p=r.getPts(); double tol=sizeof(T)==4?1e-6:1e-12;
	return near(p.first.getX(),x0,tol)&&near(p.first.getY(),y0,tol)&&near(p.second.getX(),x1,tol)&&near(p.second.getY(),y1,tol);
}

template<class T1,class T2>
void pair( const R& a, const R& b, const Tab& t, int flip, int jitter=-1 )
{
	run( [&]{
		FRect_<T1> r1=mk<T1>(a,t,flip&3); FRect_<T2> r2=mk<T2>(b,t,flip>>2);
		if( jitter>=0 )               // coordinates of the second one off by one unit in the last place, each one in any direction
		{
			int j=jitter; auto nx=[&]( double v ) { int k=j%3; j/=3; return k==0?v:std::nextafter(v,k==1?1e30:-1e30); };
			double c[4]; c[0]=nx(t.x[b.x0]); c[1]=nx(t.y[b.y0]); c[2]=nx(t.x[b.x1]); c[3]=nx(t.y[b.y1]);
			r2.set( Point2d_<T2>(c[0],c[1]), Point2d_<T2>(c[2],c[3]) );
		}
		int ix0=std::max(a.x0,b.x0), ix1=std::min(a.x1,b.x1), iy0=std::max(a.y0,b.y0), iy1=std::min(a.y1,b.y1);
		bool common = ix0<ix1 && iy0<iy1;
		bool edge = !common && ix0<=ix1 && iy0<=iy1 && (ix0<ix1||iy0<iy1);      // share a part of an edge
		bool p_corner = ix0==ix1 && iy0==iy1;
		double tol=sizeof(T1)==4||sizeof(T2)==4?1e-4:1e-9;
		step(12);
		auto i1=r1.intersectArea(r2); auto i2=r2.intersectArea(r1); auto i3=intersectArea(r1,r2); auto i4=r1&r2;
		check( i1()==common && i2()==common && i3()==common && i4()==common, "inter", [&]{ return str( "common area reported ",i1(),i2(),i3(),i4(),", expected ",common ); } );
		if( common )
		{
			double X0=t.x[ix0],Y0=t.y[iy0],X1=t.x[ix1],Y1=t.y[iy1];
			if( i1() ) check( isRect(i1.get(),X0,Y0,X1,Y1), "inter-rect", [&]{ return str( "r1&r2 gives ",i1.get() ); } );
			if( i2() ) check( isRect(i2.get(),X0,Y0,X1,Y1), "inter-rect", [&]{ return str( "r2&r1 gives ",i2.get() ); } );
			if( i3() ) check( isRect(i3.get(),X0,Y0,X1,Y1), "inter-rect", [&]{ return str( "intersectArea(r1,r2) gives ",i3.get() ); } );
			if( i4() ) check( isRect(i4.get(),X0,Y0,X1,Y1), "inter-rect", [&]{ return str( "operator& gives ",i4.get() ); } );
		}
		else check( thrown([&]{ i1.get(); })==1, "inter-get", "get() without common area did not throw" );

		auto u1=r1.unionArea(r2); auto u2=r2.unionArea(r1); auto u3=unionArea(r1,r2); auto u4=r1|r2;
		check( u1==u3 && u1==u4, "union-forms", [&]{ return str( u1,' ',u3,' ',u4 ); } );
		double A=(t.x[a.x1]-t.x[a.x0])*(t.y[a.y1]-t.y[a.y0]), B=(t.x[b.x1]-t.x[b.x0])*(t.y[b.y1]-t.y[b.y0]);
		double I= common ? (t.x[ix1]-t.x[ix0])*(t.y[iy1]-t.y[iy0]) : 0;
		auto chk=[&]( const auto& u, const char* w )
		{
			bool corner = !common && !edge && ix0<=ix1 && iy0<=iy1;
			if( !common && !edge && !corner ) { check( u.size()==0, "union-none", [&]{ return str( w," of disjoint rectangles is ",u ); } ); return; }
			// back to indexes
			Poly p; bool ok=true;
			for( auto& q: u.getPts() )
			{
				int x=-1,y=-1; double e=sizeof(T1)==4||sizeof(T2)==4?1e-5:1e-12;
				for( size_t i=0;i<t.x.size();i++ ) if( near(q.getX(),t.x[i],e) ) x=i;
				for( size_t i=0;i<t.y.size();i++ ) if( near(q.getY(),t.y[i],e) ) y=i;
				if( x<0||y<0 ) ok=false;
				p.push_back( {2*x,2*y} );
			}
			if( !check( ok && (geo::isSimple(p) || (corner && p.size()==8)), "union-polygon", [&]{ return str( w," is ",u ); } ) ) return;
			for( size_t i=0;i<p.size();i++ ) if( cross(p[i],p[(i+1)%p.size()],p[(i+2)%p.size()])==0 ) { check( false, "union-redundant", [&]{ return str( w," has a redundant vertex: ",u ); } ); break; }
			bool same=true;
			for( int x=0;x+1<(int)t.x.size();x++ ) for( int y=0;y+1<(int)t.y.size();y++ )
			{
				auto in=[&]( const R& r ){ return x>=r.x0&&x<r.x1&&y>=r.y0&&y<r.y1; };
				if( (geo::pip(p,{2*x+1,2*y+1})>0) != (in(a)||in(b)) ) same=false;
			}
			check( same, "union-cover", [&]{ return str( w," is ",u ); } );
			if( corner ) return;             // the two rectangles joined at a point: listed as one path of 8 points, not a polygon
			check( near( (double)u.area(), A+B-I, tol ) || std::fabs( (double)u.area()-(A+B-I) ) < 1e-6*std::fabs(t.x[0]*t.y[0])*1e-3, "union-area", [&]{ return str( w," has area ",u.area(),", expected ",A+B-I ); } );
		};
		chk( u1, "r1|r2" ); chk( u2, "r2|r1" );
		if( u1.size() || u2.size() ) { bool e = u1==CPolyline_<T1>(u2); if( p_corner ) e=true; check( e, "union-sym", [&]{ return str( "r1|r2 is ",u1,", r2|r1 is ",u2 ); } ); }
		double iou=IoU(r1,r2), iou2=IoU(r2,r1), w=I/(A+B-I);
		double tol2 = std::max( tol, std::fabs(t.x[0])>1e3||std::fabs(t.y[0])>1e3 ? 1e-6:0 );
		check( near(iou,w,tol2) && near(iou2,w,tol2), "iou", [&]{ return str( "IoU ",iou," and ",iou2,", expected ",w ); } );
		outcome( mix( common*2+edge, mix( u1.size(), hd(w) ) ) );
	}, [&]{ return str( a,' ',b,' ',t.name,flip?" corners given as ":"",flip,jitter>=0?" last-place offsets ":"",jitter ); } );
}

template<class T>
void accessors( const R& a, const Tab& t, int flip )
{
	run( [&]{
		double x0=t.x[a.x0],x1=t.x[a.x1],y0=t.y[a.y0],y1=t.y[a.y1], w=x1-x0, h=y1-y0, cx=(x0+x1)/2, cy=(y0+y1)/2;
		double tol = sizeof(T)==4 ? ( std::fabs(x0)>1e2 ? 3e-4 : 2e-5 ) : 1e-9;
		auto N=[&]( double v, double e ) { return std::fabs(v-e) <= tol*std::max(1.,std::fabs(e)); };
		auto P=[&]( auto p, double x, double y ) { return N((double)p.getX(),x)&&N((double)p.getY(),y); };
		auto verify=[&]( const FRect_<T>& r, const char* how )
		{
			step(20);
			auto pp=r.getPts(); auto fp=getPts(r);
			check( P(pp.first,x0,y0)&&P(pp.second,x1,y1)&&P(fp.first,x0,y0)&&P(fp.second,x1,y1), "getPts", [&]{ return str( how,": ",r ); } );
			check( N(r.width(),w)&&N(r.height(),h)&&N(width(r),w)&&N(height(r),h), "size", [&]{ return str( how,": ",r.width(),'x',r.height() ); } );
			check( N(r.area(),w*h)&&N(area(r),w*h), "area", [&]{ return str( how,": ",r.area() ); } );
			check( N(r.length(),2*w+2*h)&&N(length(r),2*w+2*h), "length", [&]{ return str( how,": ",r.length() ); } );
			check( r.size()==4, "count", "size()!=4" );
			check( P(r.getCenter(),cx,cy)&&P(getCenter(r),cx,cy), "center", [&]{ return str( how,": ",r.getCenter() ); } );
			auto p4=r.get4Pts(); auto f4=get4Pts(r);
			double ex[4]={x0,x0,x1,x1}, ey[4]={y0,y1,y1,y0};
			bool ok=true; for( int i=0;i<4;i++ ) ok = ok && P(p4[i],ex[i],ey[i]) && P(f4[i],ex[i],ey[i]);
			check( ok, "get4Pts", [&]{ return str( how,": ",p4[0],p4[1],p4[2],p4[3] ); } );
			auto ss=r.getSegs(); auto fs=getSegs(r); ok=true;
			for( int i=0;i<4;i++ ) { Segment_<T> e( p4[i], p4[(i+1)%4] ); ok = ok && ss[i]==e && fs[i]==e; }
			check( ok, "getSegs", how );
			auto d=r.getDiagonals(); auto fd=getDiagonals(r);
			check( d.first==Segment_<T>(p4[0],p4[2]) && d.second==Segment_<T>(p4[1],p4[3]) && fd.first==d.first && fd.second==d.second, "diagonals", [&]{ return str( how,": ",d.first,d.second ); } );
			auto bc=r.getBoundingCircle(); auto fb=getBoundingCircle(r);
			check( P(bc.center(),cx,cy)&&N(bc.radius(),std::hypot(w,h)/2)&&bc==fb, "bounding-circle", [&]{ return str( how,": ",bc ); } );
			auto ic=r.getInscribedCircle(); auto fi=getInscribedCircle(r);
			double dtol = tol; tol=std::max( tol, 1e-7 );
			check( P(ic.center(),cx,cy)&&N(ic.radius(),std::min(w,h)/2)&&ic==fi, "inscribed-circle", [&]{ return str( how,": ",ic ); } );
			tol=dtol;
			auto xr=r.getExtended().getPts();
			check( P(xr.first,x0-w,y0-h)&&P(xr.second,x1+w,y1+h), "extended", [&]{ return str( how,": ",r.getExtended() ); } );
			check( r==r && !(r!=r), "self", how );
			auto bb=r.getBB().getPts(); check( P(bb.first,x0,y0)&&P(bb.second,x1,y1), "bb", how );
			outcome( mix( hd(w), hd(h) ) );
		};
		FRect_<T> r=mk<T>(a,t,flip);
		verify( r, "from two points" );
		auto p=r.getPts();
		verify( FRect_<T>( std::make_pair( flip&1?p.second:p.first, flip&1?p.first:p.second ) ), "from a pair" );
		verify( FRect_<T>( (T)(flip&1?x1:x0), (T)(flip&2?y1:y0), (T)(flip&1?x0:x1), (T)(flip&2?y0:y1) ), "from coordinates" );
		{ FRect_<T> q; q.set( (T)(flip&1?x1:x0), (T)(flip&2?y1:y0), (T)(flip&1?x0:x1), (T)(flip&2?y0:y1) ); verify( q, "set(coordinates)" ); }
		{ FRect_<T> q; q.set( Point2d_<T>( (T)(flip&1?x1:x0), (T)(flip&2?y1:y0) ), Point2d_<T>( (T)(flip&1?x0:x1), (T)(flip&2?y0:y1) ) ); verify( q, "set(points)" ); }
		verify( FRect_<T>( Point2d_<T>((T)cx,(T)cy), w, h ), "from center" );
		{ FRect_<T> q; q=r; verify( q, "assigned" ); FRect_<double> z(r); FRect_<T> c(z); verify( c, "converted" ); }
		{ FRect_<T> q; q=r; q.translate( 3, -2 ); q.translate( std::make_pair(-3,2) ); verify( q, "translated there and back" ); }
		{ FRect_<T> q; q=r; q.moveTo( 0, 0 ); q.moveTo( r.getPts().first ); verify( q, "moved there and back" ); }
		// refused input leaves the object unchanged
		{ FRect_<T> q; q=r;
			check( thrown([&]{ q.set( (T)x0,(T)y0,(T)x0,(T)y1 ); })==1, "degenerate", "same x accepted" ); verify( q, "after refused set" );
			check( thrown([&]{ q.set( (T)x0,(T)y0,(T)x1,(T)y0 ); })==1, "degenerate", "same y accepted" ); verify( q, "after refused set" );
			check( thrown([&]{ FRect_<T> z( Point2d_<T>((T)cx,(T)cy), w, 0 ); })==1, "degenerate", "null height accepted" );
			check( thrown([&]{ FRect_<T> z( Point2d_<T>((T)cx,(T)cy), 0, h ); })==1, "degenerate", "null width accepted" ); }
	}, [&]{ return str( a,' ',t.name," flip ",flip ); } );
}

int main( int argc, char** argv )
{
	init( argc, argv );
	int n = thorough() ? 6 : 5;
	std::vector<R> rs; for( int x0=0;x0<n;x0++ ) for( int x1=x0+1;x1<n;x1++ ) for( int y0=0;y0<n;y0++ ) for( int y1=y0+1;y1<n;y1++ ) rs.push_back({x0,y0,x1,y1});
	std::vector<R> r4; for( auto& r: rs ) if( r.x1<4 && r.y1<4 ) r4.push_back(r);
	for( auto& t: tabs(n) )
	{
		section( str( "pairs-",t.name ) );
		for( auto& a: rs ) for( auto& b: rs ) pair<double,double>( a, b, t, 0 );
	}
	section( "listings" );
	for( auto& a: r4 ) for( auto& b: r4 ) for( int f=1;f<16;f++ ) pair<double,double>( a, b, tabs(n)[2], f );
	section( "last-place" );
	for( int k: {2,4} ) for( auto& a: r4 ) for( auto& b: r4 ) for( int j=1;j<81;j++ ) pair<double,double>( a, b, tabs(n)[k], 0, j );
	for( int k: {0,1} )
	{
		section( "float" ); for( auto& a: r4 ) for( auto& b: r4 ) pair<float,float>( a, b, tabs(n)[k], 0 );
		section( "long double" ); for( auto& a: r4 ) for( auto& b: r4 ) pair<long double,long double>( a, b, tabs(n)[k], 0 );
		section( "mixed" ); for( auto& a: r4 ) for( auto& b: r4 ) { pair<float,double>( a, b, tabs(n)[k], 0 ); pair<double,long double>( a, b, tabs(n)[k], 0 ); }
	}
	section( "float-uneven" ); for( auto& a: r4 ) for( auto& b: r4 ) pair<float,float>( a, b, tabs(n)[3], 0 );
	for( auto& t: tabs(n) ) for( auto& a: rs ) for( int f=0;f<4;f++ )
	{
		section( "accessors" ); accessors<double>( a, t, f );
		section( "accessors-long" ); accessors<long double>( a, t, f );
		if( std::string(t.name)!="far" && std::string(t.name)!="uneven" && std::string(t.name)!="uneven-swapped" ) { section( "accessors-float" ); accessors<float>( a, t, f ); }
	}
	return finish();
}
