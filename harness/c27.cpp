// C27: vantage point tree against a linear scan. Positions, query and radius are symbolic choices from catalogues; every comparison of distances is
// decided over all of them. Distances are floats and the tree prunes with rounded distances, so the oracle leaves a tolerance.
#include "rk.h"
#include <routingkit/geo_position_to_node.h>
#include <routingkit/geo_dist.h>
#include <vector>
#include <cmath>
using namespace RoutingKit;
typedef std::vector<float> F;
#ifndef POINTS
#define POINTS 10
#endif
#ifndef SYMS
#define SYMS 2
#endif
#ifndef FIRSTSYM
#define FIRSTSYM 3
#endif
#ifndef SEEDS
#define SEEDS 2
#endif
#ifndef CITY
#define CITY 0
#endif
#ifndef TOL
#define TOL (CITY==1?0.5:10.0)
#endif
// world: poles, both sides of the antimeridian, equator, near-antipodes of (0,0), a cluster in Europe
static const float WLAT[16]={0,90,-90,0,0,49,49.01f,48.99f,-35,37.6000023f,0.5f,-0.25f,60,-60,42.5f,-33};
static const float WLON[16]={0,0,120,180,-179.9f,8.4f,8.41f,8.6f,149,-120,179.5f,-179.75f,-20,20,-100,-70};
static const float WRAD[8]={0,1000,2000000,20100000,800,6000000,9000000,40000};
static const float CRAD[8]={0,30,90,150,400,1000,60,5000};
static float lat_of(unsigned k){ if(CITY==3) return 0.002f*(float)(int)(k%4)-0.003f; if(CITY==2) return 0.002f*(float)(int)(k%4)-0.003f; return CITY? 49.0f+0.001f*(float)(int)(k%4)+0.0001f*(float)(int)(k/4) : WLAT[k]; }
static float lon_of(unsigned k){ if(CITY==3) return -91.004f+0.0021f*(float)(int)(k/4); if(CITY==2) return k<8? 179.998f-0.0015f*(float)(int)(k/4) : -179.999f+0.003f*(float)(int)(k/4-2); return CITY? 8.4f+0.001f*(float)(int)(k/4)-0.0002f*(float)(int)(k%4) : WLON[k]; }
static float LAT[16], LON[16], RAD[8];
static void setup(){ for(unsigned k=0;k<16;++k){ LAT[k]=lat_of(k); LON[k]=lon_of(k); } for(unsigned k=0;k<8;++k) RAD[k]= CITY? CRAD[k]:WRAD[k]; }
static unsigned rng; static float rnd(float lo, float hi){ rng=rng*1103515245u+12345u; return lo+(hi-lo)*(float)((rng>>16)&1023)/1023.0f; }
static void points(F&lat, F&lon, unsigned n, unsigned first, unsigned syms){
	rng=7+13*rk_choose("seed",0,0,SEEDS-1);
	for(unsigned i=0;i<n;++i){
		if(i>=first && i<first+syms){ unsigned k=rk_sym("p",i,0,15); lat.push_back(LAT[k]); lon.push_back(LON[k]); }
		else if(CITY==3){ if(i<10){ lat.push_back(0.01f*(float)(int)i); lon.push_back(0); } else if(i==10){ lat.push_back(0); lon.push_back(89); } else { lat.push_back(rnd(-0.004f,0.004f)); lon.push_back(-91.0f+rnd(-0.004f,0.004f)); } }
		else if(CITY==2){ if(i==0){ lat.push_back(0); lon.push_back(0); } else { lat.push_back(rnd(-0.004f,0.004f)); float x=rnd(-0.004f,0.004f); lon.push_back(x<0?x+180.0f:x-180.0f); } }
		else if(CITY){ lat.push_back(rnd(48.998f,49.005f)); lon.push_back(rnd(8.398f,8.406f)); }
		else if(i%3==2){ unsigned k=(i*5)%16; lat.push_back(LAT[k]+0.01f); lon.push_back(LON[k]*0.99f); }
		else { lat.push_back(rnd(-85,85)); lon.push_back(rnd(-180,180)); } }
}
static void check(const F&lat, const F&lon, float qa, float qo, float rad){
	GeoPositionToNode g(lat,lon); const unsigned n=lat.size();
	rk_assert(g.point_count()==n,"point count");
	std::vector<double> d(n); for(unsigned i=0;i<n;++i) d[i]=geo_dist(qa,qo,lat[i],lon[i]);
#ifndef ALLONLY
	auto r=g.find_nearest_neighbor_within_radius(qa,qo,rad);
	double lim=rad;
	if(r.id!=invalid_id){ rk_assert(r.id<n,"an existing point"); rk_assert(std::fabs(d[r.id]-(double)r.distance)<=TOL,"distance of the point"); rk_assert(r.distance<=rad,"within the radius"); lim=r.distance; }
	for(unsigned i=0;i<n;++i) rk_assert(!(d[i]<lim-TOL),"no point is nearer");
#endif
#ifndef NEARONLY
	auto v=g.find_all_nodes_within_radius(qa,qo,rad); std::vector<unsigned> seen(n,0);
	for(auto&x:v){ rk_assert(x.id<n,"an existing point"); rk_assert(!seen[x.id],"each point once"); seen[x.id]=1; rk_assert(std::fabs(d[x.id]-(double)x.distance)<=TOL,"distance of a point"); rk_assert(x.distance<=rad,"within the radius"); }
	for(unsigned i=0;i<n;++i) if(!seen[i]) rk_assert(!(d[i]<rad-TOL),"all points within the radius");
#endif
	rk_reach("end");
}
RK_ENTRY(lookup){
	setup(); F lat,lon; points(lat,lon,POINTS,FIRSTSYM,SYMS);
	unsigned q=rk_sym("q",0,0,15); check(lat,lon,LAT[q],LON[q],RAD[rk_sym("r",0,0,7)]);
}
// great-circle distance computed another way
static double haversine(double a, double b, double c, double d){ const double k=3.14159265359/180.0; double x=std::sin((c-a)*k*0.5), y=std::sin((d-b)*k*0.5); double h=x*x+y*y*std::cos(a*k)*std::cos(c*k); double g=1-h; g = g>0?g:0; return 2*6371000.785*std::atan2(std::sqrt(h),std::sqrt(g)); }
RK_ENTRY(metric){
	setup(); unsigned p=rk_sym("p",0,0,15), q=rk_sym("q",0,0,15); double a=LAT[p],b=LON[p],c=LAT[q],d=LON[q]; double x=geo_dist(a,b,c,d);
	rk_assert(x==x,"distance is a number"); rk_assert(x>=0,"distance is not negative"); rk_assert(std::fabs(x-haversine(a,b,c,d))<=1.0,"great-circle distance"); rk_assert(std::fabs(x-geo_dist(c,d,a,b))<=1.0,"symmetric");
	rk_reach("end");
}
RK_ENTRY(few){ // no tree: 0..3 points, equal ones included
	setup(); F lat,lon; unsigned n=rk_choose("n",0,0,3); points(lat,lon,n,0,n); unsigned q=rk_sym("q",0,0,15); check(lat,lon,LAT[q],LON[q],RAD[rk_sym("r",0,0,7)]);
}
RK_ENTRY(inclusive){ // a point whose distance is exactly the radius is within the radius
	setup(); F lat,lon; unsigned n=rk_choose("n",0,1,2); points(lat,lon,n,0,n); unsigned q=rk_sym("q",0,0,15); GeoPositionToNode g(lat,lon);
	auto r=g.find_nearest_neighbor_within_radius(LAT[q],LON[q],3e7f); rk_assert(r.id<n,"some point is nearest");
	auto r2=g.find_nearest_neighbor_within_radius(LAT[q],LON[q],r.distance); rk_assert(r2.id<n && r2.distance==r.distance,"nearest point at the radius");
	auto v=g.find_all_nodes_within_radius(LAT[q],LON[q],r.distance); bool in=false; for(auto&x:v) if(x.id==r.id) in=true; rk_assert(in,"point at the radius");
	rk_reach("end");
}
RK_ENTRY(equal){ // all points at one place, or two places: the tree has empty-looking halves
	setup(); F lat,lon; unsigned n=rk_choose("n",0,8,19), cut=rk_choose("cut",0,0,3)*n/3; for(unsigned i=0;i<n;++i){ lat.push_back(i<cut?10.0f:20.0f); lon.push_back(30); }
	unsigned q=rk_sym("q",0,0,15); check(lat,lon,LAT[q],LON[q],RAD[rk_sym("r",0,0,7)]);
}
